// C24: configuration files, against a model of their entries
#include "common.h"
#include <msat/iniparser.h>
#include <map>
#include <memory>
using namespace vf; using std::string; using std::vector;
extern unsigned char vf_fill;
struct Arg { char* p; Arg(const string& s) : p(new char[s.size() + 1]) { memcpy(p, s.c_str(), s.size() + 1); } ~Arg() { delete[] p; } operator char*() { return p; } };
struct Val { bool null = false; string s; bool operator==(const Val& o) const { return null == o.null && s == o.s; } };
typedef std::map<string, Val> Model;
static string low(string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static string mixed(Rng& r, string s) { int how = r.below(4); for (auto& c : s) { if (c >= 'a' && c <= 'z' && (how == 1 || (how == 2 && r.chance(0.5)))) c -= 32; else if (c >= 'A' && c <= 'Z' && how == 3) c += 32; } return s; }
static string shown(const string& s) { string o; for (unsigned char c : s.substr(0, 70)) if (c >= 32 && c < 127) o += (char)c; else o += fmt("<%02x>", c); return o; }
static string word(Rng& r, const char* extra, size_t max) { string s; size_t n = 1 + (r.chance(0.03) ? r.below(400) : r.below(max)); for (size_t i = 0; i < n; ++i) { int k = r.below(10); s += k < 5 ? (char)r.range('a', 'z') : k < 7 ? (char)r.range('A', 'Z') : k < 8 ? (char)r.range('0', '9') : *extra ? extra[r.below(strlen(extra))] : '_'; } while (s[0] == ' ' || s[0] == '\t') s.erase(0, 1); while (!s.empty() && (s.back() == ' ' || s.back() == '\t')) s.pop_back(); if (s.empty()) s = "w"; return s; }
static string secname(Rng& r) { string s = word(r, " _-./=;#[\"'\xe8\x80", 12); return s; }
static string keyname(Rng& r) { string s = word(r, " _-./:;#[]\"'\xe8\x80\t", 12); while (strchr(";#[ \t", s[0])) s.erase(0, 1), s += 'k'; return s; }
static string value(Rng& r) {
    switch (r.below(8)) { case 0: return std::to_string(r.range(-2147483647, 2147483647)); case 1: return fmt("%.*g", (int)r.range(1, 17), r.real(-1, 1) * pow(10, r.range(-30, 30))); case 2: { static const char* B[] = { "yes", "No", "TRUE", "false", "1", "0", "true", "n", "Y", "F", "maybe", "on", "off", "T" }; return r.pick(std::vector<const char*>(B, B + 14)); } case 3: return r.chance(0.5) ? "" : string(1 + r.below(3), ' ') + "x" + string(r.below(3), ' '); case 4: { string s; for (int i = r.below(30); i-- > 0;) s += "a;#\"'= \t[]\\%:"[r.below(13)]; return s; } default: { string s; for (int i = r.chance(0.05) ? r.below(300) : r.below(25); i-- > 0;) { unsigned char c = r.chance(0.9) ? r.range(32, 126) : r.range(128, 255); s += (char)c; } return s; } }
}
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool plain(const string& v) { return !v.empty() && v.find_first_of(";#") == string::npos && v[0] != '"' && v[0] != '\'' && !blank(v[0]) && !blank(v.back()); }
static bool quotable(const string& v, char q) { return v.find(q) == string::npos; }
static bool writable(const string& v) { return plain(v) || quotable(v, '"') || quotable(v, '\''); }
struct Dict { dictionary* d; explicit Dict(const string& path) { Arg a(path); d = iniparser_new(a); } Dict(const Dict&) = delete; ~Dict() { if (d) iniparser_free(d); } };
static char DEF[] = "the default";
static void compare(Rng& r, dictionary* d, const Model& m, const char* when, bool loose = false) {
    size_t nsec = 0; for (auto& e : m) {
        Arg k(mixed(r, e.first)); char* g = iniparser_getstring(d, k, DEF); if (e.first.find(':') == string::npos) ++nsec; bool ok = g != DEF && (e.second.null ? g == nullptr || (loose && !*g) : g && e.second.s == g); VEXPECT(ok, "value", "%s: '%s' is '%s', not '%s'", when, shown(e.first).c_str(), g == DEF ? "not found" : g ? shown(g).c_str() : "NULL", e.second.null ? "NULL" : shown(e.second.s).c_str()); VEXPECT(iniparser_find_entry(d, k) == 1, "find", "%s: '%s' is not found", when, shown(e.first).c_str());
        char* g2 = iniparser_getstr(d, k); VEXPECT(g2 == g, "value", "%s: getstr and getstring differ", when);
        const string& v = e.second.s; int def = r.range(-9, 9), i = iniparser_getint(d, k, def), b = iniparser_getboolean(d, k, def); double f = iniparser_getdouble(d, k, 0.25);
        if (e.second.null) { if (!loose) VEXPECT(i == def && b == def && f == 0.25, "typed", "%s: '%s', which has no value, is %d, %d, %g", when, shown(e.first).c_str(), i, b, f); }
        else { char c = v.empty() ? 0 : v[0]; int wb = c && strchr("yY1tT", c) ? 1 : c && strchr("nN0fF", c) ? 0 : def; VEXPECT(b == wb, "typed", "%s: '%s' is truth %d (default %d)", when, shown(v).c_str(), b, def); char* end; long li = strtol(v.c_str(), &end, 10); if (end != v.c_str() && li > -2147483648LL && li < 2147483648LL) VEXPECT(i == li, "typed", "%s: '%s' is %d", when, shown(v).c_str(), i); double df = strtod(v.c_str(), &end); if (end != v.c_str()) VEXPECT(f == df || (std::isnan(f) && std::isnan(df)), "typed", "%s: '%s' is %.17g", when, shown(v).c_str(), f); }
    }
    VEXPECT(iniparser_getnsec(d) == (int)nsec, "sections", "%s: %d sections, not %zu", when, iniparser_getnsec(d), nsec); std::set<string> names; for (int i = 0; i < iniparser_getnsec(d); ++i) { char* n = iniparser_getsecname(d, i); if (!n) { viol("sections", fmt("%s: section %d has no name", when, i)); break; } names.insert(n); VEXPECT(m.count(n), "sections", "%s: there is no section '%s'", when, shown(n).c_str()); } VEXPECT(names.size() == nsec, "sections", "%s: %zu names for %zu sections", when, names.size(), nsec); VEXPECT(!iniparser_getsecname(d, (int)nsec) && !iniparser_getsecname(d, -1), "sections", "%s: section %zu of %zu has a name", when, nsec, nsec);
    for (int i = 0; i < 8; ++i) { string k = r.chance(0.2) ? string() : r.chance(0.5) && !m.empty() ? std::next(m.begin(), r.below(m.size()))->first : secname(r) + ":" + keyname(r); if (r.chance(0.6)) { if (r.chance(0.5)) k += "x"; else if (!k.empty()) k.erase(r.below(k.size()), 1); } bool there = m.count(low(k)); Arg a(k); VEXPECT(there == (iniparser_getstring(d, a, DEF) != DEF) && there == (iniparser_find_entry(d, a) == 1), "absent", "%s: '%s' should%s be there", when, shown(k).c_str(), there ? "" : " not"); if (!there) VEXPECT(iniparser_getint(d, a, 77) == 77 && iniparser_getdouble(d, a, -1.5) == -1.5 && iniparser_getboolean(d, a, 5) == 5 && !iniparser_getstr(d, a), "absent", "%s: '%s', which is not there, has a value", when, shown(k).c_str()); }
}
static string text(dictionary* d, bool ini) { char* p = nullptr; size_t n = 0; FILE* f = open_memstream(&p, &n); if (ini) iniparser_dump_ini(d, f); else iniparser_dump(d, f); fclose(f); string s(p, n); free(p); return s; }
static void again(Rng& r, dictionary* d, const Model& m, const char* when) {
    string t = text(d, true); for (auto& e : m) { size_t c = e.first.find(':'); if (!writable(e.second.s) || (c != string::npos && c > 0 && !m.count(e.first.substr(0, c)))) return; if (e.first.size() + e.second.s.size() > 900) return; }
    write_file("again.ini", t); Dict b("again.ini"); if (!b.d) { viol("roundtrip", "the written file cannot be read"); return; } compare(r, b.d, m, when, true); VEXPECT(b.d->n == (int)m.size(), "roundtrip", "%s: %d entries instead of %zu", when, b.d->n, m.size()); obs("roundtrip", fmt("%zu", std::min<size_t>(m.size(), 200) / 10));
    string dump = text(d, false); size_t lines = 0; for (auto& e : m) { string l = "[" + e.first + "]=" + (e.second.null ? string("UNDEF") : "[" + e.second.s + "]") + "\n"; VEXPECT(dump.find(l) != string::npos, "dump", "%s: the dump has no '%s'", when, shown(l).c_str()); lines += l.size(); } VEXPECT(dump.size() == lines, "dump", "%s: the dump has %zu bytes, not %zu", when, dump.size(), lines);
}
// a file with these entries
static string file(Rng& r, Model& m, bool big) {
    string o, sec; const char* eol = r.chance(0.3) ? "\r\n" : "\n"; vector<string> seen; auto extra = [&]() { if (r.chance(0.15)) { switch (r.below(5)) { case 0: o += string(r.below(4), ' '); break; case 1: o += string(r.below(3), ' ') + "; " + word(r, "=[]", 20); break; case 2: o += "#" + word(r, "=[]\"", 20) + " = x"; break; case 3: o += word(r, " \"'", 20); break; case 4: o += "= " + word(r, "", 9); break; } o += eol; } };
    int n = big ? 100 + r.below(500) : r.below(40); for (int i = 0; i < n; ++i) { extra();
        if (r.chance(0.2)) { string s = r.chance(0.2) && !seen.empty() ? r.pick(seen) : secname(r); seen.push_back(s); sec = low(s); m[sec] = Val{ true, "" }; o += string(r.below(3), ' ') + "[" + mixed(r, s) + "]" + (r.chance(0.2) ? " ; " + word(r, "", 6) : "") + eol; continue; }
        string k = keyname(r), v = value(r); if (r.chance(0.1) && !m.empty()) { auto& e = *std::next(m.begin(), r.below(m.size())); if (!e.second.null && e.first.compare(0, sec.size() + 1, sec + ":") == 0) k = e.first.substr(sec.size() + 1); } string w; vector<string> forms; if (plain(v)) forms.push_back(v); if (quotable(v, '"')) forms.push_back("\"" + v + "\""); if (quotable(v, '\'')) forms.push_back("'" + v + "'"); if (forms.empty()) continue; w = r.pick(forms); if (k.size() + w.size() > 900) continue;
        static const char* S[] = { "", " ", "  ", "\t" }; o += r.pick(std::vector<const char*>(S, S + 4)) + mixed(r, k) + S[r.below(4)] + "=" + S[r.below(4)] + w + S[r.below(4)]; if (r.chance(0.15)) o += string(r.chance(0.5) ? ";" : "# ") + word(r, "=\"", 9); o += eol; m[sec + ":" + low(k)] = Val{ false, v }; }
    extra(); if (r.chance(0.3)) while (!o.empty() && (o.back() == '\n' || o.back() == '\r')) o.pop_back(); return o;
}
static void run(Rng& r, bool big) {
    for (int k = 0; k < (big ? 2 : 10); ++k) {
        Model m; string t = file(r, m, big); write_file("a.ini", t); int fd = count_fds(); size_t h = heap(); { vf_fill = 0xAA; Dict d("a.ini"); if (!d.d) { viol("readable", "a file cannot be read"); continue; } VEXPECT(count_fds() == fd, "descriptors", "a descriptor is left open"); compare(r, d.d, m, "read"); VEXPECT(d.d->n == (int)m.size(), "entries", "%d entries instead of %zu", d.d->n, m.size()); again(r, d.d, m, "written"); obs("entries", fmt("%zu", m.size() < 40 ? m.size() : m.size() / 20 * 20));
            // a history of changes
            int steps = r.below(big ? 600 : 60); bool sane = true; for (int s = 0; s < steps; ++s) { string key; if (!m.empty() && r.chance(0.5)) key = std::next(m.begin(), r.below(m.size()))->first; else { string sec; if (r.chance(0.7)) { vector<string> secs; for (auto& e : m) if (e.first.find(':') == string::npos) secs.push_back(e.first); if (!secs.empty()) sec = r.pick(secs); if (sec.empty() || r.chance(0.1)) { string s2 = secname(r); Arg a(s2); VEXPECT(iniparser_setstr(d.d, a, nullptr) == 0, "set", "a section cannot be added"); m[low(s2)] = Val{ true, "" }; sec = low(s2); } } key = sec + ":" + keyname(r); if (r.chance(0.02)) key += string(1100, 'q') + word(r, "", 6); }
                string kk = mixed(r, key); Arg a(kk); bool section = key.find(':') == string::npos; int op = r.below(5); if (op == 0) { iniparser_unset(d.d, a); m.erase(low(key)); } else if (op == 1 && !section) { Arg b(value(r)); string vs = b.p; VEXPECT(iniparser_setstr(d.d, a, b) == 0, "set", "'%s' cannot be set", shown(key).c_str()); memset(b.p, 'Z', vs.size()); m[low(key)] = Val{ false, vs }; } else if (op == 2 && !section && m.count(low(key)) && !m[low(key)].null) { char* g = iniparser_getstring(d.d, a, DEF); if (g && g != DEF) { size_t skip = r.below(strlen(g) + 1); if (r.chance(0.5)) skip = 0; string vs = g + skip; iniparser_setstr(d.d, a, g + skip); m[low(key)] = Val{ false, vs }; } } else if (op == 3 && r.chance(0.2)) { iniparser_setstr(d.d, a, nullptr); m[low(key)] = Val{ true, "" }; } else { Arg b(value(r)); if (!section) { string vs = b.p; iniparser_setstr(d.d, a, b); m[low(key)] = Val{ false, vs }; } }
                if (r.chance(0.02)) compare(r, d.d, m, "changed"); } (void)sane;
            compare(r, d.d, m, "after changes"); VEXPECT(d.d->n == (int)m.size(), "entries", "%d entries instead of %zu after changes", d.d->n, m.size()); again(r, d.d, m, "changed and written"); obs("history", fmt("%d", steps / 10)); }
        (void)h; sample(fmt("%zu bytes: ", t.size()) + shown(t));
    }
}
static void small(uint64_t, Rng& r) { run(r, false); }
static void big(uint64_t, Rng& r) { run(r, true); }
static void __attribute__((noinline)) smear(int v) { volatile char b[20000]; memset((void*)b, v, sizeof b); }
static string everything(const string& path) { Dict d(path); if (!d.d) return "none"; string o = text(d.d, false) + text(d.d, true); for (int i = 0; i < iniparser_getnsec(d.d); ++i) o += iniparser_getsecname(d.d, i); for (int i = 0; i < d.d->size; ++i) if (d.d->key[i]) { string k = d.d->key[i]; Arg a(k); if (iniparser_find_entry(d.d, a) != 1 && low(k) == k) viol("find", fmt("the entry '%s' is there but not found", shown(k).c_str())); iniparser_getint(d.d, a, 0); iniparser_getdouble(d.d, a, 0); iniparser_getboolean(d.d, a, 0); evals(3); } return o; }
static void malformed(uint64_t, Rng& r) {
    static const char* K[] = { "none", "noise", "cut", "line", "long", "flip", "symbols", "nul" };
    for (int k = 0; k < 20; ++k) { Model m; string t = file(r, m, r.chance(0.1)), what; for (int n = 1 + r.below(2); n-- > 0;) { int q = r.below(8); what += string(what.empty() ? "" : "+") + K[q]; switch (q) { case 1: { size_t n2 = r.below(4000); t.resize(n2); for (auto& c : t) c = (char)r.below(256); break; } case 2: t.resize(r.below(t.size() + 1)); break; case 3: { static const char* L[] = { "[\n", "[]\n", "[]]\n", "[a\n", "=\n", "a=\n", "a=\"\n", "a='\n", "a=\"\"\n", "a=''x\n", "[a:b]\n", "a=;\n", "==\n", "a = = b\n", "\"\n", "[x] = y\n", "a\0=b\n" }; t.insert(r.below(t.size() + 1), L[r.below(17)]); break; } case 4: { string l(r.chance(0.5) ? 1000 + r.below(60) : r.below(9000), r.chance(0.5) ? 'a' : " =[]\""[r.below(5)]); if (r.chance(0.5)) l = "[" + l; else if (r.chance(0.5)) l.insert(r.below(l.size() + 1), " = \""); t.insert(r.below(t.size() + 1), "\n" + l + (r.chance(0.7) ? "]\n" : "")); if (r.chance(0.5)) t += "\n" + string(1000 + r.below(30), 'k') + "=v\n"; break; } case 5: for (int i = 1 + r.below(20); i-- > 0 && !t.empty();) t[r.below(t.size())] = (char)r.below(256); break; case 6: { string s; for (int i = r.below(600); i-- > 0;) s += "[]=\"';# a\n:"[r.below(11)]; t = s; break; } case 7: if (!t.empty()) t[r.below(t.size())] = 0; break; } }
        write_file("m.ini", t); note(what); int fd = count_fds(); vf_fill = 0xAA; smear(0xAA); string x = everything("m.ini"); vf_fill = 0; smear(0); string y = everything("m.ini"); VEXPECT(x == y, "uninitialised", "%s: what is read depends on unwritten memory", what.c_str()); VEXPECT(count_fds() == fd, "descriptors", "%s: a descriptor is left open", what.c_str()); size_t h = heap(); everything("m.ini"); everything("m.ini"); VEXPECT(heap() < h + 1000, "leak", "%s: %zu bytes are left", what.c_str(), heap() - h); obs("malformed", what); }
    Model m; write_file("l.ini", file(r, m, false)); vector<string> ks, vs; for (int i = 0; i < 60; ++i) { ks.push_back(r.chance(0.5) || m.empty() ? secname(r) + ":" + keyname(r) : std::next(m.begin(), r.below(m.size()))->first); vs.push_back(value(r) + string(40, 'v')); } auto work = [&](bool unset) { Dict d("l.ini"); for (int i = 0; i < 60; ++i) { iniparser_setstr(d.d, (char*)ks[i].c_str(), (char*)vs[i].c_str()); iniparser_setstr(d.d, (char*)ks[i].c_str(), i % 3 ? (char*)vs[59 - i].c_str() : nullptr); if (unset) iniparser_unset(d.d, (char*)ks[59 - i].c_str()); } };
    work(true); size_t h = heap(); work(true); work(false); work(true); VEXPECT(heap() < h + 30, "leak", "%zu bytes are left after changes", heap() - h);
    Dict no("nosuch.ini"); VEXPECT(!no.d, "missing", "a missing file gives a dictionary");
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; uint64_t m = cfg().thorough ? 10 : 1;
    add_group("small", 120 * m, 10, 60, small); add_group("big", 80 * m, 5, 60, big); add_group("malformed", 120 * m, 10, 60, malformed);
    return run_all();
}
