// C22: msat::str against plain references
#include "common.h"
#include <msat/utils/string.h>
#include <vector>
#include <list>
#include <algorithm>
#include <sys/stat.h>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using namespace vf; using namespace msat::str; using std::string; using std::vector;
static string shown(const string& s) { string o; for (unsigned char c : s.substr(0, 60)) if (c >= 32 && c < 127) o += (char)c; else o += fmt("<%02x>", c); return o; }
// a copy with nothing allocated after its terminator
static string tight(const string& s) { string r(s.data(), s.size()); r.shrink_to_fit(); return r; }
static string text(Rng& r, const char* alphabet = nullptr, size_t max = 60) {
    static const char HARD[] = "\"\\nx\n\t%+=/09afAF{z \0\x7f\x80\xff"; size_t n = r.chance(0.1) ? 0 : r.chance(0.5) ? r.below(8) : r.chance(0.95) ? r.below(max) : r.below(3000); string s; int how = alphabet ? 9 : r.below(5);
    for (size_t i = 0; i < n; ++i) s += how == 9 ? alphabet[r.below(strlen(alphabet))] : how == 0 ? (char)r.below(256) : how == 1 ? (char)r.range(32, 126) : how == 2 ? HARD[r.below(sizeof HARD)] : how == 3 ? (char)r.range(0, 40) : "ab/.+"[r.below(5)];
    return tight(s);
}
static bool hex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int hexval(const string& s) { int v = 0; for (char c : s) v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); return v; }
// ---- base64
static string ref64(const string& s) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string bits, o; for (unsigned char c : s) for (int b = 7; b >= 0; --b) bits += (c >> b & 1) ? '1' : '0'; while (bits.size() % 6) bits += '0'; for (size_t i = 0; i < bits.size(); i += 6) { int v = 0; for (int k = 0; k < 6; ++k) v = v * 2 + (bits[i + k] == '1'); o += A[v]; } while (o.size() % 4) o += '='; return o; }
static void base64(uint64_t, Rng& r) {
    for (int k = 0; k < 300; ++k) {
        string s = text(r), want = ref64(s), e = encode_base64(s); VEXPECT(e == want, "base64-encode", "'%s' gives '%s', not '%s'", shown(s).c_str(), shown(e).c_str(), shown(want).c_str());
        { char* p = new char[s.size() + !s.size()]; memcpy(p, s.data(), s.size()); VEXPECT(encode_base64(p, s.size()) == want, "base64-encode", "the buffer '%s'", shown(s).c_str()); delete[] p; }
        string d = decode_base64(tight(want)); VEXPECT(d == s, "base64-decode", "'%s' gives '%s', not '%s'", shown(want).c_str(), shown(d).c_str(), shown(s).c_str()); obs("base64", fmt("%zu mod 3, %s", s.size() % 3, s.empty() ? "empty" : s.size() < 100 ? "short" : "long"));
        string m = want; for (int n = 1 + r.below(3); n-- > 0;) switch (r.below(5)) { case 0: m = m.substr(0, r.below(m.size() + 1)); break; case 1: if (!m.empty()) m[r.below(m.size())] = (char)r.below(256); break; case 2: m.insert(r.below(m.size() + 1), string(1 + r.below(4), '=')); break; case 3: m += string(1 + r.below(6), '='); break; case 4: m = text(r); break; }
        d = decode_base64(tight(m)); VEXPECT(d.size() <= (m.size() + 3) / 4 * 3, "base64-decode", "%zu characters give %zu", m.size(), d.size());
    }
    for (int c = 0; c < 256; ++c) { string q(4, 'A'); q[r.below(4)] = (char)c; decode_base64(tight(q)); decode_base64(tight(string(1, (char)c))); } sample("base64 of " + shown(text(r)));
}
// ---- URL
static string refurl(const string& s) { static const string H = "0123456789abcdef"; string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '%') { if (s.size() - i < 3) break; o += (char)hexval(s.substr(i + 1, 2)); i += 2; } else o += s[i]; } return o; }
static void url(uint64_t, Rng& r) {
    for (int k = 0; k < 300; ++k) {
        string s = text(r), e = encode_url(s), back = decode_url(tight(e)); VEXPECT(back == s, "url-roundtrip", "'%s' is '%s' and then '%s'", shown(s).c_str(), shown(e).c_str(), shown(back).c_str());
        bool clean = true; for (size_t i = 0; i < e.size(); ++i) if (e[i] == '%') clean = clean && i + 2 < e.size() && hex(e[i + 1]) && hex(e[i + 2]); else clean = clean && e[i] && (isalnum((unsigned char)e[i]) || strchr("-_.~!*'()", e[i])) && (unsigned char)e[i] < 128; VEXPECT(clean, "url-encode", "'%s' is not safe in a URL", shown(e).c_str());
        string m; for (int i = r.below(20); i-- > 0;) if (r.chance(0.4)) { m += '%'; for (int q = 0; q < 2; ++q) m += "0123456789abcdefABCDEF"[r.below(22)]; } else m += (char)(r.chance(0.8) ? r.range('&', '~') : r.below(256)); if (r.chance(0.3)) m += r.chance(0.5) ? "%" : "%4";
        bool formed = true; for (size_t i = 0; i + 2 < m.size(); ++i) if (m[i] == '%') { formed = formed && hex(m[i + 1]) && hex(m[i + 2]); i += 2; } string d = decode_url(tight(m)); if (formed) VEXPECT(d == refurl(m), "url-decode", "'%s' gives '%s', not '%s'", shown(m).c_str(), shown(d).c_str(), shown(refurl(m)).c_str());
        string t = tight(s + (r.chance(0.5) ? "%" : "") + text(r)); d = decode_url(t); VEXPECT(d.size() <= t.size(), "url-decode", "%zu characters give %zu", t.size(), d.size()); obs("url", fmt("%s %zu", formed ? "formed" : "malformed", std::min<size_t>(m.size(), 20)));
    }
    VEXPECT(decode_url("%") == "" && decode_url("a%") == "a" && decode_url("a%4") == "a" && decode_url("") == "", "url-partial", "'%%' gives '%s'", shown(decode_url("%")).c_str());
}
// ---- C strings
static string refc(const string& s, size_t& n) { string o; size_t i = 0; while (i < s.size() && s[i] != '"') { if (s[i] == '\\' && i + 1 < s.size()) { char c = s[i + 1]; i += 2; if (c == 'n') o += '\n'; else if (c == 't') o += '\t'; else if (c == 'x') { size_t j = i; while (j < i + 2 && j < s.size() && hex(s[j])) ++j; o += (char)hexval(s.substr(i, j - i)); i = j; } else o += c; } else o += s[i++]; } if (i < s.size()) ++i; n = i; return o; }
static void cstr(uint64_t, Rng& r) {
    for (int k = 0; k < 300; ++k) {
        string s = text(r), e = encode_cstring(s); bool clean = true; for (size_t i = 0; i < e.size(); ++i) { if ((unsigned char)e[i] < 32 || e[i] == 127 || e[i] == '"') clean = false; if (e[i] == '\\') ++i; if (i >= e.size()) clean = false; } VEXPECT(clean, "cstring-encode", "'%s' cannot stand between quotes", shown(e).c_str());
        size_t n = 77777; string tail = r.chance(0.3) ? string() : "\"" + text(r), d = decode_cstring(tight(e + tail), n); VEXPECT(d == s && n == e.size() + (tail.empty() ? 0 : 1), "cstring-roundtrip", "'%s' is '%s' and then '%s' (%zu of %zu parsed)", shown(s).c_str(), shown(e).c_str(), shown(d).c_str(), n, e.size());
        string m; for (int i = r.below(14); i-- > 0;) switch (r.below(6)) { case 0: m += "\\x" + string(r.below(4), "0123456789abcdefABCDEF"[r.below(22)]); break; case 1: m += '\\'; m += "nt\"\\qx0"[r.below(7)]; break; case 2: m += text(r, nullptr, 10); break; case 3: m += (char)r.below(256); break; case 4: m += "0aFg"[r.below(4)]; break; case 5: if (r.chance(0.1)) m += '"'; break; } if (r.chance(0.2)) m += '\\'; if (r.chance(0.2)) m += "\\x";
        size_t n2 = 88888, w2; d = decode_cstring(tight(m), n2); string w = refc(m, w2); VEXPECT(d == w && n2 == w2, "cstring-decode", "'%s' gives '%s' (%zu), not '%s' (%zu)", shown(m).c_str(), shown(d).c_str(), n2, shown(w).c_str(), w2); obs("cstring", fmt("%d %d", m.find("\\x") != string::npos, w2 == m.size()));
    }
}
// ---- split and join
static void splits(uint64_t, Rng& r) {
    for (int k = 0; k < 200; ++k) {
        const char* al = r.chance(0.6) ? "a,b" : r.chance(0.5) ? "aab" : nullptr; string s = text(r, al, 30), sep = r.chance(0.1) ? string() : r.chance(0.7) ? string(1, ",a/"[r.below(3)]) : text(r, al, 4).substr(0, 4); bool skip = r.chance(0.5);
        vector<string> want, rest; if (!s.empty()) { if (sep.empty()) for (char c : s) want.push_back(string(1, c)); else { size_t p = 0, q; while ((q = s.find(sep, p)) != string::npos) { want.push_back(s.substr(p, q - p)); p = q + sep.size(); rest.push_back(s.substr(p)); } want.push_back(s.substr(p)); rest.push_back(""); } }
        vector<string> full = want; if (skip) want.erase(std::remove(want.begin(), want.end(), string()), want.end());
        Split sp(s, sep, skip); vector<string> got, rems; size_t guard = 0; for (auto i = sp.begin(); i != sp.end() && guard < s.size() + 5; ++i, ++guard) { got.push_back(*i); VEXPECT(i->size() == got.back().size(), "split", "-> and * differ"); rems.push_back(i.remainder()); auto j = i; VEXPECT(j == i && !(j != i), "split-iterator", "a copy of an iterator differs"); ++j; VEXPECT(i != j && *i == got.back(), "split-iterator", "advancing a copy moves the iterator"); }
        if (sep.empty() && !skip && !got.empty() && got.back().empty()) { got.pop_back(); rems.pop_back(); } // nothing says whether the empty string after the last character counts
        VEXPECT(got == want, "split", "'%s' at '%s'%s gives [%s], not [%s]", shown(s).c_str(), shown(sep).c_str(), skip ? " without empty tokens" : "", shown(join("|", got)).c_str(), shown(join("|", want)).c_str());
        if (got == want && !sep.empty() && !skip) { VEXPECT(rems == rest, "split-remainder", "'%s' at '%s': [%s], not [%s]", shown(s).c_str(), shown(sep).c_str(), shown(join("|", rems)).c_str(), shown(join("|", rest)).c_str()); string j = join(sep, got.begin(), got.end()); VEXPECT(j == s, "join", "joining gives '%s', not '%s'", shown(j).c_str(), shown(s).c_str()); }
        if (got == want && !sep.empty() && skip) for (size_t i = 0; i < got.size(); ++i) { vector<string> tail; Split t(rems[i], sep, true); for (const auto& x : t) { tail.push_back(x); if (tail.size() > s.size()) break; } VEXPECT(tail == vector<string>(want.begin() + i + 1, want.end()), "split-remainder", "'%s' at '%s': after token %zu there remains '%s'", shown(s).c_str(), shown(sep).c_str(), i, shown(rems[i]).c_str()); VEXPECT(rems[i].size() < sep.size() || rems[i].compare(0, sep.size(), sep) != 0, "split-remainder", "the remainder '%s' begins with a separator", shown(rems[i]).c_str()); }
        if (guard == 0) VEXPECT(sp.begin().remainder().empty() && sp.begin() == sp.end(), "split-remainder", "something remains of '%s'", shown(s).c_str());
        std::list<string> l(full.begin(), full.end()); string a, b; bool first = true; for (auto& x : full) { if (!first) a += sep; first = false; a += x; } VEXPECT(join(sep, l) == a && join(sep, full.begin(), full.end()) == a, "join", "[%s]", shown(a).c_str()); int ni = r.below(5); vector<int> iv; string is; for (int i = 0; i < ni; ++i) { iv.push_back(r.range(-99, 99)); is += (i ? sep : string()) + std::to_string(iv.back()); } VEXPECT(join(sep, iv) == is, "join", "numbers: '%s'", shown(join(sep, iv)).c_str());
        obs("split", fmt("%s sep %zu, %zu tokens%s", s.empty() ? "empty" : "text", sep.size(), std::min<size_t>(want.size(), 9), skip ? " skip" : ""));
    }
    sample("split " + shown(text(r)));
}
// ---- strip, case, prefixes
static void simple(uint64_t, Rng& r) {
    auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
    for (int k = 0; k < 300; ++k) {
        string s = text(r, r.chance(0.5) ? " \t\n\v\f\r\bxA" : nullptr, 20); size_t b = 0, e = s.size(); while (b < s.size() && sp(s[b])) ++b; while (e > 0 && sp(s[e - 1])) --e; string L = s.substr(b), R = s.substr(0, e), S = b < e ? s.substr(b, e - b) : "";
        VEXPECT(lstrip(s) == L, "strip", "lstrip '%s' gives '%s'", shown(s).c_str(), shown(lstrip(s)).c_str()); VEXPECT(rstrip(s) == R, "strip", "rstrip '%s' gives '%s'", shown(s).c_str(), shown(rstrip(s)).c_str()); VEXPECT(strip(s) == S, "strip", "strip '%s' gives '%s'", shown(s).c_str(), shown(strip(s)).c_str()); obs("strip", fmt("%d %d %d", b > 0, e < s.size(), S.empty()));
        string t = text(r), u, l; for (char c : t) { u += c >= 'a' && c <= 'z' ? (char)(c - 32) : c; l += c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; } VEXPECT(upper(t) == u && lower(t) == l, "case", "'%s': '%s', '%s'", shown(t).c_str(), shown(upper(t)).c_str(), shown(lower(t)).c_str());
        string p = r.chance(0.5) ? t.substr(0, r.below(t.size() + 1)) : text(r, nullptr, 6), q = r.chance(0.5) ? t.substr(r.below(t.size() + 1)) : text(r, nullptr, 6); if (r.chance(0.3) && !p.empty()) p[r.below(p.size())] ^= 1; if (r.chance(0.3) && !q.empty()) q[r.below(q.size())] ^= 1; bool sw = p.size() <= t.size() && std::equal(p.begin(), p.end(), t.begin()), ew = q.size() <= t.size() && std::equal(q.rbegin(), q.rend(), t.rbegin());
        VEXPECT(startswith(t, p) == sw, "startswith", "'%s' and '%s'", shown(t).c_str(), shown(p).c_str()); VEXPECT(endswith(t, q) == ew, "endswith", "'%s' and '%s'", shown(t).c_str(), shown(q).c_str()); obs("affix", fmt("%d %d %d %d", sw, ew, p.empty(), q.empty()));
    }
}
// ---- paths
static string refnorm(const string& p) { bool abs = !p.empty() && p[0] == '/'; vector<string> st; size_t i = 0; while (i <= p.size()) { size_t j = p.find('/', i); if (j == string::npos) j = p.size(); string c = p.substr(i, j - i); i = j + 1; if (c.empty() || c == ".") continue; if (c == "..") { if (!st.empty() && st.back() != "..") st.pop_back(); else if (!abs) st.push_back(c); } else st.push_back(c); } string o = abs ? "/" : ""; for (size_t k = 0; k < st.size(); ++k) o += (k ? "/" : "") + st[k]; return o.empty() ? "." : o; }
static string refjoin(const string& a, const string& b) { if (b.empty()) return a; if (a.empty()) return b; if (a.back() == '/') return a + (b[0] == '/' ? b.substr(1) : b); return b[0] == '/' ? a + b : a + "/" + b; }
static void paths(uint64_t, Rng& r) {
    for (int k = 0; k < 300; ++k) {
        string p = text(r, r.chance(0.8) ? "/..aab" : nullptr, 24), n = normpath(tight(p)); VEXPECT(n == refnorm(p), "normpath", "'%s' gives '%s', not '%s'", shown(p).c_str(), shown(n).c_str(), shown(refnorm(p)).c_str()); VEXPECT(normpath(n) == n, "normpath", "'%s' is not stable", shown(n).c_str());
        string b = basename(p); size_t sl = p.rfind('/'); VEXPECT(b == (sl == string::npos ? p : p.substr(sl + 1)), "basename", "'%s' gives '%s'", shown(p).c_str(), shown(b).c_str());
        string t = p; while (t.size() > 1 && t.back() == '/') t.pop_back(); string D = p.empty() ? "." : t == "/" ? "/" : t; if (D != "/" && !p.empty()) { size_t q = t.rfind('/'); if (q == string::npos) D = "."; else { D = t.substr(0, q); while (!D.empty() && D.back() == '/') D.pop_back(); if (D.empty()) D = "/"; } } string d = dirname(p); VEXPECT(d == D, "dirname", "'%s' gives '%s', not '%s'", shown(p).c_str(), shown(d).c_str(), shown(D).c_str());
        string x = text(r, "/.ab", 8), y = text(r, "/.ab", 8), z = text(r, "/.ab", 8), w = refjoin(x, y), g = x; appendpath(g, y); VEXPECT(g == w, "appendpath", "'%s' and '%s' give '%s'", x.c_str(), y.c_str(), g.c_str()); g = x; { char* c = strdup(y.c_str()); appendpath(g, (const char*)c); free(c); } VEXPECT(g == w, "appendpath", "'%s' and the C string '%s' give '%s'", x.c_str(), y.c_str(), g.c_str());
        string w3 = refjoin(refjoin(refjoin("", x), y), z); VEXPECT(joinpath(x, y, z) == w3 && joinpath(x, y.c_str(), z) == w3 && joinpath(x) == x, "joinpath", "'%s', '%s' and '%s' give '%s', not '%s'", x.c_str(), y.c_str(), z.c_str(), joinpath(x, y, z).c_str(), w3.c_str()); obs("path", fmt("%zu %d %d", std::min<size_t>(p.size(), 12), !p.empty() && p[0] == '/', p.find("..") != string::npos));
    }
}
// the same file is meant, in a real tree
static void tree(uint64_t, Rng& r) {
    string top = cfg().scratch + "/tree" + std::to_string(getpid()); mkdir(top.c_str(), 0755); vector<string> dirs{ top }, all{ top }; for (int i = 0; i < 12; ++i) { string d = r.pick(dirs), n = d + "/" + string(1, (char)('a' + i)); if (r.chance(0.6)) { mkdir(n.c_str(), 0755); dirs.push_back(n); } else write_file(n, n); all.push_back(n); } auto same = [](const string& a, const string& b) { struct stat x, y; return stat(a.c_str(), &x) == 0 && stat(b.c_str(), &y) == 0 && x.st_ino == y.st_ino && x.st_dev == y.st_dev; };
    for (int k = 0; k < 100; ++k) {
        string start = r.pick(dirs); if (chdir(start.c_str())) _exit(96); string target = r.pick(all), p; bool abs = r.chance(0.4); string at = abs ? "" : start; vector<string> go; if (!abs) for (string d = start; d != top; d = d.substr(0, d.rfind('/'))) p += r.chance(0.3) ? ".././" : r.chance(0.3) ? "..//" : "../"; string pos = abs ? "" : top; if (abs) { p = top; pos = top; }
        string tail = target.substr(top.size()); size_t i = 0; while (i < tail.size()) { size_t j = tail.find('/', i + 1); if (j == string::npos) j = tail.size(); if (r.chance(0.3)) { vector<string> sub; for (auto& d : dirs) if (d.size() == pos.size() + 2 && d.compare(0, pos.size(), pos) == 0) sub.push_back(d.substr(pos.size() + 1)); if (!sub.empty()) { if (!p.empty() && p.back() != '/') p += '/'; p += r.pick(sub) + "/../"; } } if (!p.empty() && p.back() != '/') p += '/'; if (r.chance(0.2)) p += p.empty() || p.back() != '/' ? "./" : r.chance(0.5) ? "/" : "./"; p += tail.substr(i + 1, j - i - 1); pos += tail.substr(i, j - i); i = j; } if (p.empty()) p = ".";
        if (!same(p, target)) { viol("harness", fmt("the path '%s' does not lead to '%s'", p.c_str(), target.c_str())); continue; }
        string n = normpath(p); VEXPECT(same(n, target), "normpath-file", "'%s', normalised '%s', is another file", p.c_str(), n.c_str()); VEXPECT(n.find("//") == string::npos && n.find("/./") == string::npos && (n == "." || n == "/" || (n.back() != '/' && n.substr(0, 2) != "./")), "normpath-form", "'%s'", n.c_str());
        if (n.back() != '.' ) { VEXPECT(same(joinpath(dirname(n), basename(n)), target), "dirname-file", "'%s' is not '%s' in '%s'", n.c_str(), basename(n).c_str(), dirname(n).c_str()); string par = target == top ? top.substr(0, top.rfind('/')) : target.substr(0, target.rfind('/')); VEXPECT(same(dirname(n), par), "dirname-file", "'%s' of '%s' is another directory", dirname(n).c_str(), n.c_str()); }
        obs("tree", fmt("%d %zu", abs, std::min<size_t>(p.size() - (abs ? top.size() : 0), 30)));
    }
    if (chdir(cfg().scratch.c_str())) _exit(96); for (size_t i = all.size(); i-- > 0;) if (::remove(all[i].c_str())) viol("harness", "cannot remove " + all[i]);
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; uint64_t m = cfg().thorough ? 12 : 1;
    add_group("base64", 80 * m, 10, 40, base64); add_group("url", 80 * m, 10, 40, url); add_group("cstring", 80 * m, 10, 40, cstr); add_group("split", 160 * m, 10, 40, splits); add_group("simple", 80 * m, 10, 40, simple); add_group("paths", 160 * m, 10, 40, paths); add_group("tree", 80 * m, 10, 40, tree);
    return run_all();
}
