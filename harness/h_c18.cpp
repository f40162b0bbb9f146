// C18: damaged native-format files are refused without harm
#include "native.h"
#include "toolutil.h"
#include <sstream>
using namespace nf;
extern unsigned char vf_fill;
static void __attribute__((noinline)) smear(int v) { volatile char b[98304]; memset((void*)b, v, sizeof b); }
static uint64_t hostile(Rng& r, int n, uint64_t now) {
    uint64_t m = n == 8 ? ~0ULL : (1ULL << 8 * n) - 1;
    switch (r.below(12)) { case 0: return 0; case 1: return r.below(45); case 2: return 42; case 3: return m; case 4: return m >> 1; case 5: return (m >> 1) + 1; case 6: return now + 1 & m; case 7: return now - 1 & m; case 8: return now * 2 & m; case 9: return r.below(300); case 10: return now + r.range(-40, 40) & m; default: return r.u64() & m; }
}
static const char* KINDS[] = { "text", "number", "bands", "truncate", "packet-length", "line-bytes", "header-bytes", "trailer-bytes", "umarf-bytes", "extend", "line-gone", "line-twice", "zero", "address", "samples-more", "unterminated" };
static std::string damage(Rng& r, const File& f, std::string b, std::string& what) {
    auto rec = [&](int i) { return (size_t)(i < 6 ? 80 * i : i < 11 ? 480 + 62 * (i - 6) : 2154 + 80 * (i - 11)); }; auto val = [&](int i, std::string v) { v.resize(50, r.chance(0.5) ? ' ' : 0); if (b.size() >= rec(i) + 80) b.replace(rec(i) + 30, 50, v); };
    int k = r.below(16); what += std::string(what.empty() ? "" : "+") + KINDS[k]; static const std::vector<std::string> N = { "", "-1", "0", "1", "2", "7", "11136", "11137", "99999999", "2147483647", "2147483648", "4294967297", "9223372036854775808", "-9223372036854775809", "1e5", "abc", "%s%n", "0x10", "1 2", "\n5", "99999999999999999999999999999999999999999999999999" };
    switch (k) {
        case 0: { int i = r.below(48); std::string t = r.pick(std::vector<std::string>{ "", " ", "x", ":", " : ", ": 5", "a b c d : 4", std::string(80, 'A'), std::string(80, ' '), std::string(80, ':'), "Name:5", "Name :5" }); t.resize(i > 5 && i < 11 ? 62 : 80, r.chance(0.5) ? ' ' : (char)r.below(256)); if (b.size() >= 5114) b.replace(rec(i), t.size(), t); break; }
        case 1: val(40 + r.below(8), r.chance(0.3) ? fmt("%d", (int)r.below(14)) : r.pick(N)); break;
        case 2: { std::string t; switch (r.below(5)) { case 0: for (int i = 0; i < 12; ++i) t += r.chance(0.5) ? 'X' : '-'; break; case 1: t = std::string(r.below(51), 'X'); break; case 2: t = std::string(1 + r.below(11), 'X'); break; case 3: break; default: for (int i = 0; i < 50; ++i) t += (char)r.below(256); } val(39, t); break; }
        case 3: b.resize(r.chance(0.3) ? r.below(5200) : r.chance(0.5) && b.size() > f.datapos ? f.datapos + r.below(b.size() - f.datapos) : r.below(b.size() + 1)); break;
        case 4: { std::vector<size_t> p = f.packets; p.push_back(5114); p.push_back(f.trailerpos); size_t o = r.pick(p) + 18; if (o + 4 <= b.size()) put_be(b, o, hostile(r, 4, get_be(b, o, 4)), 4); break; }
        case 5: if (b.size() > f.datapos) for (int i = 1 + r.below(20); i-- > 0;) b[f.datapos + r.below(std::min<size_t>(b.size() - f.datapos, 4000))] = (char)r.below(256); break;
        case 6: for (int i = 1 + r.below(300); i-- > 0;) if (b.size() > 5114 + 38 + (size_t)HDR) b[5114 + r.below(38 + HDR)] = (char)r.below(256); break;
        case 7: for (int i = 1 + r.below(300); i-- > 0;) { size_t o = f.trailerpos + r.below(38 + TRL); if (o < b.size()) b[o] = (char)r.below(256); } break;
        case 8: for (int i = 1 + r.below(200); i-- > 0;) if (b.size() > 5114) b[r.below(5114)] = (char)r.below(256); break;
        case 9: b += std::string(r.below(5000), (char)r.below(256)); break;
        case 10: case 11: if (f.packets.size() > 1 && b.size() > f.packets.back()) { int i = r.below(f.packets.size() - 1); size_t n = f.packets[i + 1] - f.packets[i]; if (k == 10) b.erase(f.packets[i], n); else b.insert(f.packets[i], b.substr(f.packets[i], n)); } break;
        case 12: { if (b.empty()) break; size_t a = r.chance(0.5) ? r.below(b.size()) : r.below(std::min<size_t>(b.size(), 6000)), n = r.below(3000); for (size_t i = a; i < std::min(b.size(), a + n); ++i) b[i] = r.chance(0.5) ? 0 : (char)255; break; }
        case 13: { int i = 8 + r.below(3); std::string t = r.chance(0.3) ? fmt("%zu", r.below(b.size() + 10)) : r.pick(N); t.resize(16, ' '); if (b.size() > 5114) b.replace(rec(i) + 46, 16, t); break; }
        case 14: if (!f.packets.empty()) { size_t i = r.below(f.packets.size()), o = f.packets[i]; uint64_t l = get_be(f.bytes, o + 18, 4); int n = 1 + r.below(60); if (o + 23 + l <= b.size() && get_be(b, o + 18, 4) == l) { b.insert(o + 23 + l, std::string(n, (char)r.below(256))); put_be(b, o + 18, l + n, 4); } } break;
        case 15: for (size_t i = 0; i < std::min<size_t>(b.size(), 5114); ++i) if (b[i] == 0 || b[i] == '\n') b[i] = 'z'; break;
    }
    return b;
}
static std::string outcome(const std::string& path, bool big) {
    std::ostringstream o; try {
        MSG_native m; if (!m.open((char*)path.c_str())) return "refused open"; std::string r = "ok "; try { m.read(); } catch (std::exception& e) { r = std::string("refused ") + e.what(); }
        // whatever was read so far can be looked at
        for (int c = 0; c < 12; ++c) { long n = (long)m.lines(c) * m.pixels(c); if (n > 4000000 && !big) continue; unsigned short* d = m.data(c); uint64_t s = 0; if (d) for (long i = 0; i < n; ++i) s = s * 31 + d[i]; o << " " << m.lines(c) << "x" << m.pixels(c) << ":" << s; delete[] d; if (n < 100000 && c == 3) { unlink("d.pgm"); o << m.pgmdump(c, (char*)"d.pgm"); } }
        if (r[0] == 'o') { long n = 0; for (int c = 0; c < 12; ++c) for (auto& l : m.line[c]) n += l.data.datasize; if (n < 300000) o << m; } return r + o.str();
    } catch (std::exception& e) { viol("exception", std::string("an exception leaves a call other than read: ") + e.what()); } catch (...) { viol("foreign-exception", "an exception that is no std::exception"); } return "other";
}
static void lib(uint64_t, Rng& r) {
    File f; sections(r, f, 0.5);
    for (int k = 0; k < 8; ++k) {
        image(r, f, r.below(5), 1 + r.below(50), 1 + r.below(50)); std::string what, b = f.bytes; if (r.chance(0.95)) for (int i = r.chance(0.7) ? 1 : 1 + r.below(4); i-- > 0;) b = damage(r, f, b, what); else what = "none"; write_file("bad", b); note(what + fmt(" step %d", k)); bool big = r.chance(0.05);
        int fd = count_fds(); vf_fill = 0xAA; smear(0xAA); std::string x = outcome("bad", big); vf_fill = 0; smear(0); std::string y = outcome("bad", big);
        VEXPECT(x == y, "uninitialised", "%s: what reading gives depends on unwritten memory: '%.200s' / '%.200s'", what.c_str(), x.c_str(), y.c_str()); VEXPECT(count_fds() == fd, "descriptors", "%s: %d descriptors, %d before", what.c_str(), count_fds(), fd);
        if (what == "none") VEXPECT(x[0] == 'o', "valid-refused", "a well-formed file is refused: %s", x.c_str()); obs("damage", what.substr(0, 40)); obs("read", x[0] == 'o' ? "read" : x.substr(0, 60)); if (k == 0) sample(what + ": " + x.substr(0, 100));
    }
    std::string none = outcome("missing", false), dir = outcome(".", false); VEXPECT(none[0] == 'r' && dir[0] == 'r', "missing-file", "reading a missing file or a directory succeeds");
}
// memory given back, also on the way out of errors
static void leak(uint64_t, Rng& r) {
    File f; sections(r, f, 0.5); image(r, f, 2 + r.below(3), 1 + r.below(50), 1 + r.below(50)); std::string what, b = damage(r, f, f.bytes, what); write_file("leak", b); note(what); outcome("leak", false); outcome("leak", false);
    size_t h0 = heap(); for (int i = 0; i < 4; ++i) outcome("leak", false); size_t h1 = heap(); VEXPECT(h1 < h0 + 2000, "leak", "%s: %zu bytes more after reading the file four times", what.c_str(), h1 - h0); obs("leak", what.substr(0, 40));
    std::string noise; size_t n = r.below(6000); for (size_t i = 0; i < n; ++i) noise += (char)r.below(256); write_file("noise", noise); VEXPECT(outcome("noise", false)[0] == 'r', "noise", "random bytes are read");
}
static void tool(uint64_t, Rng& r) {
    File f; sections(r, f, 0.9); mkdir("t", 0755);
    for (int k = 0; k < 3; ++k) {
        image(r, f, 1 + r.below(3), 1 + r.below(30), 1 + r.below(30)); std::string what = "none", b = f.bytes; if (k) { what = ""; b = damage(r, f, b, what); } write_file("t/f.nat", b); note("tool " + what); std::string x = outcome("t/f.nat", false);
        if (x[0] == 'o') { MSG_native m; m.open((char*)"t/f.nat"); m.read(); long n = 0; for (int c = 0; c < 12; ++c) for (auto& l : m.line[c]) n += l.data.datasize; if (n > 300000) continue; }
        vt::Out o = vt::run("NATIVEDUMP", { "f.nat" }, "t"); VEXPECT(!o.crashed(), "tool-crash", "%s: nativedump dies: signal %d %.300s", what.c_str(), o.sig, o.err.c_str()); VEXPECT((o.status == 0) == (x[0] == 'o'), "tool-status", "%s: nativedump ends with %d, the library says %.60s", what.c_str(), o.status, x.c_str()); if (o.status) VEXPECT(!o.err.empty(), "tool-silent", "%s: nativedump fails silently", what.c_str());
        obs("nativedump", fmt("%s %d", what.substr(0, 20).c_str(), o.status));
    }
    vt::Out o = vt::run("NATIVEDUMP", { "absent.nat" }, "t"); VEXPECT(!o.crashed() && o.status != 0, "tool-status", "nativedump of a missing file ends with %d", o.status); o = vt::run("NATIVEDUMP", {}, "t"); VEXPECT(!o.crashed() && o.status != 0, "tool-status", "nativedump of nothing ends with %d", o.status);
}
// one record of the file on its own: whole it is read, cut short anywhere it is refused
static void pieces(uint64_t, Rng& r) {
    File f; sections(r, f, 0.5); image(r, f, 2 + r.below(4), 1 + r.below(60), 1 + r.below(60));
    auto piece = [&](const char* what, const std::string& b, auto get) {
        std::vector<size_t> cut{ b.size(), b.size() - 1, 0, 1, 37, 38, 39 }; for (int i = 0; i < 12; ++i) cut.push_back(r.below(b.size())); for (int i = 0; i < 8; ++i) cut.push_back(b.size() - 1 - r.below(std::min<size_t>(b.size(), 40)));
        for (size_t n : cut) { if (n > b.size()) continue; note(std::string(what) + fmt(" cut at %zu of %zu", n, b.size())); write_file("piece", b.substr(0, n)); std::ifstream in("piece", std::ios::binary); bool ok = true; std::string e; try { get(in); } catch (std::exception& x) { ok = false; e = x.what(); }
            VEXPECT(ok == (n == b.size()), n == b.size() ? "piece-refused" : "piece-cut", "%s of %zu bytes %s is %s %s", what, b.size(), n == b.size() ? "whole" : fmt("cut at %zu", n).c_str(), ok ? "accepted" : "refused:", e.c_str()); obs("piece", fmt("%s %s", what, n == b.size() ? "whole" : e.substr(0, 60).c_str())); }
    };
    piece("header", f.bytes.substr(0, MPH + 38 + HDR), [](std::ifstream& in) { MSG_native_header h; h.read(in); });
    piece("trailer", f.bytes.substr(f.trailerpos, 38 + TRL), [](std::ifstream& in) { MSG_native_trailer t; t.read(in); });
    if (!f.packets.empty()) for (int k = 0; k < 4; ++k) { size_t p = r.pick(f.packets), n = 23 + get_be(f.bytes, p + 18, 4); std::string b = f.bytes.substr(p, n); std::string want; { write_file("whole", b); std::ifstream in("whole", std::ios::binary); MSG_native_line l; l.read(in); want.assign((const char*)l.data.data_10bit, l.data.datasize); VEXPECT(want == b.substr(b.size() - want.size()) && want.size() == n - 38 - 27, "line-bytes", "the samples of a line are not those stored (%zu of %zu)", want.size(), n); } piece("line", b, [](std::ifstream& in) { MSG_native_line l; l.read(in); }); }
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough;
    add_group("lib", t ? 6000 : 200, 4, 60, lib); add_group("leak", t ? 1500 : 60, 4, 60, leak); add_group("pieces", t ? 400 : 24, 4, 60, pieces); add_group("tool", t ? 600 : 32, 4, 90, tool);
    return run_all();
}
