// C20: damaged OpenMTP-IDS files are refused without harm
#include "omtpids.h"
#include "toolutil.h"
#include <sstream>
using namespace om;
extern unsigned char vf_fill;
static void __attribute__((noinline)) smear(int v) { volatile char b[65536]; memset((void*)b, v, sizeof b); }
static std::string damage(Rng& r, std::string b, std::string& what) {
    static const char* K[] = { "truncate", "number", "bytes", "extend", "erase", "insert", "zero", "records", "noise", "ones", "count" }; int k = r.chance(0.25) ? 10 : r.below(10); what += std::string(what.empty() ? "" : "+") + K[k]; auto at = [&](size_t n) { return r.chance(0.5) ? r.below(n) : r.below(std::min<size_t>(n, 130)); };
    if (b.empty()) return b; switch (k) {
        case 0: b.resize(at(b.size())); break; case 1: { size_t o = at(b.size()) & ~1ul; if (o + 2 <= b.size()) { int v = get_be(b, o, 2), h[] = { 0, 1, v + 1, v - 1, v * 2, 0x7FFF, 0x8000, 0xFFFF, 57, 58, 15, 16, 17 }; put_be(b, o, r.chance(0.8) ? h[r.below(13)] & 0xFFFF : val(r), 2); } break; }
        case 2: for (int i = 1 + r.below(20); i-- > 0;) b[at(b.size())] = (char)r.below(256); break; case 3: b += std::string(r.below(3000), (char)r.below(256)); break; case 4: { size_t o = at(b.size()); b.erase(o, 1 + r.below(200)); break; } case 5: b.insert(at(b.size()), std::string(1 + r.below(200), (char)r.below(256))); break; case 6: case 9: { size_t o = at(b.size()), n = r.below(500); for (size_t i = o; i < std::min(b.size(), o + n); ++i) b[i] = k == 6 ? 0 : (char)255; break; } case 10: { size_t o = r.pick(marks()); if (o + 2 <= b.size()) put_be(b, o, get_be(b, o, 2) + (r.chance(0.7) ? r.range(-2, 2) : r.range(-40, 40)) & 0xFFFF, 2); break; }
        case 7: put_be(b, 2, r.chance(0.5) ? get_be(b, 2, 2) + r.range(-2, 2) & 0xFFFF : val(r), 2); break; case 8: { size_t n = r.below(3000); b.clear(); for (size_t i = 0; i < n; ++i) b += (char)r.below(256); break; } }
    return b;
}
// parses what the reader is to accept: the model, or a refusal
static bool parse(const std::string& b, Img& m) {
    size_t p = 0; auto g2 = [&](int& v) { if (p + 2 > b.size()) return false; v = get_be(b, p, 2); p += 2; return true; }; m = Img(); if (!g2(m.fortran)) return false; for (int i = 0; i < 25; ++i) { if (i == 13) { if (p + 8 > b.size()) return false; m.sat = b.substr(p, 8); p += 8; } if (!g2(m.h[i])) return false; } if (m.h[14] < 58 || m.h[0] < 1) return false; p = m.h[14] + 2; if (p > b.size()) return false;
    for (int i = 1; i < m.h[0]; ++i) { Rec c; int n; if (!g2(c.fortran) || !g2(c.hlen) || !g2(n) || !g2(c.reclen) || !g2(c.zero)) return false; for (int k = 0; k < n; ++k) { Line l; int np; if (!g2(l.length) || !g2(l.line) || !g2(l.start) || !g2(np) || !g2(l.channel) || !g2(l.quality) || !g2(l.pad[0]) || !g2(l.pad[1])) return false; if (p + np > b.size() || l.length < 16 + np) return false; l.px = b.substr(p, np); p += l.length - 16; if (p > b.size()) return false; c.lines.push_back(l); } m.recs.push_back(c); }
    return true;
}
static std::string outcome(const char* path, OpenMTP_IDS* keep = nullptr) {
    try { OpenMTP_IDS o(path); std::ostringstream s; o.debug(s); for (auto v : { 0u, 1u, 7u, 0x7FFFFFFFu, 0xFFFFFFFFu }) { s << o.scanline(v).size() << " "; for (auto w : { 0u, 1u, 5u, 0x80000000u, 0xFFFFFFFFu }) s << o.scanline(v, w).size() << " "; } if (keep) *keep = o; return "ok " + s.str(); }
    catch (const char* e) { VEXPECT(e && *e, "empty-error", "an error without text"); return std::string("refused ") + e; } catch (std::exception& e) { VEXPECT(*e.what(), "empty-error", "an error without text"); return std::string("refused ") + e.what(); } catch (...) { viol("foreign-exception", "an exception that says nothing"); return "refused"; }
}
static void lib(uint64_t, Rng& r) {
    for (int k = 0; k < 12; ++k) {
        Img m = image(r, r.below(5), 4, 40); std::string what, b = encode(m); if (r.chance(0.95)) for (int i = r.chance(0.7) ? 1 : 1 + r.below(4); i-- > 0;) b = damage(r, b, what); else what = "none"; write_file("bad", b); note(what);
        int fd = count_fds(); OpenMTP_IDS o; vf_fill = 0xAA; smear(0xAA); std::string x = outcome("bad", &o); vf_fill = 0; smear(0); std::string y = outcome("bad"); VEXPECT(x == y, "uninitialised", "%s: what reading gives depends on unwritten memory: '%.150s' / '%.150s'", what.c_str(), x.c_str(), y.c_str()); VEXPECT(count_fds() == fd, "descriptors", "%s: %d descriptors, %d before", what.c_str(), count_fds(), fd);
        Img e; bool ok = parse(b, e); VEXPECT(ok == (x[0] == 'o'), ok ? "readable-refused" : "incomplete-read", "%s: the file is %s, reading says '%.60s'", what.c_str(), ok ? "complete" : "not complete", x.c_str()); if (ok && x[0] == 'o') { std::string d = diff(o, e); VEXPECT(d.empty(), "content", "%s: %s", what.c_str(), d.c_str()); } obs("damage", what.substr(0, 40)); obs("read", x.substr(0, 40)); if (!k) sample(what + ": " + x.substr(0, 60));
        size_t h0 = 0, h1 = 0; if (k == 0) { outcome("bad"); h0 = heap(); for (int i = 0; i < 4; ++i) outcome("bad"); h1 = heap(); VEXPECT(h1 < h0 + 1500, "leak", "%s: %zu bytes more after four reads", what.c_str(), h1 - h0); }
    }
    std::string d = outcome("."), n = outcome("missing"); VEXPECT(d[0] == 'r' && n[0] == 'r' && n.find("missing") != std::string::npos, "missing-file", "a directory: %s, a missing file: %s", d.c_str(), n.c_str());
}
// images whose headers contradict their contents, and files that cannot be written
static void writing(uint64_t, Rng& r) {
    auto put = [&](OpenMTP_IDS& o, const char* path) { try { return o.write(path) ? std::string("ok") : std::string("no"); } catch (const char* e) { return std::string(e); } catch (std::exception& e) { return std::string(e.what()); } };
    for (int k = 0; k < 8; ++k) {
        Img m = image(r, 1 + r.below(4), 4, 40); OpenMTP_IDS o = make(m); int kind = r.below(7); std::string s; const char* names[] = { "no directory", "directory", "full device", "record count", "line count", "pixel count", "line length" }; unlink("w.ids");
        switch (kind) { case 0: s = put(o, "nowhere/x.ids"); break; case 1: mkdir("dir", 0755); s = put(o, "dir"); break; case 2: s = put(o, "/dev/full"); break; case 3: o.fileheader().no_records(m.h[0] + (r.chance(0.5) ? 1 : -1)); s = put(o, "w.ids"); break;
            case 4: { auto& c = o.record()[r.below(o.record().size())]; c.recordheader().no_scanlines(c.scanline().size() + 1); s = put(o, "w.ids"); break; } default: { ScanLine l; l.lineheader().no_pixels(kind == 5 ? 4 : 3); l.lineheader().length(kind == 5 ? 30 : 18); l.linepixel().resize(3); auto& c = o.record()[r.below(o.record().size())]; c.scanline().push_back(l); c.recordheader().no_scanlines(c.scanline().size()); s = put(o, "w.ids"); } }
        VEXPECT(s != "ok", "write-unreported", "writing (%s) reports no error", names[kind]); obs("write", names[kind]); int fd = count_fds(); put(o, "w.ids"); VEXPECT(count_fds() == fd, "descriptors", "writing leaves a descriptor open");
    }
}
static void tool(uint64_t, Rng& r) {
    mkdir("t", 0755);
    for (int k = 0; k < 2; ++k) {
        vt::clear("t"); rmdir("t/vis.pgm"); Img m = image(r, 1 + r.below(4), 4, 40); std::string what, b = encode(m); if (r.chance(0.9)) b = damage(r, b, what); else what = "none"; write_file("t/i.ids", b); Img e; bool ok = parse(b, e); note("tool " + what);
        static const char* T[] = { "IDSDEBUG", "IDSWRITE", "IDSPGM", "IDSSECTOR" }; bool blocked = r.chance(0.1); if (blocked) mkdir("t/vis.pgm", 0755);
        for (int i = 0; i < 4; ++i) { vt::Out o = vt::run(T[i], { "i.ids" }, "t"); VEXPECT(!o.crashed(), "tool-crash", "%s: %s dies: signal %d %.300s", what.c_str(), T[i], o.sig, o.err.c_str()); auto p = ok ? pgms(e) : std::map<std::string, std::string>(); if (blocked) p.erase("vis.pgm"); bool want = i < 2 ? ok : i == 2 ? !p.empty() : false; VEXPECT((o.status == 0) == want, "tool-status", "%s: %s ends with %d, the file is %s", what.c_str(), T[i], o.status, ok ? "complete" : "not complete"); if (o.status && i < 2) VEXPECT(!(o.out + o.err).empty(), "tool-silent", "%s fails without a word", T[i]); if (!ok) for (auto& f : vt::files("t")) VEXPECT(f.first == "i.ids" || f.second == "(dir)", "tool-output", "%s: %s leaves %s", what.c_str(), T[i], f.first.c_str()); obs("tool", fmt("%s %d %s", T[i], o.status, ok ? "complete" : "damaged")); }
        if (blocked) rmdir("t/vis.pgm");
    }
    for (auto t : { "IDSDEBUG", "IDSWRITE", "IDSPGM", "IDSSECTOR" }) { vt::Out o = vt::run(t, { "absent" }, "t"), n = vt::run(t, {}, "t"), v = vt::run(t, { "-V" }, "t"); VEXPECT(!o.crashed() && o.status && !n.crashed() && n.status && v.status == 0, "tool-status", "%s: missing file %d, no argument %d, -V %d", t, o.status, n.status, v.status); }
}
// images that do not reach the sector's last line or column
static void small(uint64_t, Rng& r) {
    mkdir("s", 0755); vt::clear("s"); int nl = r.pick(std::vector<int>{ 0, 1, 2654, 2655, 2656, 3000, 3164, 3165 }), px = r.pick(std::vector<int>{ 1, 545, 546, 547, 801, 802 }), bad = -1; Img m; m.h[14] = 58; int per = 1 + r.below(50); std::vector<Line> L; bool fits = nl == 3165 && px == 802; if (r.chance(0.4)) { nl = 3165; px = 802; bad = r.chance(0.7) ? 2655 + r.below(510) : r.below(2655); fits = bad < 2655; } for (int i = 0; i < nl; ++i) { Line l; l.px = std::string(i == bad ? r.below(802) : px, 'x'); l.length = 16 + l.px.size(); L.push_back(l); } for (int i = 0; i < nl; i += per) { Rec c; c.lines.assign(L.begin() + i, L.begin() + std::min(nl, i + per)); m.recs.push_back(c); } m.h[0] = m.recs.size() + 1;
    write_file("s/i.ids", encode(m)); vt::Out o = vt::run("IDSSECTOR", { "i.ids" }, "s"); VEXPECT(!o.crashed(), "tool-crash", "sector of %d lines of %d pixels (line %d short) dies: %d %.300s", nl, px, bad, o.sig, o.err.c_str()); VEXPECT((o.status == 0) == fits, "sector-status", "sector of %d lines of %d pixels (line %d short) ends with %d", nl, px, bad, o.status); obs("small", fmt("%d x %d %d", nl, px, bad >= 0)); unlink("s/i.ids");
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough;
    add_group("lib", t ? 8000 : 320, 8, 60, lib); add_group("writing", t ? 600 : 48, 6, 60, writing); add_group("tool", t ? 800 : 48, 4, 90, tool); add_group("small", t ? 160 : 32, 4, 60, small);
    return run_all();
}
