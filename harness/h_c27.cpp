// C27: the dump and image tools, on xRIT and native files
#include "native.h"
#include "badxrit.h"
#include "gdalutil.h"
#include "toolutil.h"
#include "picture.h"
#include <algorithm>
#include <sstream>
#include <sys/resource.h>
using namespace xs; using namespace vf; using std::string; using std::vector;
static string root;
static void setup() { static bool reg = false; if (!reg) { reg = true; GDALAllRegister(); CPLPushErrorHandler(CPLQuietErrorHandler); } root = cfg().scratch + fmt("/c27.%d", (int)getpid()); if (root[0] != '/') { char c[4096]; if (getcwd(c, sizeof c)) root = string(c) + "/" + root; } mkdir(root.c_str(), 0755); for (auto d : { "/in", "/work" }) { mkdir((root + d).c_str(), 0755); vt::clear(root + d); } }
static string show(const vector<string>& a) { string s; for (auto& x : a) s += (s.empty() ? "" : " ") + x; return s; }
// one line of text per value, in order
struct Text { vector<string> L; size_t at = 0; Text(const string& s) { std::istringstream i(s); string t; while (std::getline(i, t)) L.push_back(t); } string next(const string& label) { for (size_t i = at; i < L.size(); ++i) if (L[i].compare(0, label.size(), label) == 0 && L[i].find(": ", label.size()) != string::npos) { at = i + 1; return L[i].substr(L[i].find(": ", label.size()) + 2); } return "(none)"; } };
static void headers(const string& out, const Product& p, const vector<int>& segs, const char* line) {
    Text t(out); int heads = 0; for (auto& l : t.L) if (l.find("MSG PRIMARY HEADER") != string::npos) ++heads; VEXPECT(heads == (int)segs.size(), "headers", "%d segments are shown, there are %d (%s)", heads, (int)segs.size(), line);
    for (int s : segs) { auto is = [&](const char* k, long v) { string g = t.next(k); char* e; long n = strtol(g.c_str(), &e, 10); VEXPECT(e != g.c_str() && n == v, "headers", "segment %d: %s is %s, stored %ld (%s)", s, k, g.c_str(), v, line); };
        string recs = segment_recs(p, s); is("Total Header Length", 16 + recs.size()); is("Data Length (bits)", (long)p.cols * p.seglines * 16); is("Bits per pixel", p.bpp); is("Number of Columns", p.cols); is("Number of Lines", p.seglines); is("Compression Flag", p.compr); string g = t.next("Projection Name"); VEXPECT(g.compare(0, 4, "GEOS") == 0, "headers", "projection %s (%s)", g.c_str(), line); g = t.next("Subsatellite"); VEXPECT(fabs(atof(g.c_str()) - p.lon) < 1e-4, "headers", "longitude %s, stored %g (%s)", g.c_str(), p.lon, line); int f = p.hrv() ? -40927014 : -13642337; is("Column scale factor", p.swap ? f : -f); is("Line scale factor", f); is("Column offset", p.hrv() ? 5566 : 1856); is("Line Offset", p.hrv() ? 5566 : 1856); is("Spacecraft ID", p.scid); is("Data channel ID", p.channel); is("Segment seq No", s); is("Planned seq start", 1); is("Planned seq end", p.nsegs); is("Data format", p.format); }
}
// segments of any size; XRIT2Image needs no more
static Product strips(Rng& r) {
    Product p = random_product(r, root + "/in", 1 + r.below(12), 1); p.swap = true; p.cols = 1 + r.below(r.chance(0.1) ? 600 : 90); p.seglines = 1 + r.below(r.chance(0.1) ? 100 : 25); p.nsegs = 1 + r.below(8); p.present.clear(); for (int s = 1; s <= p.nsegs; ++s) if (r.chance(0.8)) p.present.insert(s); if (p.present.empty()) p.present.insert(1 + r.below(p.nsegs)); p.wide = p.compr ? 10 : r.chance(0.5) ? 16 : 10; p.bpp = p.wide; if (r.chance(0.3)) p.res = "L"; return p;
}
static void put(const Product& p, Rng* r = nullptr) { mkdir(p.dir.c_str(), 0755); for (int s : p.present) { string f = p.segpath(s); if (r && p.compr == 0 && r->chance(0.5)) { f.resize(f.size() - 2); f += "__"; } write_file(f, segment_file(p, s)); } }
static vector<uint16_t> whole(const Product& p) { vector<uint16_t> v; for (int s = 1; s <= p.nsegs; ++s) for (int l = 0; l < p.seglines; ++l) for (int c = 0; c < p.cols; ++c) v.push_back(p.present.count(s) ? p.sample(s, l, c) : 0); return turned(v); }
static const vector<string> FORMATS = { "pgm", "pgm", "pgm", "png", "tif", "jpg", "" };
struct Job { vector<string> args; string fm, name; double g = 1; bool norm = false, over = false; Pic ov; };
static Job job(Rng& r, const Product& p) {
    Job j; bool lng = r.chance(0.5); auto opt = [&](const char* s, const char* l, const string& v) { if (lng) j.args.push_back(string("--") + l + "=" + v); else { j.args.push_back(s); j.args.push_back(v); } }; opt("-d", "directory", p.dir); opt("-r", "resolution", p.res); opt("-s", "productid1", p.pid1); opt("-c", "productid2", p.pid2); opt("-t", "time", p.timing); j.fm = r.pick(FORMATS); if (!j.fm.empty()) opt("-f", "outformat", j.fm); else j.fm = "jpg";
    if (r.chance(0.25)) { j.norm = true; j.args.push_back(lng ? "--normalize" : "-n"); } if (r.chance(0.25)) { j.g = r.pick(vector<double>{ 0.5, 0.25, 0.9, 0.33, 1, 2, 1.5 }); opt("-g", "outscale", fmt("%g", j.g)); if (j.g > 1) j.g = 1; }
    if (!j.norm && r.chance(0.2)) { j.over = true; j.ov.w = r.chance(0.5) ? p.cols : 1 + r.below(p.cols); j.ov.h = r.chance(0.5) ? p.seglines * p.nsegs : 1 + r.below(p.seglines * p.nsegs); string s = fmt("P5\n%d %d\n65535\n", j.ov.w, j.ov.h); for (int i = 0; i < j.ov.w * j.ov.h; ++i) { int v = r.chance(0.5) ? 0 : r.chance(0.3) ? 65535 : r.below(65536); j.ov.v.push_back(v); s += (char)(v >> 8); s += (char)v; } write_file(root + "/in/overlay.pgm", s); opt("-o", "overlay", root + "/in/overlay.pgm"); if (p.channel >= 12) j.over = false; }
    j.name = p.res + "-" + p.pid1 + "-" + p.pid2 + "-" + p.timing + "." + j.fm; return j;
}
static void xrit_image(uint64_t, Rng& r) {
    setup(); for (int k = 0; k < 4; ++k) {
        vt::clear(root + "/in"); Product p = strips(r); put(p, &r); if (r.chance(0.3)) { Product q = p; q.seed ^= 77; q.pid2 = p.pid2 == "IR_108" ? "IR_120" : "IR_108"; put(q); } if (r.chance(0.3)) { Product q = p; q.timing[11] = q.timing[11] == '5' ? '0' : '5'; q.seed ^= 99; put(q); } if (r.chance(0.2)) write_file(root + "/in/" + p.proname(), "x"); if (r.chance(0.2)) write_file(root + "/in/stray", "x");
        Job j = job(r, p); string ln = "XRIT2Image " + show(j.args) + fmt(", %dx%d in %d segments", p.cols, p.seglines, p.nsegs); const char* line = ln.c_str(); note(ln); vt::clear(root + "/work"); auto before = vt::files(root + "/in"); vt::Out o = vt::run("XRIT2IMAGE", j.args, root + "/work"); auto f = vt::files(root + "/work"); VEXPECT(!o.crashed(), "crash", "%s: signal %d: %.400s", line, o.sig, o.err.c_str()); if (o.crashed()) continue; VEXPECT(vt::files(root + "/in") == before, "input", "the inputs change (%s)", line);
        int W = p.cols, H = p.seglines * p.nsegs; bool tiny = j.g < 1 && ((int)((float)W * (float)j.g) < 1 || (int)((float)H * (float)j.g) < 1); if (tiny) { VEXPECT(o.status > 0 ? f.empty() : f.size() == 1, "status", "exit %d with %d files (%s)", o.status, (int)f.size(), line); obs("xrit", "no size"); continue; }
        if (!VEXPECT(o.status == 0, "status", "exit %d: %.300s (%s)", o.status, o.err.c_str(), line)) continue; if (!VEXPECT(f.size() == 1 && f.count(j.name), "output", "%d files, first %s, not %s (%s)", (int)f.size(), f.empty() ? "" : f.begin()->first.c_str(), j.name.c_str(), line)) continue; vector<int> segs(p.present.begin(), p.present.end()); headers(o.out, p, segs, line);
        Pic q; if (!VEXPECT(picture(root + "/work/" + j.name, j.fm, q), "output", "%s cannot be read (%s)", j.name.c_str(), line)) continue; auto want = whole(p); if (j.over) for (int y = 0; y < j.ov.h; ++y) for (int x = 0; x < j.ov.w; ++x) { auto& v = want[(size_t)y * W + x]; v = std::min(65535.0, v + j.ov.v[(size_t)y * j.ov.w + x]); }
        obs("xrit", fmt("%s%s%s%s%s", j.fm.c_str(), j.norm ? " normalised" : "", j.over ? " overlay" : "", j.g < 1 ? " scaled" : "", (int)p.present.size() < p.nsegs ? " missing segments" : "")); if (j.fm == "jpg") { if (j.g >= 1) VEXPECT(q.w == W && q.h == H, "size", "the picture is %dx%d, not %dx%d (%s)", q.w, q.h, W, H, line); } else if (j.g < 1) scaled(q, want, W, H, j.g, j.norm, line); else if (j.norm) stretched(q, want, W, H, line); else exact(q, want, W, H, line);
        if (r.chance(0.4)) { vt::clear(root + "/work"); vt::Out o2 = vt::run("XRIT2IMAGE", j.args, root + "/work"); auto f2 = vt::files(root + "/work"); VEXPECT(o2.status == o.status && o2.out == o.out && f2.size() == 1, "again", "a second run differs (%s)", line); if (j.fm == "pgm" || j.fm == "jpg") VEXPECT(f2 == f, "again", "a second run writes another picture (%s)", line); }
        sample(ln); }
}
static void xrit_wrong(uint64_t, Rng& r) {
    setup(); for (int k = 0; k < 6; ++k) {
        vt::clear(root + "/in"); vt::clear(root + "/work"); Product p = strips(r); put(p); Job j = job(r, p); string why; bool must = true; int s = *p.present.begin(); std::function<void()> pre; string rw = root + "/work";
        auto rewrite = [&](Product q, int seg) { write_file(p.segpath(s), segment_file(q, seg)); };
        switch (r.below(15)) {
            case 0: { why = "other columns"; if (p.present.size() < 2) continue; Product q = p; q.cols += r.chance(0.5) ? 1 + r.below(50) : q.cols > 1 ? -1 : 1; rewrite(q, s); break; }
            case 1: { why = "other lines"; if (p.present.size() < 2) continue; Product q = p; q.seglines += r.chance(0.5) ? 1 + r.below(30) : q.seglines > 1 ? -1 : 1; rewrite(q, s); break; }
            case 2: { why = "sequence number"; int q = r.chance(0.3) ? 0 : p.nsegs + 1 + r.below(r.chance(0.5) ? 3 : 60000); write_file(p.segpath(s), segment_file(p, q)); break; }
            case 3: { why = "no segment record"; string f = segment_file(p, s); for (auto& q : bx::records(f)) if (q.type == 128) { f.erase(q.off, q.len); put_be(f, 4, get_be(f, 4, 4) - q.len, 4); break; } write_file(p.segpath(s), f); break; }
            case 4: { why = "no structure record"; string f = segment_file(p, s); for (auto& q : bx::records(f)) if (q.type == 1) { f.erase(q.off, q.len); put_be(f, 4, get_be(f, 4, 4) - q.len, 4); break; } write_file(p.segpath(s), f); break; }
            case 5: { why = "truncated"; string f = segment_file(p, s); write_file(p.segpath(s), f.substr(0, r.below(f.size()))); break; }
            case 6: why = "no files"; vt::clear(root + "/in"); break;
            case 14: why = "scale"; j.args.push_back("-g"); j.args.push_back(r.pick(vector<string>{ "abc", "0", "-1", "nan", "", "0.5x" })); break;
            case 7: { why = "missing option"; vector<string> a; for (size_t i = 0; i < j.args.size(); ++i) if (j.args[i] == "-t") ++i; else if (j.args[i].compare(0, 7, "--time=") != 0) a.push_back(j.args[i]); j.args = a; break; }
            case 8: why = "unknown option"; j.args.insert(j.args.begin() + (r.chance(0.5) ? 0 : j.args.size()), r.pick(vector<string>{ "-x", "--nonsense", "--scale=3" })); break;
            case 9: why = "no overlay"; if (p.channel >= 12) continue; j.args.push_back("-o"); j.args.push_back(root + "/in/absent.pgm"); break;
            case 10: why = "nowhere to write"; mkdir((rw + "/" + j.name).c_str(), 0755); break;
            case 11: why = "output full"; pre = []() { int f = open("/dev/full", O_WRONLY); dup2(f, 1); close(f); }; break;
            case 12: { why = "no data format"; Product q = p; q.format = 0; for (int x : p.present) write_file(p.segpath(x), segment_file(q, x)); break; }
            default: { why = "damaged"; must = false; string f = segment_file(p, s); for (int n = 1 + r.below(3); n-- > 0;) f = bx::damage(r, f, why); write_file(p.segpath(s), f); break; } }
        string ln = why + ": XRIT2Image " + show(j.args) + fmt(", %dx%d in %d segments", p.cols, p.seglines, p.nsegs); const char* line = ln.c_str(); note(ln); vt::Out o = vt::run("XRIT2IMAGE", j.args, rw, {}, pre); VEXPECT(!o.crashed(), "crash", "%s: signal %d: %.400s", line, o.sig, o.err.c_str()); auto f = vt::files(rw); if (must) VEXPECT(o.status > 0, "status", "exit %d (%s)", o.status, line); if (o.status > 0) VEXPECT(!o.err.empty() || !o.out.empty(), "silent", "fails silently (%s)", line); else if (o.status == 0) VEXPECT(f.size() == 1, "status", "exit 0 without a picture (%s)", line); if (why != "nowhere to write" && why != "output full" && o.status > 0) VEXPECT(f.empty(), "output", "%s is left behind (%s)", f.begin()->first.c_str(), line); obs("xrit wrong", why.substr(0, 16) + fmt(" %d", o.status)); if (why == "nowhere to write") rmdir((rw + "/" + j.name).c_str()); }
}
// little room for the picture
template<class F> static void room(const char* tool, const vector<string>& args, const string& name, Rng& r, F more) {
    string rw = root + "/work"; vt::clear(rw); vt::Out good = vt::run(tool, args, rw); auto fg = vt::files(rw); if (good.status || !fg.count(name)) return; size_t size = fg[name].size(); rlim_t lim = r.below(size + 50); vt::clear(rw); vt::Out o = vt::run(tool, args, rw, {}, [&]() { signal(SIGXFSZ, SIG_IGN); struct rlimit l = { lim, lim }; setrlimit(RLIMIT_FSIZE, &l); more(); }); auto f = vt::files(rw); bool same = f.count(name) && f[name].size() == size; VEXPECT(!o.crashed(), "crash", "%s with room for %d of %d bytes: signal %d %.300s", tool, (int)lim, (int)size, o.sig, o.err.c_str()); VEXPECT(o.status > 0 || same || name.find(".tif") != string::npos, "room", "%s %s with room for %d of %d bytes: exit 0 %.200s", tool, show(args).c_str(), (int)lim, (int)size, o.err.c_str()); obs("room", fmt("%s %d", tool, o.status)); vt::clear(rw);
}
static const char* ART = " .,-:=$#";
static char art(int s, int lo, int hi) { if (hi <= lo || s <= lo) return ART[0]; return ART[std::min(7, (s - lo) * 8 / (hi - lo))]; }
static string dumped(const Product& p) {       // what xritdump must print
    string o; int H = p.nsegs * p.seglines; size_t n = *p.present.rbegin(); o += fmt("Columns: %d\nLines: %d\nSegments: %zu\nPixels per segment: %d\nScanlines per segment: %d\nEast is: %s\nNorth is: %s\nHRV: %s\n", p.cols, H, n, p.cols * p.seglines, p.seglines, p.swap ? "left" : "right", "down", p.hrv() ? "yes" : "no");
    if (p.hrv()) o += fmt("LowerEastColumnActual: %d\nLowerSouthLineActual: %d\nLowerWestColumnActual: %d\nLowerNorthLineActual: %d\nUpperEastColumnActual: %d\nUpperSouthLineActual: %d\nUpperWestColumnActual: %d\nUpperNorthLineActual: %d\n", p.lower[2], p.lower[0], p.lower[3], p.lower[1], p.upper[2], p.upper[0], p.upper[3], p.upper[1]); else o += "SouthLineActual: 1\nWestColumnActual: 1\n";
    int LO = 65535, HI = 0; for (size_t s = 1; s <= n; ++s) { o += fmt("Segment %zu: ", s - 1); if (!p.present.count(s)) { o += "missing.\n"; continue; } int lo = 65535, hi = 0; for (int l = 0; l < p.seglines; ++l) for (int c = 0; c < p.cols; ++c) { int v = p.sample(s, l, c); lo = std::min(lo, v); hi = std::max(hi, v); } o += fmt("min %d max %d\n", lo, hi); LO = std::min(LO, lo); HI = std::max(HI, hi); for (int y = 0; y < 3; ++y) { o += fmt("%02zu ", s - 1); for (int x = 0; x < 50; ++x) o += art(p.sample(s, y * p.seglines / 3, x * p.cols / 50), lo, hi); o += "\n"; } }
    o += "Composite image:\n"; int G = p.full(); for (int y = 0; y < 24; ++y) { int row = y * G / 24; for (int x = 0; x < 50; ++x) o += art(p.raster(row, x * G / 50), LO, HI); o += "\n"; } return o + "\n";
}
static void smooth(Product& p, Rng& r) {       // pictures that differ from place to place
    for (int s : p.present) { if (r.chance(0.3)) continue; auto& f = p.fixed[s]; f.resize((size_t)p.cols * p.seglines); int a = r.below(300), b = r.below(400), c = r.below(300); if (r.chance(0.1)) b = c = 0; for (int l = 0; l < p.seglines; ++l) for (int x = 0; x < p.cols; ++x) f[(size_t)l * p.cols + x] = a + b * x / p.cols + c * l / p.seglines + (b ? (l * 7 + x) % 20 : 0); }
}
static void xrit_dump(uint64_t, Rng& r) {
    setup(); vector<Product> ps; vector<string> names, texts; int n = 1 + r.below(2); for (int i = 0; i < n; ++i) { Product p = random_product(r, root + "/in/" + fmt("p%d", i), r.chance(0.3) ? 12 : 1 + r.below(11), 1 + r.below(3)); if (p.hrv() && p.cols * 1.0 * p.seglines * p.present.size() > 4e6) { while (p.present.size() > 2) p.present.erase(std::prev(p.present.end())); } smooth(p, r); write_product(p); ps.push_back(p); names.push_back(r.chance(0.5) ? p.shortname() : p.segpath(*p.present.begin())); texts.push_back(dumped(p)); }
    int bad = r.chance(0.3) ? r.below(n + 1) : -1; vector<string> args; string want; for (int i = 0; i <= n; ++i) { if (i == bad) { string b = r.chance(0.5) ? root + "/in/none" : ps[0].dir + "/H:MSG9:VIS006:" + ps[0].timing; args.push_back(b); } if (i < n) { args.push_back(names[i]); if (bad < 0 || bad > i) want += texts[i]; } }
    string ln = "xritdump " + show(args); const char* line = ln.c_str(); note(ln); sample(ln); vt::Out o = vt::run("XRITDUMP", args, root + "/work"); VEXPECT(!o.crashed(), "crash", "%s: signal %d: %.400s", line, o.sig, o.err.c_str()); if (!o.crashed()) { VEXPECT((o.status == 0) == (bad < 0) , "status", "exit %d: %.200s (%s)", o.status, o.err.c_str(), line); if (bad >= 0) VEXPECT(!o.err.empty(), "silent", "fails silently (%s)", line); size_t i = 0; while (i < want.size() && i < o.out.size() && want[i] == o.out[i]) ++i; size_t b = i; while (b && want[b - 1] != '\n') --b; VEXPECT(o.out == want, "dump", "prints '%s', not '%s' (%s)", o.out.substr(std::min(b, o.out.size()), 75).c_str(), want.substr(b, 75).c_str(), line); evals(want.size()); VEXPECT(vt::files(root + "/work").empty(), "output", "files are written (%s)", line); obs("xritdump", fmt("%s %s %d files%s", ps[0].hrv() ? "HRV" : "grid", ps[0].swap ? "swapped" : "", n, bad >= 0 ? " bad" : "")); }
    if (r.chance(0.3)) { o = vt::run("XRITDUMP", { names[0] }, root + "/work", {}, []() { int f = open("/dev/full", O_WRONLY); dup2(f, 1); close(f); }); VEXPECT(!o.crashed() && o.status > 0, "full", "with standard output full: exit %d (xritdump %s)", o.status, names[0].c_str()); }
    Product& p = ps[0]; if (r.chance(0.7)) { string what, file; bool seg = r.chance(0.6); file = seg ? p.segpath(*p.present.begin()) : p.dir + "/" + (r.chance(0.5) ? p.proname() : p.epiname()); string f = read_file(file); f = bx::damage(r, f, what); write_file(file, f); o = vt::run("XRITDUMP", { p.shortname() }, root + "/work"); VEXPECT(!o.crashed(), "crash", "damaged (%s) %s: signal %d: %.400s", what.c_str(), file.c_str(), o.sig, o.err.c_str()); if (o.status > 0) VEXPECT(!o.err.empty(), "silent", "fails silently on %s", what.c_str()); else VEXPECT(o.out.find("Composite image:") != string::npos, "dump", "exit 0 after half a dump (%s)", what.c_str()); obs("xritdump damaged", fmt("%s %d", what.c_str(), o.status)); }
    for (auto& q : ps) remove_product(q);
}
static void native_tools(uint64_t, Rng& r) {
    setup(); nf::File f; nf::sections(r, f, r.pick(vector<double>{ 0, 0.5, 0.9 })); string path = root + "/in/f.nat";
    for (int k = 0; k < 4; ++k) {
        int nl = 1 + r.below(40), nc = 1 + r.below(90), hc = 1 + r.below(90); nf::image(r, f, nl, nc, hc); write_file(path, f.bytes); string sel; for (bool b : f.sel) sel += b ? 'X' : '-'; string ln = fmt("bands %s, %d lines of %d, HRV of %d", sel.c_str(), nl, nc, hc); note(ln);
        if (k == 0) { string want; { MSG_native m; if (!m.open((char*)path.c_str())) return; m.read(); std::ostringstream o; o << m; want = o.str(); } vt::Out o = vt::run("NATIVEDUMP", { path }, root + "/work"); VEXPECT(!o.crashed() && o.status == 0 && o.out == want, "native-dump", "nativedump: exit %d, signal %d, %zu characters, the library %zu (%s)", o.status, o.sig, o.out.size(), want.size(), ln.c_str()); for (int i = 0; i < 48; ++i) VEXPECT(o.out.find(f.mph[i]) != string::npos, "native-dump", "the dump lacks '%s'", f.mph[i].c_str()); evals(want.size());
            o = vt::run("NATIVEDUMP", { path }, root + "/work", {}, []() { int q = open("/dev/full", O_WRONLY); dup2(q, 1); close(q); }); VEXPECT(!o.crashed() && o.status > 0, "full", "nativedump with standard output full: exit %d", o.status); }
        for (int m = 0; m < 3; ++m) {
            string fm = r.pick(vector<string>{ "pgm", "pgm", "png", "tif", "jpg" }); double g = r.pick(vector<double>{ 1, 1, 1, 0.5, 0.3, 2, 1.5 }); int c = r.chance(0.85) ? r.below(12) : r.range(-3, 15); string ch = fmt("%d", c), gs = fmt("%g", g), why; if (r.chance(0.06)) { ch = r.pick(vector<string>{ "abc", "", "3x", "4294967297" }); why = "no number"; } if (r.chance(0.06)) { gs = r.pick(vector<string>{ "0", "-1", "abc", "nan" }); why = "scale"; } if (c < 0 || c > 11 || !f.sel[c]) why = "no channel";
            vector<string> a = { path, ch, fm, gs }; string l2 = "native2Image " + show(a) + ", " + ln; const char* line = l2.c_str(); note(l2); sample(l2); vt::clear(root + "/work"); vt::Out o = vt::run("NATIVE2IMAGE", a, root + "/work"); auto fs = vt::files(root + "/work"); VEXPECT(!o.crashed(), "crash", "%s: signal %d: %.400s", line, o.sig, o.err.c_str()); if (o.crashed()) continue; obs("native", why.empty() ? fm + fmt(" %g %s", g, c == 11 ? "HRV" : "") : why);
            if (!why.empty()) { VEXPECT(o.status > 0 && !o.err.empty() && fs.empty(), "status", "exit %d with %d files though %s (%s)", o.status, (int)fs.size(), why.c_str(), line); continue; } int W = f.cols(c), H = f.lines(c); if ((int)((float)W * (float)g) < 1 || (int)((float)H * (float)g) < 1) continue; if (!VEXPECT(o.status == 0, "status", "exit %d: %.300s (%s)", o.status, o.err.c_str(), line)) continue; string name = "MSG1." + fm; if (!VEXPECT(fs.size() == 1 && fs.count(name), "output", "%d files, first %s (%s)", (int)fs.size(), fs.empty() ? "" : fs.begin()->first.c_str(), line)) continue;
            Pic q; if (!VEXPECT(picture(root + "/work/" + name, fm, q), "output", "%s cannot be read (%s)", name.c_str(), line)) continue; vector<uint16_t> want; for (auto& l : f.line[c]) want.insert(want.end(), l.samples.begin(), l.samples.end()); want = turned(want); if (g != 1) scaled(q, want, W, H, g, true, line); else if (fm == "jpg") VEXPECT(q.w == W && q.h == H, "size", "the picture is %dx%d, not %dx%d (%s)", q.w, q.h, W, H, line); else stretched(q, want, W, H, line);
            if (r.chance(0.3) && (fm == "pgm" || fm == "jpg")) { vt::Out o2 = vt::run("NATIVE2IMAGE", a, root + "/work"); VEXPECT(o2.status == 0 && vt::files(root + "/work") == fs, "again", "a second run writes another picture (%s)", line); }
            if (r.chance(0.2)) room("NATIVE2IMAGE", a, name, r, []() {}); } }
    vt::clear(root + "/work"); for (auto& a : vector<vector<string>>{ {}, { path }, { path, "1", "pgm" }, { root + "/in/absent.nat", "1", "pgm", "1" }, { root + "/in", "1", "pgm", "1" } }) { vt::Out o = vt::run("NATIVE2IMAGE", a, root + "/work"); VEXPECT(!o.crashed() && o.status > 0 && !o.err.empty() && vt::files(root + "/work").empty(), "usage", "native2Image %s: exit %d", show(a).c_str(), o.status); }
    { string b = f.bytes.substr(0, r.below(f.bytes.size())); write_file(path, b); vt::Out o = vt::run("NATIVE2IMAGE", { path, "1", "pgm", "1" }, root + "/work"); VEXPECT(!o.crashed() && o.status > 0 && vt::files(root + "/work").empty(), "truncated", "native2Image of %zu of %zu bytes: exit %d, signal %d", b.size(), f.bytes.size(), o.status, o.sig); }
}
static void rooms(uint64_t, Rng& r) {
    setup(); for (int k = 0; k < 4; ++k) { vt::clear(root + "/in"); Product p = strips(r); put(p); Job j = job(r, p); room("XRIT2IMAGE", j.args, j.name, r, []() {}); }
    struct U { const char* tool; vector<string> a; int st; }; for (auto& u : vector<U>{ { "XRIT2IMAGE", { "-h" }, 0 }, { "XRIT2IMAGE", { "--help" }, 0 }, { "XRIT2IMAGE", { "-V" }, 0 }, { "XRIT2IMAGE", {}, 1 }, { "XRIT2IMAGE", { "-d" }, 1 }, { "XRITDUMP", { "--help" }, 0 }, { "XRITDUMP", {}, 1 }, { "XRITDUMP", { "--nonsense" }, 1 }, { "XRITDUMP", { "" }, 1 }, { "XRITDUMP", { "x" }, 1 }, { "NATIVE2IMAGE", { "-V" }, 0 }, { "NATIVEDUMP", {}, 1 } }) { vt::Out o = vt::run(u.tool, u.a, root + "/work"); VEXPECT(!o.crashed() && (o.status != 0) == u.st, "usage", "%s %s: exit %d, signal %d", u.tool, show(u.a).c_str(), o.status, o.sig); if (!u.st) VEXPECT(!o.out.empty(), "usage", "%s %s prints nothing", u.tool, show(u.a).c_str()); obs("usage", fmt("%s %s", u.tool, show(u.a).c_str())); }
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough;
    add_group("xrit-image", t ? 6000 : 200, 4, 200, xrit_image); add_group("xrit-wrong", t ? 3000 : 120, 4, 200, xrit_wrong); add_group("xrit-dump", t ? 800 : 56, 2, 300, xrit_dump); add_group("native", t ? 1500 : 72, 2, 300, native_tools); add_group("room", t ? 1000 : 48, 4, 200, rooms);
    return run_all();
}
