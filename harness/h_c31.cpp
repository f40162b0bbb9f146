// C31: the NetCDF converters write what their input holds
#include "synth.h"
#include "badxrit.h"
#include "thorn.h"
#include "hrifile.h"
#include "openmtpfile.h"
#include <msat/hrit/MSG_HRIT.h>
#include <msat/openmtp/OpenMTP.h>
#include <msat/thornsds_db1/thornsds_db1.h>
#include <netcdf.h>
#include <memory>
#include <sstream>
#include <sys/resource.h>
using namespace xs; using namespace vf; using std::string; using std::vector;
static string root, in, work;
static void setup() { if (root.empty()) { root = cfg().scratch + fmt("/c31.%d", (int)getpid()); if (root[0] != '/') { char c[4096]; if (getcwd(c, sizeof c)) root = string(c) + "/" + root; } in = root + "/in"; work = root + "/work"; } for (auto& d : { root, in, work }) mkdir(d.c_str(), 0755); vt::clear(in); vt::clear(work); }
static string show(const vector<string>& a) { string s; for (auto& x : a) s += (s.empty() ? "" : " ") + x; return s; }
struct Quiet { std::streambuf *e, *o; std::ostringstream s; Quiet() { e = std::cerr.rdbuf(s.rdbuf()); o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cerr.rdbuf(e); std::cout.rdbuf(o); } };
struct S { string s; S(const string& t) : s(t + '\0') {} operator char*() { return &s[0]; } };
static double secs(int y, int m, int d, int H, int M, int s) { double days = 0; static const int C[12] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 }; auto leap = [](int q) { return q % 4 == 0 && (q % 100 || q % 400 == 0); }; for (int q = 2000; q < y; ++q) days += 365 + leap(q); for (int q = y; q < 2000; ++q) days -= 365 + leap(q); return (days + C[m - 1] + (m > 2 && leap(y)) + d - 1) * 86400 + H * 3600 + M * 60 + s; }
static bool near(double a, double b, double rel) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= rel * std::fabs(b); }
// a converted file, read with the C library
struct Nc {
    int nc = -1; const char* line; Nc(const string& f, const char* line) : line(line) { if (nc_open(f.c_str(), NC_NOWRITE, &nc) != NC_NOERR) { nc = -1; viol("file", fmt("%s is not a NetCDF file (%s)", f.c_str(), line)); } } ~Nc() { if (nc >= 0) nc_close(nc); }
    string text(int v, const char* n) { size_t l = 0; nc_type t; if (nc_inq_att(nc, v, n, &t, &l) != NC_NOERR || t != NC_CHAR) return "(none)"; string s(l, 0); nc_get_att_text(nc, v, n, &s[0]); while (!s.empty() && !s.back()) s.pop_back(); return s; }
    int var(const char* n) { int v; if (nc_inq_varid(nc, n, &v) != NC_NOERR) { viol("variable", fmt("there is no '%s' (%s)", n, line)); return -2; } return v; }
    void str(const char* n, const string& w, int v = NC_GLOBAL) { string g = text(v, n); VEXPECT(g == w, "attribute", "%s is '%s', not '%s' (%s)", n, g.c_str(), w.c_str(), line); }
    void num(const char* n, double w, int v = NC_GLOBAL) { double g = 0; size_t l = 0; nc_inq_attlen(nc, v, n, &l); bool ok = l == 1 && nc_get_att_double(nc, v, n, &g) == NC_NOERR; VEXPECT(ok && near(g, w, 1e-6), "attribute", "%s is %s%.9g, not %.9g (%s)", n, ok ? "" : "not a number ", g, w, line); }
    void time(double w) { int v = var("time"); if (v < 0) return; double g = 0; size_t at = 0; nc_get_var1_double(nc, v, &at, &g); VEXPECT(g == w, "time", "%.3f seconds since 2000, not %.0f (%s)", g, w, line); str("units", "seconds since 2000-01-01 00:00:00 UTC", v); }
    template<class G> void cal(size_t n, G want, const char* variable, const char* units) { int v = var("calibration"); if (v < 0) return; int nd = 0, id; size_t l = 0; nc_inq_varndims(nc, v, &nd); if (nd == 1) { nc_inq_vardimid(nc, v, &id); nc_inq_dimlen(nc, id, &l); } if (!VEXPECT(l == n, "calibration", "%zu values, not %zu (%s)", l, n, line)) return; vector<float> g(n); nc_get_var_float(nc, v, g.data()); for (size_t i = 0; i < n; ++i) if (!VEXPECT(near(g[i], want(i), 1e-6), "calibration", "count %zu is %.9g, not %.9g (%s)", i, g[i], (double)want(i), line)) break; evals(n); str("variable", variable, v); str("units", units, v); }
    template<class G> int image(const char* name, int w, int h, int bytes, G want) { int v = var(name); if (v < 0) return v; int nd = 0, id[3]; size_t l[3] = {}; nc_inq_varndims(nc, v, &nd); if (nd == 3) { nc_inq_vardimid(nc, v, id); for (int i = 0; i < 3; ++i) nc_inq_dimlen(nc, id[i], l + i); } if (!VEXPECT(l[0] == 1 && (int)l[1] == h && (int)l[2] == w, "size", "%zux%zux%zu, not 1x%dx%d (%s)", l[0], l[1], l[2], h, w, line)) return -2;
        vector<int> g((size_t)w * h); nc_get_var_int(nc, v, g.data()); int mask = bytes == 1 ? 255 : 65535; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int a = g[(size_t)y * w + x] & mask, b = want(x, y); if (a != b) { viol("pixel", fmt("%s at column %d of %d, line %d of %d is %d, not %d (%s)", name, x, w, y, h, a, b, line)); y = h; break; } } evals((long)w * h); num("add_offset", 0, v); num("scale_factor", 1, v); return v; }
};
static const vector<string> ZONES = { "UTC", "America/New_York", "Asia/Kolkata", "Europe/Rome", "XYZ-13", "" };
static vt::Out go(Rng& r, const char* tool, const vector<string>& a, string& line) { string z = r.pick(ZONES); line += string(tool) + " " + show(a) + (z.empty() ? "" : " TZ=" + z); note(line); vector<string> env; if (!z.empty()) env.push_back("TZ=" + z); vt::Out o = vt::run(tool, a, work, env); VEXPECT(!o.crashed(), "crash", "%s: signal %d: %.400s", line.c_str(), o.sig, o.err.c_str()); return o; }
static bool one(const vt::Out& o, const string& name, const string& line) { if (!VEXPECT(o.status == 0, "status", "exit %d: %.300s (%s)", o.status, o.err.c_str(), line.c_str())) return false; auto f = vt::files(work); return VEXPECT(f.size() == 1 && f.count(name), "output", "%d files, first %s, not %s (%s)", (int)f.size(), f.empty() ? "" : f.begin()->first.c_str(), name.c_str(), line.c_str()); }
static void refused(const vt::Out& o, const string& line) { if (o.crashed()) return; VEXPECT(o.status > 0, "refused", "exit %d (%s)", o.status, line.c_str()); VEXPECT(!o.err.empty() || !o.out.empty(), "refused", "fails silently (%s)", line.c_str()); }
// with room for part of the file only
static void room(Rng& r, const char* tool, const vector<string>& a, const string& name, const string& line) {
    string good = read_file(work + "/" + name); if (good.empty()) return; rlim_t lim = r.below(good.size()); vt::clear(work); vt::Out o = vt::run(tool, a, work, {}, [&]() { signal(SIGXFSZ, SIG_IGN); struct rlimit l = { lim, lim }; setrlimit(RLIMIT_FSIZE, &l); }); VEXPECT(!o.crashed(), "crash", "room for %d of %zu bytes: signal %d %.300s (%s)", (int)lim, good.size(), o.sig, o.err.c_str(), line.c_str()); VEXPECT(o.status > 0 || read_file(work + "/" + name) == good, "room", "exit 0 with room for %d of %zu bytes (%s)", (int)lim, good.size(), line.c_str()); obs("room", fmt("%s %d", tool, o.status));
}
static Product strips(Rng& r) {
    Product p = random_product(r, in, 1 + r.below(12), 1); p.swap = r.chance(0.7); p.cols = 1 + r.below(r.chance(0.1) ? 500 : 80); p.seglines = 1 + r.below(r.chance(0.1) ? 100 : 20); p.nsegs = 1 + r.below(8); p.present.clear(); for (int s = 1; s <= p.nsegs; ++s) if (r.chance(0.8)) p.present.insert(s); if (p.present.empty()) p.present.insert(1 + r.below(p.nsegs)); p.wide = p.compr ? 10 : r.chance(0.4) ? 16 : 10; p.bpp = p.wide; if (r.chance(0.3)) p.res = "L"; return p;
}
static void put(const Product& p) { write_file(in + "/" + p.proname(), prologue_file(p)); for (int s : p.present) { string f = p.segpath(s); if (p.compr == 0) { f.resize(f.size() - 2); f += "__"; } write_file(f, segment_file(p, s)); } }
static vector<string> args(Rng& r, const Product& p) { vector<string> a; bool lng = r.chance(0.5); auto opt = [&](const char* s, const char* l, const string& v) { if (lng) a.push_back(string("--") + l + "=" + v); else { a.push_back(s); a.push_back(v); } }; opt("-d", "directory", p.dir); opt("-r", "resolution", p.res); opt("-s", "productid1", p.pid1); opt("-c", "productid2", p.pid2); opt("-t", "time", p.timing); return a; }
static void xrit(Rng& r) {
    setup(); Product p = strips(r); put(p); if (r.chance(0.3)) { Product q = p; q.seed ^= 77; q.pid2 = p.pid2 == "IR_108" ? "IR_120" : "IR_108"; put(q); } if (r.chance(0.3)) { Product q = p; q.timing[11] = q.timing[11] == '5' ? '0' : '5'; q.seed ^= 99; q.hh = (q.hh + 1) % 24; put(q); } if (r.chance(0.3)) write_file(in + "/" + p.epiname(), "x");
    auto a = args(r, p); int W = p.cols, H = p.seglines * p.nsegs, x0 = 0, y0 = 0, w = W, h = H; bool sub = r.chance(0.4); if (sub) { w = 1 + r.below(W); h = 1 + r.below(H); x0 = r.below(W - w + 1); y0 = r.below(H - h + 1); a.push_back("-a"); a.push_back(fmt("%d,%d,%d,%d", y0 + 1, h, x0 + 1, w)); }
    string chan = MSG_channel_name((t_enum_MSG_spacecraft)p.scid, p.channel), sat = MSG_spacecraft_name((t_enum_MSG_spacecraft)p.scid); for (auto& c : chan) if (c == ' ' || c == '.') c = '_'; string name = chan + fmt("_%04d%02d%02d_%02d%02d.nc", p.y, p.mo, p.d, p.hh, p.mi), line = fmt("%dx%d in %d segments, %zu there, ", W, H, p.nsegs, p.present.size());
    if (r.chance(0.2)) write_file(work + "/" + name, string(r.below(90000), 'x')); auto before = vt::files(in); vt::Out o = go(r, "XRITNC", a, line); if (o.crashed() || !one(o, name, line)) return; const char* L = line.c_str(); VEXPECT(vt::files(in) == before, "input", "the inputs change (%s)", L);
    { Nc n(work + "/" + name, L); if (n.nc < 0) return; n.time(secs(p.y, p.mo, p.d, p.hh, p.mi, p.extra_ms / 1000)); n.str("Satellite", sat); n.str("Time", fmt("%04d-%02d-%02d %02d:%02d:00 UTC", p.y, p.mo, p.d, p.hh, p.mi)); n.num("Columns", w); n.num("Lines", h); n.num("AreaStartPix", x0 + 1); n.num("AreaStartLin", y0 + 1); int f = p.hrv() ? -40927014 : -13642337; n.num("Column_Scale_Factor", p.swap ? f : -f); n.num("Line_Scale_Factor", f); n.num("Column_Offset", p.hrv() ? 5566 : 1856); n.num("Line_Offset", p.hrv() ? 5566 : 1856); double lon = 99; nc_get_att_double(n.nc, NC_GLOBAL, "Longitude", &lon); VEXPECT(fabs(lon - p.lon) < 1e-4, "attribute", "longitude %g, not %g (%s)", lon, p.lon, L);
        MSG_header head; MSG_data data; std::unique_ptr<float[]> cal; { Quiet q; std::ifstream f(in + "/" + p.proname(), std::ios::binary); head.read_from(f); data.read_from(f, head); cal.reset(data.prologue->radiometric_proc.get_calibration(p.channel, p.bpp)); } n.cal(1 << p.bpp, [&](size_t i) { return cal[i]; }, chan.c_str(), p.channel > 3 && p.channel < 12 ? "K" : "mW m^-2 sr^-1 (cm^-1)^-1"); if (p.channel <= 3 || p.channel == 12) for (int i : { 0, 1, 1023 }) VEXPECT(near(cal[i], i * p.slope[p.channel - 1] + p.offset[p.channel - 1], 1e-5), "calibration", "count %d is %g in the library", i, cal[i]);
        int v = n.image(chan.c_str(), w, h, 2, [&](int x, int y) { int s = (y + y0) / p.seglines + 1; return p.present.count(s) ? (int)p.sample(s, (y + y0) % p.seglines, x + x0) : 0; }); if (v >= 0) n.num("chnum", p.channel, v); }
    obs("xrit", fmt("channel %d, compression %d, %s%s", p.channel, p.compr, sub ? "area" : "whole", (int)p.present.size() < p.nsegs ? ", segments missing" : "")); sample(line); if (r.chance(0.3)) room(r, "XRITNC", a, name, line);
}
static void xrit_wrong(Rng& r) {
    setup(); Product p = strips(r); put(p); auto a = args(r, p); string why; int s = *p.present.begin(), W = p.cols, H = p.seglines * p.nsegs; bool must = true; auto rewrite = [&](const Product& q, int seg) { write_file(p.segpath(s).substr(0, p.segpath(s).size() - 2) + (p.compr ? "C_" : "__"), segment_file(q, seg)); }; auto raw = [&](const string& b) { write_file(p.segpath(s).substr(0, p.segpath(s).size() - 2) + (p.compr ? "C_" : "__"), b); }; auto without = [&](int type) { string f = segment_file(p, s); for (auto& q : bx::records(f)) if (q.type == type) { f.erase(q.off, q.len); put_be(f, 4, get_be(f, 4, 4) - q.len, 4); break; } raw(f); };
    switch (r.below(16)) {
        case 0: { why = "area"; static const vector<int> B = { 0, -1, -2147483647, 2147483647, 1073741824 }; int v[4] = { 1, H, 1, W }; int k = r.below(4); if (r.chance(0.6)) v[k] = r.pick(B); else v[k] += k % 2 ? 1 + r.below(3) : r.chance(0.5) ? -1 : 1; if (r.chance(0.2)) v[r.below(4)] = r.pick(B); a.push_back("-a"); a.push_back(fmt("%d,%d,%d,%d", v[0], v[1], v[2], v[3])); break; }
        case 1: why = "area text"; a.push_back("-a"); a.push_back(r.pick(vector<string>{ "", "1", "1,1", "1,1,1", "x,1,1,1", "1;1;1;1" })); break;
        case 2: { why = "other columns"; if (p.present.size() < 2) return; Product q = p; q.cols += 1 + r.below(40); rewrite(q, s); break; }
        case 3: { why = "other lines"; if (p.present.size() < 2) return; Product q = p; q.seglines += 1 + r.below(40); rewrite(q, s); break; }
        case 4: why = "sequence number"; rewrite(p, r.chance(0.3) ? 0 : p.nsegs + 1 + r.below(r.chance(0.5) ? 3 : 60000)); break;
        case 5: why = "no segment record"; without(128); break;
        case 6: why = "no structure record"; without(1); break;
        case 7: why = "no navigation record"; without(2); break;
        case 8: { why = "truncated"; string f = segment_file(p, s); raw(f.substr(0, r.below(f.size()))); break; }
        case 9: why = "no prologue"; unlink((in + "/" + p.proname()).c_str()); break;
        case 10: { why = "two prologues"; Product q = p; q.num = "001"; write_file(in + "/" + q.proname(), prologue_file(q)); break; }
        case 11: { why = "prologue truncated"; string f = prologue_file(p); write_file(in + "/" + p.proname(), f.substr(0, r.below(f.size()))); must = false; break; }
        case 12: why = "prologue is a segment"; write_file(in + "/" + p.proname(), segment_file(p, s)); break;
        case 13: { why = "missing option"; vector<string> b; for (size_t i = 0; i < a.size(); ++i) if (a[i] == "-t") ++i; else if (a[i].compare(0, 7, "--time=") != 0) b.push_back(a[i]); a = b; break; }
        case 14: { why = "no data format"; Product q = p; q.format = 0; for (int x : p.present) { s = x; rewrite(q, x); } break; }
        case 15: { must = false; string f = r.chance(0.3) ? prologue_file(p) : segment_file(p, s); bool pro = f == prologue_file(p); for (int n = 1 + r.below(3); n-- > 0;) f = bx::damage(r, f, why); if (pro) write_file(in + "/" + p.proname(), f); else raw(f); why = "damaged"; break; }
    }
    string line = why + ": "; vt::Out o = go(r, "XRITNC", a, line); if (must) { refused(o, line); VEXPECT(vt::files(work).empty(), "refused", "a file is left (%s)", line.c_str()); } else VEXPECT(o.status != 0 || vt::files(work).size() == 1, "status", "exit 0 without a file (%s)", line.c_str()); obs("xrit wrong", why + fmt(" %d", o.status)); sample(line);
}
static void hri(Rng& r) {
    setup(); hr::File f; hr::pick(r, f, r.chance(0.08)); f.tec = false; hr::build(r, f); string p = in + "/f.hri"; bool cut = r.chance(0.2); write_file(p, cut ? f.bytes.substr(0, r.below(f.bytes.size())) : f.bytes); string line = fmt("%s%s, ", f.f->code, cut ? " cut" : ""); vt::Out o = go(r, "HRINC", { p }, line); if (o.crashed()) return; const char* L = line.c_str(); if (cut) { refused(o, line); obs("hri", "cut"); return; }
    std::unique_ptr<Hri> h(new Hri()); { Quiet q; try { h->readfrom((char*)p.c_str(), false); } catch (std::exception& e) { viol("readable", e.what()); return; } } if (!VEXPECT(o.status == 0, "status", "exit %d: %.300s (%s)", o.status, o.err.c_str(), L)) return; auto files = vt::files(work); VEXPECT(h->nimages == (int)f.f->bands.size() && (int)files.size() == h->nimages, "output", "%zu files of %zu images (%s)", files.size(), f.f->bands.size(), L); geolocation* geo = h->get_geolocation(); string name;
    for (int i = 0; i < h->nimages; ++i) { HRI_image& m = h->image[i]; auto& b = f.f->bands[i]; name = fmt("%s_%cFormat_%s_%4d%02d%02d_%02d%02d.nc", f.sat->name, f.f->code[0], b.name, f.year, f.month, f.day, f.hour, f.minute); if (!VEXPECT(files.count(name), "output", "there is no %s but %s (%s)", name.c_str(), files.empty() ? "nothing" : files.begin()->first.c_str(), L)) continue; Nc n(work + "/" + name, L); if (n.nc < 0) continue;
        n.time(secs(f.year, f.month, f.day, f.hour, f.minute, 0)); string t = fmt("%04d-%02d-%02d %02d:%02d:00 UTC", f.year, f.month, f.day, f.hour, f.minute); n.str("Time", t); n.str("Satellite", f.sat->name); n.str("Area_Name", fmt("%cFormat", f.f->code[0])); n.str("title", string(f.sat->name) + " product for " + t); n.num("Columns", b.px); n.num("Lines", b.lines); n.num("SampleX", m.samplex); n.num("SampleY", m.sampley); n.num("Column_Scale_Factor", geo->CFAC); n.num("Line_Scale_Factor", geo->LFAC); n.num("Column_Offset", geo->COFF); n.num("Line_Offset", geo->LOFF); n.num("Orbit_Radius", h->get_orbit_radius()); n.num("Longitude", f.lon); n.str("Projection", fmt("GEOS(%3.1f)", (double)f.lon)); float* c = m.get_calibration(); n.cal(256, [&](size_t k) { return c[k]; }, b.name, m.units.c_str());
        const unsigned char* px = m.get_image(); int v = n.image(b.name, b.px, b.lines, 1, [&](int x, int y) { return (int)px[(size_t)y * b.px + x]; }); if (v >= 0) n.num("chnum", m.get_image_band(), v); }
    obs("hri", fmt("%s %s", f.f->code, f.sat->name)); sample(line); if (r.chance(0.3) && files.size() == 1 && !name.empty()) room(r, "HRINC", { p }, name, line);
}
static void openmtp(Rng& r) {
    setup(); using namespace mt; Mtp m = make(r); bool good = r.chance(0.75); if (good) { bool vis = r.chance(0.4); while (m.vis != vis || !strchr("67", m.h[33]) || m.h[32] != 'M') m = make(r); bool a = r.chance(0.1); int k = vis ? 2 : 1; if (!vis) pb(m.h, 40, r.range(4, 7), 4); m.nl = (a ? 2500 : 625) * k; m.np = (a ? 2500 : 1250) * k; pb(m.h, 123, 1810 * k, 4); pb(m.h, 131, m.nl, 4); pb(m.h, 135, m.np, 4); m.rows.clear(); m.heads.clear(); string noise = mt::bytes(r, m.np + 997); for (int i = 0; i < m.nl; ++i) { m.heads.push_back(string(32, (char)i)); m.rows.push_back(noise.substr(i % 997, m.np)); } }
    string p = in + "/f.mtp", bytes = m.file(); bool cut = r.chance(0.15); if (cut) bytes.resize(r.below(bytes.size())); write_file(p, bytes); string line = fmt("channel %d %dx%d%s, ", i4(m.h, 40), m.np, m.nl, cut ? " cut" : ""); vt::Out o = go(r, "MTPNC", { p }, line); if (o.crashed()) return; const char* L = line.c_str(); if (cut) { refused(o, line); obs("openmtp", "cut"); return; }
    std::unique_ptr<OpenMTP> lib(new OpenMTP); bool ok = true; { Quiet q; try { lib->open(&p[0]); ok = lib->is_A_format() || lib->is_B_format(); if (ok) { lib->get_chname(); lib->get_satellite_name(); } } catch (std::exception&) { ok = false; } catch (const char*) { ok = false; } } if (!ok) { refused(o, line); obs("openmtp", "no format"); return; } VEXPECT(good || (m.nl && m.np), "format", "no pixels (%s)", L);
    if (good && o.status) { } int d = i4(m.h, 24) % 10000, t = i4(m.h, 28), y = i4(m.h, 8); string ch = lib->get_chname(), name = m.h.substr(32, 2) + "_" + lib->get_field_name() + fmt("_%04d%04d_%04d.nc", y, d, t); if (!one(o, name, line)) return; Nc n(work + "/" + name, L); if (n.nc < 0) return; bool a = lib->is_A_format(), vis = lib->is_vis_data(); int sc = a ? 1 : 2;
    n.time(secs(y, d / 100, d % 100, t / 100, t % 100, 0)); n.str("Time", fmt("%04d-%02d-%02d %02d:%02d:00 UTC", y, d / 100, d % 100, t / 100, t % 100)); n.str("Satellite", lib->get_satellite_name()); n.str("Area_Name", a ? "AFormat" : "BFormat"); n.num("Columns", m.np * sc); n.num("Lines", m.nl * sc); n.num("SampleX", sc); n.num("SampleY", sc); n.num("Column_Scale_Factor", a && !vis ? -9102222 : -18204444); n.num("Line_Scale_Factor", a && !vis ? -9102222 : -18204444); n.num("Column_Offset", a && vis ? 2500 : 1248); n.num("Line_Offset", a ? vis ? 2500 : 1249 : -1118); n.num("Orbit_Radius", lib->orbit_radius()); n.num("Longitude", lib->subsatellite_point()); float* c = lib->get_calibration(); n.cal(256, [&](size_t k) { return c[k]; }, ch.c_str(), lib->get_chunit()); const unsigned char* px = lib->get_image(); n.image(ch.c_str(), m.np, m.nl, 1, [&](int x, int yy) { return (int)px[(size_t)yy * m.np + x]; });
    obs("openmtp", fmt("%s %s %s", m.h.substr(32, 2).c_str(), ch.c_str(), a ? "A" : "B")); sample(line); if (r.chance(0.3)) room(r, "MTPNC", { p }, name, line);
}
static void db1(Rng& r) {
    setup(); using namespace th; string dir = root + "/db"; Db d = make(r, true); while (d.ch.empty()) d = make(r, true); for (auto k : { "Satellite:Name" }) { auto i = d.info.find(k); if (i != d.info.end() && i->second.size() > 60) { i->second.resize(59); i->second += "x"; } } int day = 1, mon = 1, year = 2000, H = 0, M = 0, sec = 0; bool bad = false; string why = "good"; if (r.chance(0.9)) { day = r.range(1, 28); mon = r.range(1, 12); year = r.range(1995, 2037); H = r.below(24); M = r.below(60); sec = r.below(60); d.info["Schedule:Start"] = fmt("%02d/%02d/%04d %02d:%02d:%02d.%03d", day, mon, year, H, M, sec, (int)r.below(1000)); } else d.info.erase("Schedule:Start");
    Chan& c = std::next(d.ch.begin(), r.below(d.ch.size()))->second; string chan = c.name; int w = atoi(d.info["Image:Pixels"].c_str()), h = atoi(d.info["Image:Lines"].c_str()); if (r.chance(0.35)) { bad = true; switch (r.below(7)) { case 0: chan = "IR_999"; why = "no channel"; break; case 1: c.raw.resize(r.below((size_t)w * h)); c.odd = false; why = "RAW too short"; break; case 2: d.info["Image:Pixels"] = r.pick(vector<string>{ "0", "-1", "100000", "2147483647", "-2147483648" }); why = "pixels"; break; case 3: d.info["Image:Lines"] = r.pick(vector<string>{ "0", "-1", "100000", "2147483647", "-2147483648" }); why = "lines"; break; case 4: d.info["Schedule:Start"] = r.pick(vector<string>{ "x", "today", "31/12", "01/02/2003", "2003-01-02 10:00" }); why = "no start"; break; case 5: chan = string(r.range(100, 6000), 'q'); why = "long channel"; break; case 6: d.info["Satellite:Name"] = string(400, 'S'); why = "long name"; break; } }
    put(r, d, dir); auto before = vt::files(dir); string line = why + ": "; vector<string> a = { dir, chan }; vt::Out o = go(r, "DB1NC", a, line); VEXPECT(vt::files(dir) == before, "input", "the inputs change (%s)", line.c_str()); if (o.crashed()) { clean(dir); return; } const char* L = line.c_str(); obs("db1", why + " " + (bad ? "" : c.name)); if (bad) { refused(o, line); VEXPECT(vt::files(work).empty(), "refused", "a file is left (%s)", L); clean(dir); return; }
    auto get = [&](const string& k, const string& def) { auto i = d.info.find(k); return i == d.info.end() ? def : i->second; }; string start = get("Schedule:Start", "01/01/2000 00:00:00.000"), name = get("Satellite:Name", "Undefined") + "_" + c.name + "_" + start + ".nc"; for (auto& x : name) if (x == '/' || x == ':') x = '-'; else if (x == ' ') x = '_'; if (!one(o, name, line)) { clean(dir); return; }
    { Nc n(work + "/" + name, L); if (n.nc < 0) { clean(dir); return; } n.time(secs(year, mon, day, H, M, sec)); n.str("Time", fmt("%04d-%02d-%02d %02d:%02d:%02d UTC", year, mon, day, H, M, sec)); n.str("Satellite", get("Satellite:Name", "Undefined")); n.num("Columns", w); n.num("Lines", h); MSG_db1_data lib; { Quiet q; S pd(dir), pc(chan); lib.open(pd); lib.set_channel(pc); } n.str("Receiver", lib.get_INFO_station_name()); n.str("Area_Name", lib.get_AoI_name()); n.str("Projection", lib.get_AoI_projection()); auto aoi = [&](const char* k, double def) { auto i = d.aoi.find(k); return d.has_aoi && i != d.aoi.end() ? atof(i->second.c_str()) : def; }; n.num("Column_Scale_Factor", aoi(":CFAC", lib.get_AoI_cfac())); n.num("Line_Scale_Factor", aoi(":LFAC", lib.get_AoI_lfac())); n.num("Column_Offset", aoi(":COFF", lib.get_AoI_coff())); n.num("Line_Offset", aoi(":LOFF", lib.get_AoI_loff())); n.num("NorthSouth", !lib.get_INFO_schedule_northsouth());
        float* t = lib.get_calibration(); n.cal(lib.get_number_of_calibration(), [&](size_t k) { return t[k]; }, lib.get_channel_INFO_variable(), lib.get_channel_INFO_units()); int v = n.image(c.name.c_str(), w, h, 2, [&](int x, int y) { return (int)c.raw[(size_t)y * w + x]; }); int id = std::find(th::CH.begin(), th::CH.end(), c.name) - th::CH.begin() + 1; if (v >= 0) n.num("chnum", id, v); }
    sample(line); if (r.chance(0.3)) room(r, "DB1NC", a, name, line); clean(dir);
}
int main(int argc, char** argv) {
    parse_args(argc, argv); bool T = cfg().thorough; auto g = [](void (*f)(Rng&)) { return [f](uint64_t, Rng& r) { f(r); }; };
    add_group("xrit", T ? 6000 : 320, 8, 120, g(xrit));
    add_group("xrit_wrong", T ? 6000 : 320, 8, 120, g(xrit_wrong));
    add_group("hri", T ? 1500 : 72, 4, 120, g(hri));
    add_group("openmtp", T ? 1500 : 72, 4, 120, g(openmtp));
    add_group("db1", T ? 6000 : 320, 8, 120, g(db1));
    return run_all();
}
