// C30: ThornSDS databases, written by an encoder of its own
#include "thorn.h"
#include "picture.h"
#include <msat/thornsds_db1/thornsds_db1.h>
#include <memory>
#include <sstream>
extern unsigned char vf_fill;
static string root;
using namespace th;
static string show_args(const vector<string>& a) { string s; for (auto& x : a) s += (s.empty() ? "" : " ") + x; return s; }
struct Quiet { std::streambuf* b; std::ostringstream e; Quiet() { b = std::cerr.rdbuf(e.rdbuf()); } ~Quiet() { std::cerr.rdbuf(b); } };
struct S { string s; S(const string& t) : s(t + '\0') {} operator char*() { return &s[0]; } };
static bool truth(const string& s, bool def) { char c = s.empty() ? 0 : s[0]; return c && strchr("yY1tT", c) ? true : c && strchr("nN0fF", c) ? false : def; }
static void nothing(MSG_db1_data& o, const char* ctx) {
    VEXPECT(!o.is_data_ok() && !o.get_RAW_data() && !o.get_calibration() && o.get_raw_data_nvals() <= 0 && o.get_raw_data_size() <= 0 && o.get_number_of_calibration() <= 0, "refused", "a channel that cannot be read has %d values (%s)", o.get_raw_data_nvals(), ctx);
    VEXPECT(o.get_AoI_npixels() == -1 && o.get_AoI_nlines() == -1 && !o.get_AoI_name() && !o.get_AoI_projection() && o.get_AoI_cfac() == 0 && !o.get_INFO_satellite_name() && o.get_INFO_image_pixels() == 0 && !o.get_channel_INFO_name() && !o.get_channel_INFO_variable_code() && o.get_channel_Calibration_Slope() == 0 && o.get_channel_Calibration_value_calibrated(0) == 0, "refused", "a channel that cannot be read is described (%s)", ctx); std::ostringstream s; s << o; VEXPECT(s.good() || s.eof(), "refused", "printing fails (%s)", ctx);
}
static void compare(MSG_db1_data& o, const Db& d, const Chan& c, const char* ctx) {
    if (!VEXPECT(o.is_data_ok(), "readable", "channel %s is not read (%s)", c.name.c_str(), ctx)) return; std::ostringstream prn; prn << o; std::istringstream in(prn.str()); std::map<string, string> P; string l; while (std::getline(in, l)) { size_t k = l.find(": "); if (k == string::npos) continue; string n = l.substr(0, k); while (!n.empty() && n.back() == ' ') n.pop_back(); P[n] = l.substr(k + 2); } size_t bytes = c.raw.size() * 2 + c.odd;
    auto get = [&](const Ent& e, const string& k, const string& def) { auto i = e.find(k); return i == e.end() ? def : i->second; }; const Ent none; const Ent &A = d.has_aoi ? d.aoi : none, &I = d.has_info ? d.info : none, &C = c.has_cal ? c.cal : none; string q = fmt("Channel%d:", c.info);
    auto txt = [&](const char* what, const char* got, const string& want, const char* lab) { VEXPECT(got && want == got, what, "%s is '%s', not '%s' (%s)", what, got ? got : "NULL", want.c_str(), ctx); if (lab) VEXPECT(P[lab] == want, "printed", "%s is printed as '%s', not '%s'", lab, P[lab].c_str(), want.c_str()); };
    auto num = [&](const char* what, double got, double want, const char* lab) { VEXPECT(got == want || fabs(got - want) <= 1e-6 * fabs(want) , what, "%s is %.12g, not %.12g (%s)", what, got, want, ctx); if (lab) VEXPECT(fabs(atof(P[lab].c_str()) - want) <= 2e-5 * fabs(want) && !P[lab].empty(), "printed", "%s is printed as '%s', not %.12g", lab, P[lab].c_str(), want); };
#define N(e, k, def) atof(get(e, k, def).c_str())
    string half = std::to_string(bytes / 2); txt("AoI name", o.get_AoI_name(), get(A, ":Name", "Undefined"), "AoI Name"); num("AoI pixels", o.get_AoI_npixels(), N(A, ":nPixels", half), "AoI nPixels"); num("AoI lines", o.get_AoI_nlines(), N(A, ":nLines", "1"), "AoI nLines"); txt("AoI projection", o.get_AoI_projection(), get(A, ":Projection", "GRID"), "AoI Projection"); num("CFAC", o.get_AoI_cfac(), N(A, ":CFAC", "0"), "AoI CFAC"); num("LFAC", o.get_AoI_lfac(), N(A, ":LFAC", "0"), "AoI LFAC"); num("COFF", o.get_AoI_coff(), N(A, ":COFF", "0"), "AoI COFF"); num("LOFF", o.get_AoI_loff(), N(A, ":LOFF", "0"), "AoI LOFF");
    txt("station", o.get_INFO_station_name(), get(I, "Station:Name", "Undefined"), "Station Name"); txt("satellite", o.get_INFO_satellite_name(), get(I, "Satellite:Name", "Undefined"), "Satellite Name"); num("satellite id", o.get_INFO_satellite_id(), N(I, "Satellite:ID", "0"), "Satellite ID"); num("orbit", o.get_INFO_satellite_orbit(), N(I, "Satellite:Orbit", "0"), "Satellite Orbit"); txt("start", o.get_INFO_schedule_start(), get(I, "Schedule:Start", "01/01/2000 00:00:00.000"), "Schedule Start"); txt("end", o.get_INFO_schedule_end(), get(I, "Schedule:End", "01/01/2000 00:00:00.000"), "Schedule End"); num("elevation", o.get_INFO_schedule_elevation(), N(I, "Schedule:Elevation", "90"), "Elevation"); num("north south", o.get_INFO_schedule_northsouth(), truth(get(I, "Schedule:NorthSouth", ""), false), "NorthSouth"); txt("location", o.get_INFO_schedule_location(), get(I, "Schedule:Location", "OH"), "Location"); num("day", o.get_INFO_schedule_day(), truth(get(I, "Schedule:Day", ""), true), "Day"); txt("slot", o.get_INFO_schedule_slot(), get(I, "Schedule:Slot", "HRIT"), "Slot");
    txt("sensor", o.get_INFO_image_sensor(), get(I, "Image:Sensor", "Seviri"), "Image Sensor"); num("pixels", o.get_INFO_image_pixels(), N(I, "Image:Pixels", half), "Image Pixels"); num("lines", o.get_INFO_image_lines(), N(I, "Image:Lines", "1"), "Image Lines"); num("bits", o.get_INFO_image_bitsperpixel(), N(I, "Image:BitsPerPixel", "10"), "Bits per Pixel"); num("protected", o.get_INFO_image_protected(), truth(get(I, "Image:Protected", ""), false), "Image Protected"); num("channels", o.get_INFO_image_nchannels(), N(I, "Image:nChannels", "10"), "Image Channels"); num("products", o.get_INFO_image_nproducts(), N(I, "Image:nProducts", "10"), "Image Products");
    string var = get(I, q + "Variable", "Undefined"); txt("channel name", o.get_channel_INFO_name(), c.name, "Channel Name"); txt("variable", o.get_channel_INFO_variable(), var, "Channel Variable"); txt("units", o.get_channel_INFO_units(), get(I, q + "Units", "Undefined"), "Channel Units"); num("channel bits", o.get_channel_INFO_bitsperpixel(), N(I, q + "BitsPerPixel", "10"), "Channel BPP"); num("table", o.get_channel_INFO_table(), truth(get(I, q + "Table", ""), false), "Channel Table"); int id = std::find(CH.begin(), CH.end(), c.name) - CH.begin() + 1; string code = var[0] == 'T' ? "T" : var[0] == 'R' ? (id <= 3 ? "V" : "N") : "U"; txt("code", o.get_channel_INFO_variable_code(), code, nullptr); { S cn(c.name); num("channel number", o.chname_to_chnum(cn), id, nullptr); }
    num("slope", o.get_channel_Calibration_Slope(), N(C, "Calibration:Slope", "0"), "Slope"); num("target count", o.get_channel_Calibration_TargetCount(), N(C, "Calibration:TargetCount", "0"), "Target Count"); num("Vc", o.get_channel_Calibration_Vc(), N(C, "Calibration:Vc", "0"), "Vc"); num("A", o.get_channel_Calibration_A(), N(C, "Calibration:A", "0"), "A"); num("B", o.get_channel_Calibration_B(), N(C, "Calibration:B", "0"), "B");
    int bpp = atoi(get(I, "Image:BitsPerPixel", "10").c_str()), n = 1 << bpp; num("calibrations", o.get_number_of_calibration(), n, nullptr); float* t = o.get_calibration(); if (!VEXPECT(t, "table", "there is no calibration table")) return; for (int k = -2; k < n + 2; ++k) { double w = k < 0 || k >= n ? 0 : N(C, var + ":" + code + fmt("(%d)", k), "0"), g = o.get_channel_Calibration_value_calibrated(k); if (fabs(g - w) > 1e-6 * fabs(w) || (k >= 0 && k < n && fabs(t[k] - w) > 1e-6 * fabs(w))) { viol("calibration", fmt("count %d is %.9g, in the table %.9g, not %.9g (%s)", k, g, k >= 0 && k < n ? t[k] : 0., w, ctx)); break; } } evals(n);
    num("size", o.get_raw_data_size(), bytes, nullptr); num("values", o.get_raw_data_nvals(), c.raw.size(), nullptr); const unsigned short* v = o.get_RAW_data(); if (!VEXPECT(v, "data", "there are no data")) return; if (memcmp(v, c.raw.data(), c.raw.size() * 2)) viol("data", fmt("the counts differ (%s)", ctx)); evals(c.raw.size()); obs("channel", fmt("%s %s %d bits, calibrated %d, area %d", c.name.c_str(), code.c_str(), bpp, c.has_cal, d.has_aoi)); if (I.size() < 20) obs("sparse", fmt("%zu %zu", I.size(), A.size()));
}
// a history of openings and channels with one object
static void good(Rng& r) {
    vector<Db> d; vector<string> dir; int n = 1 + r.below(3); for (int i = 0; i < n; ++i) { d.push_back(make(r)); dir.push_back(root + fmt("/d%d", i) + (r.chance(0.1) ? string(200, 'x') : "")); put(r, d[i], dir[i]); } int fd = count_fds(); vf_fill = r.chance(0.5) ? 0xAA : 0x55;
    { Quiet q; std::unique_ptr<MSG_db1_data> o(new MSG_db1_data); int cur = -1; bool set = false; const Chan* last = nullptr; string log; nothing(*o, "before opening");
        for (int s = 2 + r.below(10); s-- > 0;) { switch (r.below(6)) {
            case 0: { int i = r.below(n); if (cur >= 0 && r.chance(0.5)) o->close(); S p(dir[i]); o->open(p); cur = i; set = false; last = nullptr; log += fmt("open %d, ", i); nothing(*o, log.c_str()); break; }
            case 1: { string c = r.pick(CH); S p(c); bool h = o->has_channel(p), w = cur >= 0 && d[cur].ch.count(c); VEXPECT(h == w, "has channel", "%s is %sthere (%s)", c.c_str(), h ? "" : "not ", log.c_str()); log += "has " + c + ", "; break; }
            case 2: if (r.chance(0.3)) { o->close(); cur = -1; set = false; last = nullptr; log += "close, "; nothing(*o, log.c_str()); } break;
            default: { string c = cur >= 0 && !d[cur].ch.empty() && r.chance(0.8) ? std::next(d[cur].ch.begin(), r.below(d[cur].ch.size()))->first : r.pick(CH); S p(c); o->set_channel(p); log += "set " + c + ", "; last = cur >= 0 && d[cur].ch.count(c) ? &d[cur].ch[c] : nullptr; set = last; if (!set) nothing(*o, log.c_str()); break; } }
            if (set && last) compare(*o, d[cur], *last, log.c_str()); } if (r.chance(0.5)) o->close(); obs("history", fmt("%zu steps", std::count(log.begin(), log.end(), ','))); sample(log); }
    VEXPECT(count_fds() == fd, "descriptors", "descriptors are left open"); for (auto& p : dir) { clean(p); rmdir(p.c_str()); }
}
static void wf(const string& f, const string& s) { rmdir(f.c_str()); write_file(f, s); }
static void damage(Rng& r, Db& d, const string& dir, string& how) {
    Chan& c = d.ch.begin()->second; string p = dir + "/" + c.name;
    switch (r.below(12)) {
    case 0: unlink((dir + "/AoI").c_str()); how = "no AoI"; break;
    case 1: unlink((dir + "/INFO.DBI").c_str()); how = "no INFO"; break;
    case 2: unlink((p + ".Calibration").c_str()); how = "no calibration"; break;
    case 3: unlink((p + ".RAW").c_str()); mkdir((p + ".RAW").c_str(), 0755); how = "RAW directory"; break;
    case 4: { string s = read_file(p + ".RAW"); s.resize(r.below(s.size() + 1)); wf(p + ".RAW", s); how = "RAW cut"; break; }
    case 5: { static const vector<string> B = { "-1", "17", "31", "32", "33", "64", "2147483647", "-2147483648", "99999999999", "x", "", "0", "16" }; d.info["Image:BitsPerPixel"] = r.pick(B); wf(dir + "/INFO.DBI", ini(r, d.info)); how = "bits " + d.info["Image:BitsPerPixel"]; break; }
    case 6: { d.info[fmt("Channel%d:Variable", c.info)] = r.chance(0.5) ? string(r.below(900), 'T') : "%s%n%d"; wf(dir + "/INFO.DBI", ini(r, d.info)); how = "variable"; break; }
    case 7: { d.info[fmt("Channel%d:Name", c.info)] = r.chance(0.5) ? string(r.below(900), 'I') : ""; wf(dir + "/INFO.DBI", ini(r, d.info)); how = "channel name"; break; }
    case 8: { string s; for (int i = r.below(4000); i-- > 0;) s += (char)r.below(256); static const vector<string> F = { "/AoI", "/INFO.DBI", ".Calibration" }; string f = r.pick(F); wf(f[0] == '.' ? p + f : dir + f, s); how = "noise in " + f; break; }
    case 9: { string f = r.pick(vector<string>{ dir + "/AoI", dir + "/INFO.DBI", p + ".Calibration" }), s = read_file(f); for (int i = 1 + r.below(6); i-- > 0 && !s.empty();) s[r.below(s.size())] = (char)r.below(256); wf(f, s); how = "bytes"; break; }
    case 10: { string f = r.pick(vector<string>{ dir + "/AoI", dir + "/INFO.DBI", p + ".Calibration" }), s = read_file(f); s.resize(r.below(s.size() + 1)); wf(f, s); how = "text cut"; break; }
    case 11: { string f = r.pick(vector<string>{ dir + "/AoI", dir + "/INFO.DBI", p + ".Calibration" }); unlink(f.c_str()); mkdir(f.c_str(), 0755); how = "text directory"; break; }
    }
}
static string touch(MSG_db1_data& o) {
    std::ostringstream s; s << o; auto t = [&](const char* p) { s << (p ? p : "(null)") << '\n'; }; if (!o.is_data_ok()) return "no"; t(o.get_channel_INFO_variable_code()); t(o.get_AoI_name()); s << o.get_AoI_npixels() << ' ' << o.get_INFO_image_pixels() << '\n'; float* c = o.get_calibration(); for (int i = 0; c && i < o.get_number_of_calibration(); ++i) s << c[i] << ' '; for (int i : { -1, 0, 1023, 70000, 2147483647 }) s << o.get_channel_Calibration_value_calibrated(i); const unsigned short* v = o.get_RAW_data(); uint64_t h = 7; for (int i = 0; v && i < o.get_raw_data_nvals(); ++i) h = h * 31 + v[i]; s << h; return s.str();
}
static void damaged(Rng& r) {
    Db d = make(r); while (d.ch.empty()) d = make(r); string dir = root + "/bad"; put(r, d, dir); string name = d.ch.begin()->first, how, all; for (int k = r.chance(0.6) ? 1 : 2; k-- > 0;) { damage(r, d, dir, how); all += (all.empty() ? "" : "+") + how; } note(all); string got[2]; int fd = count_fds(); bool ok = false;
    for (int k = 0; k < 2; ++k) { vf_fill = k ? 0x55 : 0xAA; Quiet q; MSG_db1_data o; S p(dir), c(name); o.open(p); o.set_channel(c); ok = o.is_data_ok(); got[k] = touch(o); evals(1); if (r.chance(0.3)) { for (auto& x : d.ch) { S y(x.first); o.set_channel(y); touch(o); } } if (r.chance(0.3)) { string e = root + "/other"; Db g = make(r); put(r, g, e); S pe(e); o.open(pe); for (auto& x : g.ch) { S y(x.first); o.set_channel(y); compare(o, g, x.second, "after a bad one"); } clean(e); rmdir(e.c_str()); } if (r.chance(0.2)) { S lng(string(r.range(100, 9000), 'q')); VEXPECT(!o.has_channel(lng), "has channel", "a channel of %zu characters is there", lng.s.size()); o.set_channel(lng); nothing(o, "long name"); } }
    VEXPECT(got[0] == got[1], "damaged", "the result depends on memory that was never written (%s)", all.c_str()); VEXPECT(count_fds() == fd, "descriptors", "descriptors are left open (%s)", all.c_str()); obs("damaged", all + fmt(" %d", ok)); clean(dir); rmdir(dir.c_str());
}
static void leaks(Rng& r) {
    Db d = make(r); while (d.ch.size() < 2) d = make(r); string dir = root + "/leak"; put(r, d, dir); mkdir((dir + "/DIRRAW.RAW").c_str(), 0755); size_t h0 = 0; int fd = count_fds(); Quiet q; for (int i = 0; i < 24; ++i) { if (i == 8) h0 = heap(); std::unique_ptr<MSG_db1_data> o(new MSG_db1_data); S p(dir), c(d.ch.begin()->first), e("IR_999"), g("DIRRAW"); o->open(p); o->set_channel(c); o->set_channel(c); if (i % 2) o->set_channel(e); if (i % 3) o->set_channel(g); if (i % 4 == 0) { o->open(p); o->set_channel(c); } q.e.str(""); }
    size_t h1 = heap(); VEXPECT(h1 < h0 + 3000, "leak", "the heap grows by %zu bytes in 16 openings", h1 - h0); VEXPECT(count_fds() == fd, "descriptors", "descriptors are left open"); evals(24); obs("leaks", fmt("%zu", d.ch.size())); clean(dir); rmdir(dir.c_str());
}
static void tool(Rng& r) {
    static bool reg = false; if (!reg) { reg = true; GDALAllRegister(); CPLPushErrorHandler(CPLQuietErrorHandler); } Db d = make(r, true); while (d.ch.empty()) d = make(r, true); if (r.chance(0.9)) d.has_info = true; string dir = root + "/tdb", work = root + "/work"; mkdir(work.c_str(), 0755); vt::clear(work); for (auto k : { "Satellite:Name", "Schedule:Start" }) { auto i = d.info.find(k); if (i != d.info.end() && i->second.size() > 60) { i->second.resize(59); i->second += "x"; } } put(r, d, dir); Chan& c = std::next(d.ch.begin(), r.below(d.ch.size()))->second; int w = atoi(d.info["Image:Pixels"].c_str()), h = atoi(d.info["Image:Lines"].c_str()); string fm = r.pick(vector<string>{ "pgm", "pgm", "png", "tif" }), sc = r.chance(0.7) ? "1" : r.pick(vector<string>{ "0.5", "2", "0.9", "1.5" }), chan = c.name; bool bad = false; vector<string> args; string what;
    auto get = [&](const string& k, const string& def) { auto i = d.info.find(k); return i == d.info.end() ? def : i->second; }; string ov; Pic ovp; ovp.w = ovp.h = 0;
    if (r.chance(0.35)) { bad = true; switch (r.below(6)) { case 0: chan = "IR_999"; what = "no channel"; break; case 1: { string f = dir + "/" + c.name + ".RAW", s = read_file(f); s.resize(r.below(std::min(s.size(), (size_t)w * h * 2))); write_file(f, s); what = "RAW too short"; break; } case 2: sc = r.pick(vector<string>{ "x", "", "0", "-1", "nan", "1x" }); what = "scale '" + sc + "'"; break; case 3: ov = "/nonexistent.pgm"; what = "no overlay"; break; case 4: write_file(dir + "/INFO.DBI", "[Image]\nPixels=" + r.pick(vector<string>{ "-5", "0", "100000", "2147483647" }) + "\nLines=" + r.pick(vector<string>{ "1000", "99999", "2147483647" }) + "\n[Channel1]\nName=" + c.name + "\n"); what = "too many pixels"; break; case 5: unlink((dir + "/INFO.DBI").c_str()); what = "no INFO"; break; } }
    else if (r.chance(0.25)) { ov = root + "/ov.pgm"; ovp.w = w; ovp.h = h; string s = fmt("P5\n%d %d\n65535\n", w, h); for (int i = 0; i < w * h; ++i) { int v = r.chance(0.5) ? 0 : 65535; ovp.v.push_back(v); s += (char)(v >> 8); s += (char)v; } write_file(ov, s); }
    args = { dir, chan, fm, sc }; if (!ov.empty()) args.push_back(ov); auto before = vt::files(dir); vt::Out o = vt::run("DB1IMAGE", args, work); string line = show_args(args) + " " + what; VEXPECT(!o.crashed(), "tool", "crashes: %s (%s)", o.err.substr(0, 300).c_str(), line.c_str()); VEXPECT((o.status == 0) == !bad, "tool", "status %d (%s): %s", o.status, line.c_str(), o.err.substr(0, 200).c_str()); VEXPECT(vt::files(dir) == before, "tool", "the input is changed (%s)", line.c_str()); auto f = vt::files(work); if (bad || o.status != 0) { obs("tool", what); vt::clear(work); clean(dir); return; }
    string name = get("Satellite:Name", "Undefined") + "_" + c.name + "_" + get("Schedule:Start", "01/01/2000 00:00:00.000") + "." + fm; for (auto& x : name) if (x == '/' || x == ':') x = '-'; else if (x == ' ') x = '_'; if (VEXPECT(f.size() == 1 && f.count(name), "tool", "%zu files, the first %s, instead of %s (%s)", f.size(), f.empty() ? "" : f.begin()->first.c_str(), name.c_str(), line.c_str())) { Pic p; if (VEXPECT(picture(work + "/" + name, fm, p), "tool", "%s cannot be read (%s)", name.c_str(), line.c_str())) { vector<uint16_t> want(c.raw.begin(), c.raw.begin() + (size_t)w * h); if (!truth(get("Schedule:NorthSouth", ""), false)) want = turned(want); double g = atof(sc.c_str()); if (g != 1) scaled(p, want, w, h, g, true, line.c_str()); else if (ov.empty()) stretched(p, want, w, h, line.c_str()); else { if (VEXPECT(p.w == w && p.h == h, "size", "%d x %d", p.w, p.h)) { std::map<int, double> m; for (int i = 0; i < w * h; ++i) { if (ovp.v[i]) { if (p.v[i] != p.full) { viol("overlay", fmt("pixel %d is %g of %g where the overlay is white (%s)", i, p.v[i], p.full, line.c_str())); break; } } else { auto q = m.emplace(want[i], p.v[i]); if (q.first->second != p.v[i]) { viol("overlay", fmt("samples of %d are shown differently where the overlay is black (%s)", want[i], line.c_str())); break; } } } evals(w * h); } } obs("tool", fmt("%s by %s, overlay %d, turned %d", fm.c_str(), sc.c_str(), !ov.empty(), !truth(get("Schedule:NorthSouth", ""), false))); } }
    vt::clear(work); clean(dir);
}
int main(int argc, char** argv) {
    parse_args(argc, argv); bool T = cfg().thorough; { char b[4096]; string s = cfg().scratch; if (s[0] != '/' && getcwd(b, sizeof b)) s = string(b) + "/" + s; root = s; }
    auto in = [](void (*f)(Rng&)) { return [f](uint64_t, Rng& r) { static string top = root; root = top + fmt("/p%d", (int)getpid()); mkdir(root.c_str(), 0755); f(r); }; };
    add_group("good", T ? 6000 : 320, 8, 60, in(good));
    add_group("damaged", T ? 8000 : 400, 8, 60, in(damaged));
    add_group("tool", T ? 2000 : 120, 8, 120, in(tool));
    add_group("leaks", T ? 400 : 24, 4, 60, in(leaks));
    return run_all();
}
