// C26: threads with datasets of their own, and long histories, against one thread alone
#include "native.h"
#include "synth.h"
#include "vgmem.h"
#include "omtpids.h"
#include "hrifile.h"
#include "openmtpfile.h"
#include <msat/gdal/dataset.h>
#include <msat/gdal/gdaltranslate.h>
#include <msat/facts.h>
#include <msat/hrit/MSG_HRIT.h>
#include <msat/xrit/fileaccess.h>
#include <msat/xrit/dataaccess.h>
#include <msat/openmtp/OpenMTP.h>
#include "gdal/reflectance/reflectance.h"
#include "gdal/reflectance/sat_za.h"
#include "gdal/reflectance/cos_sol_za.h"
#include "gdal/reflectance/jday.h"
#include <thread>
#include <atomic>
#include <clocale>
#include <ctime>
using namespace vf; namespace U = msat::utils; namespace D = msat::dataset;
#ifdef __SANITIZE_THREAD__
static const bool RACES = true;
static long long heap() { return 0; }
#else
static const bool RACES = false;
#endif
// What the C library keeps once for the whole process, as memory the race
// detector can watch: each of its functions reads or writes the state it uses
static int shared_tm, shared_text, shared_token, shared_env, shared_locale;
static void rd(const int& x) { volatile int y = *(const volatile int*)&x; (void)y; }
static void wr(int& x) { *(volatile int*)&x = 1; }
extern "C" {
#define WRAP(type, name, params, args, touch) type __real_##name params; type __wrap_##name params { touch; return __real_##name args; }
WRAP(struct tm*, gmtime, (const time_t* t), (t), wr(shared_tm))
WRAP(struct tm*, localtime, (const time_t* t), (t), wr(shared_tm); rd(shared_env))
WRAP(char*, asctime, (const struct tm* t), (t), wr(shared_text))
WRAP(char*, ctime, (const time_t* t), (t), wr(shared_text); wr(shared_tm); rd(shared_env))
WRAP(char*, strtok, (char* s, const char* d), (s, d), wr(shared_token))
WRAP(time_t, mktime, (struct tm* t), (t), rd(shared_env))
WRAP(void, tzset, (void), (), rd(shared_env))
WRAP(char*, getenv, (const char* n), (n), rd(shared_env))
WRAP(int, setenv, (const char* n, const char* v, int o), (n, v, o), wr(shared_env))
WRAP(int, unsetenv, (const char* n), (n), wr(shared_env))
WRAP(int, putenv, (char* s), (s), wr(shared_env))
WRAP(char*, setlocale, (int c, const char* l), (c, l), if (l) wr(shared_locale); else rd(shared_locale))
}
// A piece of work: does the same every time, and tells what it saw
struct Unit { std::string kind; uint64_t seed; std::function<void(Rng&, std::string&)> work; bool readonly = true; };
static std::atomic<bool> delays(false);
static bool damage = true;     // ecCodes itself leaks on damaged files
static void nap(Rng& r) { uint64_t k = r.below(12), n = r.below(400); if (!delays) return; if (k < 4) sched_yield(); else if (k < 6) usleep(n); }
static void add(std::string& o, const std::string& s) { o += s; o += '\n'; }
static std::string sum(const void* p, size_t n) { uint64_t h = 1469598103934665603u; for (size_t i = 0; i < n; ++i) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211u; return fmt("%016llx", (unsigned long long)h); }
static std::string cut(const std::string& s) { return s.size() < 300 ? s : s.substr(0, 40) + "..." + sum(s.data(), s.size()); }
static void meta(GDALMajorObject* o, std::string& out) { for (const char* d : { "", "msat", "MSAT" }) { char** m = o->GetMetadata(d); for (; m && *m; ++m) add(out, std::string("md ") + d + " " + *m); } const char* v = o->GetMetadataItem(MD_MSAT_DATETIME, MD_DOMAIN_MSAT); add(out, v ? v : "no time"); }
static void look(GDALDataset* d, Rng& r, std::string& out, int windows = 4) {
    if (!d) { add(out, "none"); return; } int W = d->GetRasterXSize(), H = d->GetRasterYSize(); double gt[6] = {}; d->GetGeoTransform(gt); const OGRSpatialReference* sr = d->GetSpatialRef(); char* wkt = nullptr; if (sr) sr->exportToWkt(&wkt);
    add(out, fmt("%dx%dx%d %.12g %.12g %.12g %.12g %.12g %.12g ", W, H, d->GetRasterCount(), gt[0], gt[1], gt[2], gt[3], gt[4], gt[5]) + (wkt ? wkt : "")); CPLFree(wkt); meta(d, out); nap(r);
    for (int i = 1; i <= d->GetRasterCount(); ++i) {
        GDALRasterBand* b = d->GetRasterBand(i); int h; add(out, fmt("band %d %s %s %s nodata %.12g scale %.12g offset %.12g", i, GDALGetDataTypeName(b->GetRasterDataType()), b->GetDescription(), b->GetUnitType(), b->GetNoDataValue(&h), b->GetScale(&h), b->GetOffset(&h))); meta(b, out);
        for (int k = 0; k < windows; ++k) { int w = 1 + r.below(std::min(W, 4000)), n = 1 + r.below(std::min(H, r.chance(0.1) ? 30 : 4)), x = r.below(W - w + 1), y = r.below(H - n + 1); std::vector<float> v((size_t)w * n, -7); nap(r); bool ok = b->RasterIO(GF_Read, x, y, w, n, v.data(), w, n, GDT_Float32, 0, 0, nullptr) == CE_None; add(out, fmt("window %d,%d %dx%d %s ", x, y, w, n, ok ? "read" : "failed") + (ok ? sum(v.data(), v.size() * 4) : "")); if (r.chance(0.3)) b->FlushCache(false); }
    }
}
static const char* OPTS[] = { nullptr, nullptr, nullptr, "MSAT_COMPUTE=reflectance", "MSAT_COMPUTE=sat_za", "MSAT_COMPUTE=cos_sol_za", "MSAT_COMPUTE=jday" };
static xs::Product product(Rng& r, const std::string& dir) { xs::Product p = xs::random_product(r, dir, r.chance(0.2) ? 12 : 1 + r.below(11), 2); xs::write_product(p); return p; }
static Unit u_xrit(Rng& r, const std::string& pre) {
    auto p = product(r, pre + "x"); int bad = r.below(5); std::string name = p.shortname(), miss = name; if (bad == 0) unlink((p.dir + "/" + p.proname()).c_str()); if (bad == 1) unlink((p.dir + "/" + p.epiname()).c_str());
    return { bad > 1 ? "xrit" : "xrit, incomplete", 0, [name, p](Rng& r, std::string& out) {
        for (int i = 1 + r.below(3); i-- > 0;) { CPLErrorReset(); const char* o = OPTS[r.below(7)]; auto d = vg::open(name, o); add(out, fmt("%s %d", o ? o : "-", (int)CPLGetLastErrorType())); nap(r); look(d.get(), r, out); }
        if (r.chance(0.5)) { auto d = vg::open(p.dir + "/H-nothing.of-this:kind", nullptr); add(out, d ? "opened" : "nothing"); } } };
}
static Unit u_xlib(Rng& r, const std::string& pre) {
    auto p = product(r, pre + "l"); return { "xrit library", 0, [p](Rng& r, std::string& out) {
        try {
            msat::xrit::FileAccess fa(p.shortname()); msat::xrit::DataAccess da; MSG_data pro, epi; MSG_header hdr; da.scan(fa, pro, epi, hdr); add(out, fmt("%zux%zu %zu", da.columns, da.lines, da.seglines)); nap(r);
            for (int i = 0; i < 6; ++i) { std::vector<MSG_SAMPLE> buf(da.columns, 7); size_t l = r.below(da.lines); da.line_read(l, buf.data()); add(out, fmt("line %zu ", l) + sum(buf.data(), buf.size() * sizeof buf[0])); nap(r); }
            std::ostringstream o; o << hdr; if (r.chance(0.3)) { o << *pro.prologue; nap(r); } if (r.chance(0.3)) o << *epi.epilogue; add(out, cut(o.str()));
            auto& t = pro.prologue->image_acquisition.PlannedAquisitionTime.TrueRepeatCycleStart; struct tm* tm = t.get_timestruct(); nap(r); add(out, fmt("%d %d %d %s %s", tm->tm_year, tm->tm_yday, tm->tm_min, t.get_timestring().c_str(), t.get_timechar()));
            const float* cal = nullptr; (void)cal; for (int c = 1; c <= 12; ++c) { float* q = pro.prologue->radiometric_proc.get_calibration(c, 10); add(out, sum(q, 1024 * 4)); delete[] q; }
        } catch (std::exception& e) { add(out, std::string("error ") + e.what()); } } };
}
static Unit u_time(Rng&, const std::string&) {
    return { "times", 0, [](Rng& r, std::string& out) {
        for (int i = 0; i < 40; ++i) {
            unsigned char b[16]; for (auto& c : b) c = (unsigned char)r.below(256); b[0] = r.below(100); for (int k : { 2 }) b[k] = r.below(5); MSG_time_cds_short s(b); MSG_time_cds c(b); MSG_time_cds_expanded e(b); std::ostringstream o; o << s << c << e; const char* t = s.get_timechar(); struct tm* tm = s.get_timestruct(); nap(r);
            o << t << tm->tm_year << ' ' << tm->tm_mon << ' ' << tm->tm_mday << ' ' << tm->tm_hour << ' ' << c.get_timechar(); t = e.get_timechar(); nap(r); o << t; add(out, o.str());
            int sat = r.range(50, 60), ch = r.range(0, 13); for (const char* n : { msat::facts::spacecraftName(sat), msat::facts::sensorName(sat), msat::facts::channelName(sat, ch), msat::facts::channelUnit(sat, ch), msat::facts::channelLevel(sat, ch) }) add(out, n ? n : "-");
            add(out, fmt("%g %g %d", msat::facts::defaultPackedMissing(ch), msat::facts::cos_sol_za(1 + r.below(366), r.unit() * 24, r.real(-90, 90), r.real(-180, 180)), msat::facts::spacecraftID("MSG2")));
        } } };
}
static vg::Mem raster(Rng& r) { vg::Mem m; m.hrv = r.chance(0.2); m.w = 2 + r.below(60); m.h = 2 + r.below(60); int full = m.hrv ? 11136 : 3712; m.x0 = full / 3 + r.below(full / 4); m.y0 = full / 3 + r.below(full / 4); m.lon = r.range(-45, 45); m.sat = fmt("%d", 55 + (int)r.below(3)); m.chan = fmt("%d", m.hrv ? 12 : 1 + (int)r.below(11)); m.time = fmt("20%02d-%02d-%02d %02d:%02d:00", (int)r.range(10, 30), (int)r.range(1, 12), (int)r.range(1, 28), (int)r.below(24), (int)r.below(60)); m.v.resize(m.w * m.h); for (auto& x : m.v) x = (float)r.real(200, 320); m.nodata = 0; return m; }
static Unit u_grib(Rng& r, const std::string& pre) {
    auto m = raster(r); std::string f = pre + "g.grib"; Unit u{ "grib", 0, [m, f](Rng& r, std::string& out) {
        static const char* T[] = { "msat/wmo", "msat/ecmwf", "msat/msat" }; auto s = vg::mem(m); char** o = CSLAddString(nullptr, fmt("TEMPLATE=%s", T[r.below(3)]).c_str()); CPLErrorReset(); unlink(f.c_str()); nap(r);
        { vg::DS g(GetGDALDriverManager()->GetDriverByName("MsatGRIB")->CreateCopy(f.c_str(), s.get(), TRUE, o, nullptr, nullptr)); CSLDestroy(o); add(out, g ? "written" : CPLGetLastErrorMsg()); look(g.get(), r, out); }
        add(out, sum(read_file(f).data(), read_file(f).size())); for (int i = r.below(3); i-- > 0;) { auto g = vg::open(f, OPTS[r.below(7)]); look(g.get(), r, out); nap(r); }
        if (!damage) return; std::string t = read_file(f); t.resize(r.below(t.size())); write_file(f + ".cut", t); auto g = vg::open(f + ".cut"); add(out, g ? "opened" : "refused"); } }; u.readonly = false; return u;
}
static Unit u_derived(Rng& r, const std::string& pre) {
    auto m = raster(r); m.hrv = false; m.chan = fmt("%d", 1 + (int)r.below(3)); m.bands = 1; std::string f = pre + "d.tif"; Unit u{ "derived", 0, [m, f](Rng& r, std::string& out) {
        auto s = vg::mem(m); nap(r); 
        switch (r.below(6)) {
            case 0: { U::ReflectanceDataset d(atoi(m.chan.c_str())); d.add_source(s.get()); d.init_rasterband(); look(&d, r, out); break; }
            case 1: { std::unique_ptr<GDALDataset> d(new U::SatZADataset(s.get())); look(d.get(), r, out); break; }
            case 2: { std::unique_ptr<GDALDataset> d(new U::CosSolZADataset(s.get())); look(d.get(), r, out); break; }
            case 3: { std::unique_ptr<GDALDataset> d(new U::JDayDataset(s.get())); look(d.get(), r, out); break; }
            case 4: { D::CalibratedDataset d(*s); look(&d, r, out); break; }
            default: { D::GeoReferencer g; add(out, fmt("%d", (int)g.init(s.get()))); for (int i = 0; i < 30; ++i) { double lat = 7, lon = 7; int x = r.below(m.w), y = r.below(m.h), X = -1, Y = -1; int e = g.pixelToLatlon(x, y, lat, lon), q = g.latlonToPixel(lat, lon, X, Y); add(out, fmt("%d,%d %d %.9g %.9g %d %d,%d", x, y, e, lat, lon, q, X, Y)); } }
        }
        GDALTranslate t; t.anSrcWin[0] = t.anSrcWin[1] = 0; t.anSrcWin[2] = 1 + r.below(m.w); t.anSrcWin[3] = 1 + r.below(m.h); std::string sx = fmt("%d", (int)r.range(1, 80)), sy = fmt("%d", (int)r.range(1, 80)); if (r.chance(0.5)) { t.pszOXSize = sx.c_str(); t.pszOYSize = sy.c_str(); } CPLErrorReset(); GDALDataset* o = t.translate(s.get()); nap(r); look(o, r, out);
        if (o && r.chance(0.6)) { GDALDataset* g = D::recode(o, 1 + r.below(50), 1 + r.below(50), f, GetGDALDriverManager()->GetDriverByName("GTiff")); look(g, r, out); if (g) GDALClose(g); auto again = vg::open(f); look(again.get(), r, out); unlink(f.c_str()); } if (o && o != s.get()) GDALClose(o); } }; u.readonly = false; return u;
}
static Unit u_native(Rng& r, const std::string& pre) {
    nf::File f; nf::sections(r, f, 0.3); nf::image(r, f, 2 + r.below(4), 40 + r.below(100), 60); if (r.chance(0.2)) f.bytes.resize(r.below(f.bytes.size())); std::string n = pre + "n.nat"; write_file(n, f.bytes);
    return { "native", 0, [n](Rng& r, std::string& out) { try { std::string p = n; MSG_native m; if (!m.open(&p[0])) { add(out, "refused"); return; } nap(r); m.read(); nap(r); std::ostringstream o; if (r.chance(0.5)) o << m; for (int c = 0; c < 12; ++c) for (auto& l : m.line[c]) o << l; add(out, cut(o.str())); } catch (std::exception& e) { add(out, std::string("error ") + e.what()); } } };
}
static Unit u_hri(Rng& r, const std::string& pre) {
    hr::File f; hr::pick(r, f, false); hr::build(r, f); if (r.chance(0.2)) f.bytes.resize(r.below(f.bytes.size())); std::string n = pre + "h.hri"; write_file(n, f.bytes); bool tec = f.tec;
    return { "hri", 0, [n, tec](Rng& r, std::string& out) { try { std::unique_ptr<Hri> h(new Hri()); std::string p = n; h->readfrom(&p[0], tec); nap(r); std::ostringstream o; o << *h; add(out, cut(o.str())); add(out, h->get_format()); add(out, h->get_satellite_name()); for (int i = 0; i < h->nimages; ++i) { HRI_image& m = h->image[i]; add(out, sum(m.get_image(), m.npixels * m.nlines)); nap(r); add(out, sum(m.get_calibration(), 1024)); } } catch (std::exception& e) { add(out, std::string("error ") + e.what()); } } };
}
static Unit u_openmtp(Rng& r, const std::string& pre) {
    mt::Mtp m; do m = mt::make(r); while (m.np > 600); std::string b = m.file(); if (r.chance(0.2)) b.resize(r.below(b.size())); std::string n = pre + "o.omtp"; write_file(n, b);
    return { "openmtp", 0, [n](Rng& r, std::string& out) { try { std::unique_ptr<OpenMTP> o(new OpenMTP); std::string p = n; o->open(&p[0]); nap(r); std::ostringstream s; s << *o; add(out, cut(s.str())); add(out, o->get_satellite_name()); nap(r); struct tm& t = o->get_datetime(); nap(r); add(out, fmt("%d %d %d", t.tm_year, t.tm_yday, t.tm_hour)); for (auto g : { &OpenMTP::get_datatimestr, &OpenMTP::get_satellite_code, &OpenMTP::get_timestr }) { const char* x = (*o.*g)(); nap(r); add(out, x); } float* c = o->get_calibration(); add(out, sum(c, 1024)); } catch (std::exception& e) { add(out, std::string("error ") + e.what()); } catch (const char* e) { add(out, e); } } };
}
static Unit u_ids(Rng& r, const std::string& pre) {
    auto m = om::image(r, 1 + r.below(6), 6, 60); std::string b = om::encode(m); if (r.chance(0.2)) b.resize(r.below(b.size())); std::string n = pre + "i.ids"; write_file(n, b);
    return { "openmtp-ids", 0, [n](Rng& r, std::string& out) { try { OpenMTP_IDS o; std::ifstream in(n, std::ios::binary); in >> o; add(out, in ? "read" : "bad"); nap(r); std::ostringstream s; s << o; add(out, cut(s.str())); } catch (std::exception& e) { add(out, std::string("error ") + e.what()); } catch (...) { add(out, "error"); } } };
}
typedef Unit (*Maker)(Rng&, const std::string&);
static const Maker MAKERS[] = { u_xrit, u_xrit, u_xrit, u_grib, u_grib, u_derived, u_derived, u_xlib, u_time, u_native, u_hri, u_openmtp, u_ids };
static Unit unit(Rng& r, const std::string& pre) { Unit u = r.pick(std::vector<Maker>(std::begin(MAKERS), std::end(MAKERS)))(r, pre); u.seed = r.u64(); return u; }
static void ready() { vg::init(); static bool reg = false; if (reg) return; reg = true; GDALRegister_MEM(); GDALRegister_VRT(); GDALRegister_GTiff(); vg::Mem m; m.v.assign(64, 1); vg::mem(m); }
static void clean() { if (system("rm -rf ./w && mkdir ./w")) _exit(96); }
static std::string difference(const std::string& a, const std::string& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; size_t s = a.rfind('\n', i ? i - 1 : 0); s = s == std::string::npos ? 0 : s + 1; return fmt("'%.150s' with others, '%.150s' alone", a.substr(s, a.find('\n', i) - s).c_str(), b.substr(s, b.find('\n', i) - s).c_str()); }
static void threads(uint64_t, Rng& r) {
    damage = true; ready(); clean(); int n = r.chance(0.3) ? 2 : 2 + r.below(6); std::vector<Unit> us; std::vector<int> reps; std::string kinds; std::set<std::string> ks; bool same = r.chance(0.35);
    for (int i = 0; i < n; ++i) { if (same && i && us[0].readonly) us.push_back(us[0]); else if (r.chance(0.3) && i && us[i - 1].readonly) us.push_back(us[i - 1]); else us.push_back(unit(r, fmt("w/%d", i))); us[i].seed = r.u64(); reps.push_back(r.chance(0.5) ? 1 : 1 + r.below(3)); kinds += us[i].kind + "; "; ks.insert(us[i].kind); }
    note(kinds); std::vector<std::string> got(n), want(n); std::atomic<int> at(0); int fd0 = -1;
    auto run = [&](int i, std::string& o) { for (int k = 0; k < reps[i]; ++k) { Rng q(us[i].seed + k); us[i].work(q, o); } };
    delays = true; { std::vector<std::thread> ts; for (int i = 0; i < n; ++i) ts.emplace_back([&, i] { ++at; while (at < n) sched_yield(); run(i, got[i]); }); for (auto& t : ts) t.join(); } delays = false; fd0 = count_fds();
    for (int i = 0; i < n; ++i) { run(i, want[i]); evals(std::count(want[i].begin(), want[i].end(), '\n')); VEXPECT(got[i] == want[i], "values", "%s, %d threads (%s): %s", us[i].kind.c_str(), n, kinds.c_str(), difference(got[i], want[i]).c_str()); }
    VEXPECT(count_fds() == fd0, "descriptors", "%s: %d descriptors open, then %d", kinds.c_str(), fd0, count_fds()); for (auto& a : ks) for (auto& b : ks) if (a <= b) obs("together", a + " with " + b); obs("threads", fmt("%d %s", n, same ? "same files" : "")); for (auto& w : want) for (const char* k : { "refused", "error", "none\n" }) if (w.find(k) != std::string::npos) obs("outcome", k);
    sample(kinds);
}
// the same again and again leaves nothing behind
static void history(uint64_t idx, Rng& r) {
    damage = false; ready(); clean(); int n = 1 + r.below(3); std::vector<Unit> us; std::string kinds; for (int i = 0; i < n; ++i) { us.push_back(i == 0 ? MAKERS[idx % (sizeof MAKERS / sizeof *MAKERS)](r, "w/0") : unit(r, fmt("w/%d", i))); us[i].seed = r.u64(); kinds += us[i].kind + "; "; } note(kinds);
    std::vector<std::string> first(n), now(n); auto round = [&](std::vector<std::string>& o) { for (int i = 0; i < n; ++i) { Rng q(us[i].seed); us[i].work(q, o[i]); } };
    round(first); for (int k = 0; k < 2; ++k) { for (auto& s : now) { s.clear(); s.reserve(1 << 16); } round(now); } int fd = count_fds(); long long h = heap();
    int times = r.chance(0.1) ? 30 : 4; for (int k = 0; k < times; ++k) { for (auto& s : now) s.clear(); round(now); for (int i = 0; i < n; ++i) VEXPECT(now[i] == first[i], "repeat", "%s: time %d: %s", us[i].kind.c_str(), k, difference(now[i], first[i]).c_str()); }
    long long more = heap() - h; for (int k = 0; k < 3 && more >= 1500; ++k) { h = heap(); for (int j = 0; j < times; ++j) { for (auto& s : now) s.clear(); round(now); } more = std::min(more, heap() - h); }      // caches of GDAL and ecCodes stop growing
    VEXPECT(more < 1500, "leak", "%s%d repetitions leave %lld bytes", kinds.c_str(), times, more); VEXPECT(count_fds() == fd, "descriptors", "%s%d repetitions: %d descriptors open, then %d", kinds.c_str(), times, fd, count_fds()); evals(times * n); obs("history", kinds); obs("repetitions", fmt("%d", times));
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough;
    add_group("threads", t ? (RACES ? 4000 : 6000) : RACES ? 240 : 160, RACES ? 1 : 4, 240, threads); if (!RACES) add_group("histories", t ? 4000 : 130, 5, 240, history);
    return run_all();
}
