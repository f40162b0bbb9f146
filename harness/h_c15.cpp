// C15: derived products hold exactly the values their definition gives
#include "synth.h"
#include "vgmem.h"
#include "gproj.h"
#include <msat/facts.h>
#include <msat/hrit/MSG_HRIT.h>
#include "gdal/reflectance/reflectance.h"
#include "gdal/reflectance/sat_za.h"
#include "gdal/reflectance/cos_sol_za.h"
#include "gdal/reflectance/jday.h"
using namespace xs; using namespace vf; namespace U = msat::utils;

enum Kind { REFL, REFL39, SUN, SAT, DAY };
static const char* KN[] = { "reflectance", "reflectance of 3.9", "sun", "satellite", "day" };
// where the pixels of a raster are, and when
struct Place { double gt[6]; int w, h; bool geos; double lon; int y, mo, d, hh, mi; };
static double solar(int ch) { return ch == 1 ? 20.76 : ch == 2 ? 23.24 : ch == 3 ? 19.85 : 25.11; }
// 1: has a position, 0: off the disk, -1: too close to the limb to tell
static int where(const Place& p, int x, int y, double& lat, double& lon) {
    double X = p.gt[0] + p.gt[1] * x + p.gt[2] * y, Y = p.gt[3] + p.gt[4] * x + p.gt[5] * y; if (!p.geos) { lon = X; lat = Y; return 1; }
    double ax = X / 35785831.0, ay = Y / 35785831.0, q, s; bool seen = gp::inverse(ax, ay, lat, lon); for (double f : { 0.9999, 1.0001 }) if (gp::inverse(ax * f, ay * f, q, s) != seen) return -1; if (std::fabs(ax) > 1 || std::fabs(ay) > 1) return -1;
    gp::inverse(ax, ay, lat, lon); lon += p.lon; return seen;
}
// what the pixel must hold; v: physical values of the sources; false when this cannot be told
static bool formula(Kind k, int ch, const Place& p, int x, int y, const double* v, const bool* none, double& want, double& tol) {
    int jd = gp::doy(p.y, p.mo, p.d); double lat, lon, h = p.hh + p.mi / 60.0; tol = 0; if (k == DAY) { want = jd; return true; }
    if (k == REFL || k == REFL39) for (int i = 0; i < (k == REFL ? 1 : 3); ++i) if (none[i] || std::isnan(v[i])) { want = 0; return true; }
    int in = where(p, x, y, lat, lon); if (in < 0) return false; if (in == 0) { want = 0; return true; }
    double c = msat::facts::cos_sol_za(jd, h, lat, lon), z = msat::facts::sat_za(lat, lon - p.lon); tol = 2e-7;
    if (k == SUN) { want = std::min(1.0, std::max(0.0, c)); return true; }
    if (k == SAT) { want = z; tol = 1e-6; return !p.geos || z < M_PI / 2 - 1e-3; }
    double esd = 1 - 0.0167 * cos(2 * M_PI * (jd - 3) / 365.0), cc = std::max(c, 0.173648178);
    if (k == REFL) want = 100 * v[0] * esd * esd / solar(ch) / cc;
    else {
        if (p.geos && z > 1.565) return false;
        auto planck = [](double t) { return 1.19104e-5 * 2569.094 * 2569.094 * 2569.094 / (exp(1.43877 * 2569.094 / (0.9959 * t + 3.471)) - 1); };
        double b39 = v[0], b108 = v[1], b134 = v[2], near = b108 - (b108 - b134) / 4, fixed = pow(pow(b39, 4) + pow(b108, 4) - pow(near, 4), 0.25), tot = planck(fixed) + 0.015, ratio = pow(near / b108, 4), therm = planck(b108) * ratio, sun = 4.92 / (esd * esd) * pow(cc, 0.75) * exp(-(1 - ratio) * cc) * exp(-(1 - ratio) / cos(z));
        if (std::fabs(tot - therm) < 1e-9 || std::fabs(sun / therm - 1) < 1e-6) return false; if (tot <= therm) tot = therm + 1e-7; if (sun <= therm) sun = therm + 1e-7; want = 100 * (tot - therm) / sun;
    }
    if (std::isnan(want)) want = 0; want = std::min(100.0, std::max(0.0, want)); tol += 1.2e-5 * std::fabs(want) + 1e-6; return true;
}
struct Src { std::vector<double> v, raw; std::vector<bool> none; int w = 0; };
// everything of one derived raster, by random windows and blocks
static void judge(GDALDataset* d, Kind k, int ch, const Place& p, const std::vector<const Src*>& src, GDALDataset* like, const char* what, Rng& r, int x0, int y0, int maxw, int maxh, std::map<long, double>* seen = nullptr) {
    if (!VEXPECT(d->GetRasterXSize() == p.w && d->GetRasterYSize() == p.h && d->GetRasterCount() == 1, "size", "%s: %dx%d with %d bands, not %dx%d", what, d->GetRasterXSize(), d->GetRasterYSize(), d->GetRasterCount(), p.w, p.h)) return;
    double gt[6]; VEXPECT(d->GetGeoTransform(gt) == CE_None && !memcmp(gt, p.gt, sizeof gt), "georeference", "%s: the georeference is not the source's", what); VEXPECT(d->GetSpatialRef() && d->GetSpatialRef()->IsSame(like->GetSpatialRef()), "projection", "%s: the projection is not the source's", what);
    const char *a = d->GetMetadataItem(MD_MSAT_DATETIME, MD_DOMAIN_MSAT), *b = like->GetMetadataItem(MD_MSAT_DATETIME, MD_DOMAIN_MSAT); VEXPECT(a && b && !strcmp(a, b), "time", "%s: time %s, not %s", what, a ? a : "missing", b ? b : "missing");
    GDALRasterBand* rb = d->GetRasterBand(1); int ok; if (k == REFL || k == REFL39) { VEXPECT(rb->GetNoDataValue(&ok) == 0 && ok, "nodata", "%s: no no-data value", what); VEXPECT(rb->GetScale(&ok) == 1 && rb->GetOffset(&ok) == 0, "scale", "%s: scale %g", what, rb->GetScale(&ok)); VEXPECT(!strcmp(rb->GetUnitType(), "%"), "unit", "%s: unit '%s'", what, rb->GetUnitType()); }
    for (int pass = 0; pass < 4; ++pass) {
        int w = std::min(p.w - x0, maxw), h = std::min(p.h - y0, maxh), x = x0, y = y0; if (pass) { int n = 1 + r.below(w), m = 1 + r.below(std::min(h, 40)); x += r.below(w - n + 1); y += r.below(h - m + 1); w = n; h = m; }
        std::vector<double> o((size_t)w * h); if (!VEXPECT(rb->RasterIO(GF_Read, x, y, w, h, o.data(), w, h, GDT_Float64, 0, 0, nullptr) == CE_None, "read", "%s: window %d,%d %dx%d: %s", what, x, y, w, h, CPLGetLastErrorMsg())) return;
        long full = 0, zero = 0; for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) {
            double v[3] = { 0, 0, 0 }, want, tol; bool none[3] = { false, false, false }; size_t at = (size_t)(y - y0 + j) * (src.empty() ? 0 : src[0]->w) + (x - x0 + i); for (size_t s = 0; s < src.size(); ++s) { v[s] = src[s]->v[at]; none[s] = src[s]->none[at]; }
            double got = o[(size_t)j * w + i]; if (seen) { auto q = seen->emplace((long)(y + j) * p.w + x + i, got); if (!q.second && q.first->second != got) viol("request-form", fmt("%s: pixel %d,%d is %.9g, and %.9g when asked for in another way", what, x + i, y + j, got, q.first->second)); }
            if (!formula(k, ch, p, x + i, y + j, v, none, want, tol)) continue; bool good = std::fabs(got - want) <= tol || (k == SAT && want > 1 && got == 1); (want ? full : zero)++;
            if (!good) viol(std::string("value-") + (k == REFL ? "reflectance" : k == REFL39 ? "reflectance39" : KN[k]) + (want == 0 ? "-none" : ""), fmt("%s: pixel %d,%d is %.9g, not %.9g (sources %g %g %g%s)", what, x + i, y + j, got, want, v[0], v[1], v[2], none[0] || none[1] || none[2] ? ", not all present" : "")); }
        evals(full + zero); obs("values", fmt("%s %s %s", KN[k], full ? "some" : "no", zero ? "some empty" : "none empty"));
    }
    GDALFlushCache(d);
}
static std::string timetext(Place& p, Rng& r) { static const int D[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; p.y = 2002 + r.below(40); p.mo = 1 + r.below(12); p.d = 1 + r.below(D[p.mo - 1]); if (r.chance(0.1)) { p.y = 2004 + 4 * r.below(8); p.mo = 2; p.d = 29; } p.hh = r.below(24); p.mi = r.below(60); return fmt("%04d-%02d-%02d %02d:%02d:%02d", p.y, p.mo, p.d, p.hh, p.mi, (int)r.below(60)); }
static int serial = 0;
// rasters of any kind, combined directly
static void direct(uint64_t idx, Rng& r) {
    vg::init(); static bool reg = false; if (!reg) { reg = true; GDALAllRegister(); }
    Kind k = (Kind)(idx % 5); Place p; vg::Mem m; m.time = timetext(p, r); m.w = 1 + r.below(90); m.h = 1 + r.below(90); m.hrv = r.chance(0.3); int full = m.hrv ? 11136 : 3712; bool limb = r.chance(0.3); m.x0 = limb ? r.below(full - m.w) : full / 4 + r.below(full / 2 - m.w); m.y0 = limb ? r.below(full - m.h) : full / 4 + r.below(full / 2 - m.h);
    static const double L[] = { 0, 9.5, -3.4, 41.5, -45.3, 57, 140.7, -179.5 }; m.lon = r.pick(std::vector<double>(L, L + 8)); static const std::vector<GDALDataType> T = { GDT_Byte, GDT_UInt16, GDT_Int16, GDT_Float32, GDT_Float64 }; static const int CH[] = { 1, 2, 3, 12 };
    int ch = k == REFL39 ? 4 : CH[r.below(4)], n = k == REFL39 ? 3 : 1; bool together = n == 3 && r.chance(0.4), latlon = r.chance(0.15), rot = r.chance(0.15), tiled = r.chance(0.5); int bs = 16 << r.below(3); double deg = r.real(0.01, 0.5), lon0 = r.real(-170, 100), lat0 = r.real(-30, 80);
    std::vector<Src> src(n); std::vector<vg::DS> ds; std::vector<std::string> tmp; static const int THREE[] = { 4, 9, 11 };
    for (int i = 0; i < n; ++i) {
        vg::Mem q = m; q.type = r.pick(T); q.chan = fmt("%d", n == 3 ? THREE[i] : ch); bool fl = q.type >= GDT_Float32 && q.type <= GDT_Float64; q.has_nodata = r.chance(0.7); q.nodata = r.chance(0.6) ? 0 : r.range(1, 200); q.scale = r.chance(0.2) ? 1 : r.real(0.005, 0.3); q.offset = r.chance(0.2) ? 0 : -q.scale * r.range(1, 60);
        double lo = 0, hi = q.type == GDT_Byte ? 255 : 1023; if (n == 3) { double top = 330; lo = 180; if (!fl) { q.scale = (top - lo) / hi; q.offset = lo; lo = 0; } else { q.scale = r.chance(0.6) ? 1 : 0.5; q.offset = r.chance(0.6) ? 0 : -7; hi = top; } if (fl) { lo = (lo - q.offset) / q.scale; hi = (hi - q.offset) / q.scale; } }
        if (tiled && q.scale == 1 && q.offset == 0) q.offset = -5;      // GeoTIFF would store none
        src[i].w = m.w; for (int j = 0; j < m.w * m.h; ++j) { double v = fl ? r.real(lo, hi) : r.range((int)lo, (int)hi); if (q.has_nodata && r.chance(0.1)) v = q.nodata; if (fl && r.chance(0.02)) v = NAN; if (q.type == GDT_Float32) v = (float)v; if (r.chance(0.02)) v = 0; q.v.push_back(v); src[i].raw.push_back(v); src[i].none.push_back(q.has_nodata && v == q.nodata); src[i].v.push_back(v * q.scale + q.offset); }
        vg::DS d = vg::mem(q); double gt[6]; d->GetGeoTransform(gt); if (latlon) { double g[6] = { lon0, deg, 0, lat0, 0, -deg }; memcpy(gt, g, sizeof gt); OGRSpatialReference s; s.SetWellKnownGeogCS("WGS84"); s.SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER); d->SetSpatialRef(&s); } if (rot) { gt[2] = gt[1] * 0.3; gt[4] = gt[5] * -0.2; } d->SetGeoTransform(gt); memcpy(p.gt, gt, sizeof gt);
        if (tiled) { std::string f = fmt("t%d.tif", serial++); tmp.push_back(f); char** o = CSLSetNameValue(nullptr, "TILED", "YES"); o = CSLSetNameValue(o, "BLOCKXSIZE", fmt("%d", bs).c_str()); o = CSLSetNameValue(o, "BLOCKYSIZE", fmt("%d", bs).c_str()); { vg::DS t(GetGDALDriverManager()->GetDriverByName("GTiff")->CreateCopy(f.c_str(), d.get(), FALSE, o, nullptr, nullptr)); if (!VEXPECT(t != nullptr, "harness", "GTiff: %s", CPLGetLastErrorMsg())) return; } CSLDestroy(o); d = vg::open(f); d->GetGeoTransform(p.gt); }
        ds.push_back(std::move(d));
    }
    p.w = m.w; p.h = m.h; p.geos = !latlon; p.lon = latlon ? 0 : m.lon;
    std::vector<const Src*> sp; if (k == REFL || k == REFL39) for (auto& s : src) sp.push_back(&s); std::string what = fmt("%s of channel %d, %dx%d at %d,%d%s%s%s%s, %s", KN[k], ch, m.w, m.h, m.x0, m.y0, m.hrv ? " of the HRV grid" : "", latlon ? " in degrees" : "", rot ? " rotated" : "", tiled ? fmt(" in blocks of %d", bs).c_str() : "", m.time.c_str()); note(what);
    vg::DS all; if (together) { vg::Mem q = m; q.type = GDT_Float64; q.bands = 3; q.chan = "1"; all = vg::mem(q); all->SetGeoTransform(p.gt); all->SetSpatialRef(ds[0]->GetSpatialRef()); int order[3] = { 0, 1, 2 }; for (int i = 2; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
        for (int i = 0; i < 3; ++i) { int s = order[i]; GDALRasterBand *b = all->GetRasterBand(i + 1), *f = ds[s]->GetRasterBand(1); int ok, has; b->SetMetadataItem(MD_MSAT_CHANNEL_ID, fmt("%d", THREE[s]).c_str(), MD_DOMAIN_MSAT); b->SetScale(f->GetScale(&ok)); b->SetOffset(f->GetOffset(&ok)); double nd = f->GetNoDataValue(&has); if (has) b->SetNoDataValue(nd); else b->DeleteNoDataValue(); if (b->RasterIO(GF_Write, 0, 0, m.w, m.h, src[s].raw.data(), m.w, m.h, GDT_Float64, 0, 0, nullptr) != CE_None) return; } }
    std::map<long, double> seen; for (int round = 0; round < 2; ++round) {
        vg::DS d; try { switch (k) { case REFL: case REFL39: { std::unique_ptr<U::ReflectanceDataset> q(new U::ReflectanceDataset(ch)); if (together) q->add_source(all.get(), false); else { std::vector<int> o; for (int i = 0; i < n; ++i) o.insert(o.begin() + r.below(o.size() + 1), i); for (int i : o) q->add_source(ds[i].get(), false); } q->init_rasterband(); d.reset(q.release()); break; }
            case SUN: d.reset(new U::CosSolZADataset(ds[0].get())); break; case SAT: d.reset(new U::SatZADataset(ds[0].get())); break; case DAY: d.reset(new U::JDayDataset(ds[0].get())); break; } } catch (std::exception& e) { viol("refused", fmt("%s: %s", what.c_str(), e.what())); return; }
        judge(d.get(), k, ch, p, sp, ds[0].get(), what.c_str(), r, 0, 0, m.w, m.h, &seen);
    }
    obs("direct", fmt("%s ch%d %s%s%s%s type %d", KN[k], ch, latlon ? "degrees " : "", rot ? "rotated " : "", tiled ? "tiles " : "", together ? "one file" : "", (int)ds[0]->GetRasterBand(1)->GetRasterDataType())); if (idx < 5) sample(what); ds.clear(); for (auto& f : tmp) { unlink(f.c_str()); unlink((f + ".aux.xml").c_str()); }
}
// products as files, by every way of asking
static void fill(Src& s, GDALDataset* d, int x0, int y0, int w, int h) { GDALRasterBand* b = d->GetRasterBand(1); int ok, has; double sc = b->GetScale(&ok), of = b->GetOffset(&ok), nd = b->GetNoDataValue(&has); s.w = w; s.raw.resize((size_t)w * h); if (b->RasterIO(GF_Read, x0, y0, w, h, s.raw.data(), w, h, GDT_Float64, 0, 0, nullptr) != CE_None) viol("read", fmt("source: %s", CPLGetLastErrorMsg())); for (double v : s.raw) { s.none.push_back(has && v == nd); s.v.push_back(v * sc + of); } }
static void products(uint64_t idx, Rng& r) {
    vg::init(); int which = idx % 4; static const int CH[] = { 1, 2, 3, 12 }; int ch = which == 0 ? 4 : which == 1 ? 1 + (int)r.below(12) : CH[r.below(4)]; Product p = random_product(r, "prod", ch, 1); p.seglines = p.hrv() ? 29 : 16; p.nsegs = p.full() / p.seglines; p.step_vis = 3.00040307617188f; p.step_hrv = 1.00013434887f; for (int k = 1; k < 4; ++k) if (p.hrv()) { p.lower[3] = p.lower[2] + 5567; p.upper[3] = p.upper[2] + 5567; }
    p.d = 1 + r.below(28); p.mi = r.below(60); p.extra_ms = r.below(59999); p.timing = fmt("%04d%02d%02d%02d%02d", p.y, p.mo, p.d, p.hh, p.mi); p.present.clear(); int seg = 1 + r.below(p.nsegs); if (seg > 3 && seg < p.nsegs - 3) for (int k = 0; k < 3; ++k) p.present.insert(seg + k); else p.present.insert(seg); write_product(p);
    std::vector<Product> all = { p }; if (ch == 4) for (int c : { 9, 11 }) { Product q = p; q.channel = c; q.pid2 = CHANS[c - 1].name; q.seed = r.u64(); write_product(q); all.push_back(q); }
    Place pl; pl.y = p.y; pl.mo = p.mo; pl.d = p.d; pl.hh = p.hh; pl.mi = p.mi; pl.geos = true; pl.lon = p.lon; pl.w = pl.h = p.full();
    int y1 = p.full() - (*p.present.begin() - 1) * p.seglines, y0 = std::max(0, y1 - (int)p.present.size() * p.seglines - 6), h = std::min(p.full(), y1 + 6) - y0, w = 200 + r.below(800), x0 = r.below(p.full() - w); if (p.hrv()) x0 = std::min(p.full() - w, std::max(0, (int)(p.full() - p.lower[2] - 5568 + r.below(6000)))); w = std::min(w, p.full() - x0);
    std::vector<vg::DS> plain; std::vector<Src> src(all.size()); for (size_t i = 0; i < all.size(); ++i) { plain.push_back(vg::open(all[i].shortname())); if (!VEXPECT(plain[i] != nullptr, "open", "%s: %s", all[i].shortname().c_str(), CPLGetLastErrorMsg())) { for (auto& q : all) remove_product(q); return; } fill(src[i], plain[i].get(), x0, y0, w, h); }
    plain[0]->GetGeoTransform(pl.gt); std::string n = p.shortname(); note(n);
    auto ask = [&](const std::string& name, const char* opt, Kind k, std::map<long, double>* seen) { vg::DS d = vg::open(name, opt); std::string what = name + (opt ? std::string(" ") + opt : ""); if (!VEXPECT(d != nullptr, "open", "%s: %s", what.c_str(), CPLGetLastErrorMsg())) return; std::vector<const Src*> sp; if (k <= REFL39) for (auto& s : src) sp.push_back(&s); judge(d.get(), k, ch, pl, sp, plain[0].get(), what.c_str(), r, x0, y0, w, h, seen); obs("asked", fmt("%s %s channel %d", KN[k], opt ? "option" : "suffix", ch)); };
    std::string suf = n; suf.insert(suf.rfind(':'), "r"); std::string sa = n; sa.insert(sa.rfind(':'), "a"); std::string seg0 = p.segpath(*p.present.begin());
    auto made = [&](Kind k, std::map<long, double>* seen) { vg::DS d; try { if (k == SUN) d.reset(new U::CosSolZADataset(plain[0].get())); else { std::unique_ptr<U::ReflectanceDataset> q(new U::ReflectanceDataset(ch)); for (auto& s : plain) q->add_source(s.get(), false); q->init_rasterband(); d.reset(q.release()); } } catch (std::exception& e) { viol("refused", fmt("%s: %s", n.c_str(), e.what())); return; } std::vector<const Src*> sp; if (k <= REFL39) for (auto& s : src) sp.push_back(&s); judge(d.get(), k, ch, pl, sp, plain[0].get(), (n + " directly").c_str(), r, x0, y0, w, h, seen); };
    if (which == 0) { std::map<long, double> s; ask(suf, nullptr, REFL39, &s); made(REFL39, &s); ask(suf, nullptr, REFL39, &s); }
    else if (which == 1) { std::map<long, double> s, t; ask(sa, nullptr, SUN, &s); ask(n, "MSAT_COMPUTE=cos_sol_za", SUN, &s); made(SUN, &s); ask(seg0, "MSAT_COMPUTE=cos_sol_za", SUN, &s); ask(n, "MSAT_COMPUTE=sat_za", SAT, &t); ask(seg0, "MSAT_COMPUTE=sat_za", SAT, &t); ask(n, "MSAT_COMPUTE=jday", DAY, nullptr); }
    else { std::map<long, double> s; ask(suf, nullptr, REFL, &s); ask(n, "MSAT_COMPUTE=reflectance", REFL, &s); made(REFL, &s); ask(seg0, "MSAT_COMPUTE=reflectance", REFL, &s); }
    if (idx < 4) sample(fmt("%s: window %d,%d %dx%d", n.c_str(), x0, y0, w, h)); plain.clear(); for (auto& q : all) { for (int s : q.present) unlink(q.segpath(s).c_str()); } remove_product(p);
}
// GRIB files have the same products
static void gribs(uint64_t idx, Rng& r) {
    vg::init(); Place p; vg::Mem m; m.time = timetext(p, r); m.w = 2 + r.below(60); m.h = 2 + r.below(60); m.hrv = r.chance(0.3); int full = m.hrv ? 11136 : 3712; m.x0 = r.below(full - m.w); m.y0 = r.below(full - m.h); if (r.chance(0.7)) { m.x0 = full / 4 + r.below(full / 2 - m.w); m.y0 = full / 4 + r.below(full / 2 - m.h); }
    m.sat = "57"; int ch = m.hrv ? 12 : 1 + (int)r.below(3); m.chan = fmt("%d", ch); m.type = GDT_Float32; for (int i = 0; i < m.w * m.h; ++i) m.v.push_back(r.chance(0.1) ? 0 : r.real(0.5, 20)); vg::DS d = vg::mem(m); std::string f = fmt("g%d.grb", serial++);
    { vg::DS g(GetGDALDriverManager()->GetDriverByName("MsatGRIB")->CreateCopy(f.c_str(), d.get(), TRUE, nullptr, nullptr, nullptr)); if (!VEXPECT(g != nullptr, "harness", "GRIB: %s", CPLGetLastErrorMsg())) return; }
    vg::DS plain = vg::open(f); if (!VEXPECT(plain != nullptr, "open", "%s: %s", f.c_str(), CPLGetLastErrorMsg())) return; Src s; fill(s, plain.get(), 0, 0, m.w, m.h); plain->GetGeoTransform(p.gt); p.w = m.w; p.h = m.h; p.geos = true; p.lon = 0; note(fmt("GRIB %dx%d at %d,%d channel %d %s", m.w, m.h, m.x0, m.y0, ch, m.time.c_str()));
    const char* O[] = { "reflectance", "cos_sol_za", "sat_za", "jday" }; Kind K[] = { REFL, SUN, SAT, DAY }; for (int i = 0; i < 4; ++i) { std::string o = std::string("MSAT_COMPUTE=") + O[i]; vg::DS q = vg::open(f, o.c_str()); if (!VEXPECT(q != nullptr, "open", "GRIB %s: %s", o.c_str(), CPLGetLastErrorMsg())) continue; std::vector<const Src*> sp; if (!i) sp.push_back(&s); judge(q.get(), K[i], ch, p, sp, plain.get(), ("GRIB " + o).c_str(), r, 0, 0, m.w, m.h); obs("grib", fmt("%s channel %d", O[i], ch)); }
    if (idx < 2) sample("GRIB file"); plain.reset(); unlink(f.c_str());
}
// the same formula as a library function
static void function(uint64_t, Rng& r) {
    for (int k = 0; k < 500; ++k) { Place p; timetext(p, r); int ch = 1 + r.below(12); float rad = r.chance(0.1) ? 0 : r.real(0, 40), lat = r.real(-90, 90), lon = r.real(-180, 180), got = 0; bool known = ch <= 3 || ch == 12, threw = false; try { got = radiance_to_reflectance(ch, rad, p.y, p.mo, p.d, p.hh, p.mi, lat, lon); } catch (std::exception&) { threw = true; }
        VEXPECT(threw == !known, "function-channels", "channel %d %s", ch, threw ? "is refused" : "has a reflectance"); if (!threw && known) { int jd = gp::doy(p.y, p.mo, p.d); double esd = 1 - 0.0167 * cos(2 * M_PI * (jd - 3) / 365.0), c = std::max(0.173648178, msat::facts::cos_sol_za(jd, p.hh + p.mi / 60.0, lat, lon)), want = 100 * rad * esd * esd / solar(ch) / c; VEXPECT(close_rel(got, want, 2e-6, 1e-9), "function-value", "channel %d radiance %g on day %d: %.9g, not %.9g", ch, rad, jd, got, want); } obs("function", fmt("channel %d", ch)); }
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough;
    add_group("direct", t ? 12000 : 900, 25, 60, direct); add_group("products", t ? 900 : 64, 4, 90, products); add_group("function", t ? 200 : 10, 5, 30, function); add_group("gribs", t ? 3000 : 200, 10, 60, gribs);
    return run_all();
}
