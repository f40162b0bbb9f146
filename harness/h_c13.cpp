// C13: an image written as GRIB and read back is the same image
#include "synth.h"
#include "vgmem.h"
#include "gproj.h"
#include <eccodes.h>
#include <msat/facts.h>
using namespace xs; using namespace vf;
static const char* TPL[3] = { "msat/wmo", "msat/ecmwf", "msat/msat" };
static const int SEV[4] = { 55, 56, 57, 70 };
static const char* SATN[4] = { "MSG1", "MSG2", "MSG3", "MSG4" };
static const char* CHN[13] = { "", "VIS006", "VIS008", "IR_016", "IR_039", "WV_062", "WV_073", "IR_087", "IR_097", "IR_108", "IR_120", "IR_134", "HRV" };
static vg::DS encode(const char* file, GDALDataset* src, const char* tpl) {
    char** o = tpl ? CSLAddString(nullptr, fmt("TEMPLATE=%s", tpl).c_str()) : nullptr; CPLErrorReset();
    vg::DS g(GetGDALDriverManager()->GetDriverByName("MsatGRIB")->CreateCopy(file, src, TRUE, o, nullptr, nullptr)); CSLDestroy(o); return g;
}
// what the packing of a file declares, read without the code under test
struct Packing { double step = 0, ref = 0; long edition = 0, bitmap = 0; bool ok = false; double err() const { return step / 2 + std::fabs(ref) * (edition == 1 ? 1e-6 : 1.3e-7) + 1e-40; } };
static Packing packing(const char* file) {
    Packing p; FILE* f = fopen(file, "rb"); if (!f) return p; int e; codes_handle* h = codes_handle_new_from_file(nullptr, f, PRODUCT_GRIB, &e); if (h) { long b = 0, d = 0; p.ok = !codes_get_long(h, "binaryScaleFactor", &b) && !codes_get_long(h, "decimalScaleFactor", &d) && !codes_get_long(h, "editionNumber", &p.edition) && !codes_get_double(h, "referenceValue", &p.ref) && !codes_get_long(h, "bitmapPresent", &p.bitmap); p.step = exp2(b) * pow(10, -d); p.ref *= pow(10, -d); long bpv = 1; codes_get_long(h, "bitsPerValue", &bpv); if (bpv == 0) p.step = 0; codes_handle_delete(h); } fclose(f); return p;
}
static std::vector<double> all(GDALDataset* d) { std::vector<double> v((size_t)d->GetRasterXSize() * d->GetRasterYSize()); if (d->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, d->GetRasterXSize(), d->GetRasterYSize(), v.data(), d->GetRasterXSize(), d->GetRasterYSize(), GDT_Float64, 0, 0, nullptr) != CE_None) v.clear(); return v; }
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static std::string md(GDALMajorObject* o, const char* k) { const char* s = o->GetMetadataItem(k, MD_DOMAIN_MSAT); return s ? s : "(none)"; }

// phys: physical values, NaN where the source has none
static void compare(const char* file, GDALDataset* g, const vg::Mem& m, const std::vector<double>& phys, int sat, int ch, const char* what, double extra, Rng& r) {
    Packing p = packing(file); if (!VEXPECT(p.ok, "packing", "%s: no simple packing", what)) return; const bool g1 = p.edition == 1;
    if (!VEXPECT(g->GetRasterXSize() == m.w && g->GetRasterYSize() == m.h && g->GetRasterCount() == 1, "size", "%s: %dx%d %d bands, not %dx%d", what, g->GetRasterXSize(), g->GetRasterYSize(), g->GetRasterCount(), m.w, m.h)) return;
    double ps = m.hrv ? vg::PSH : vg::PS, half = m.hrv ? 5568 : 1856, gt[6] = {}; CPLErr e = g->GetGeoTransform(gt);
    VEXPECT(e == CE_None && close_rel(gt[1], ps, 1e-9) && close_rel(gt[5], -ps, 1e-9) && gt[2] == 0 && gt[4] == 0 && std::fabs(gt[0] - (m.x0 - half) * ps) < 1e-3 && std::fabs(gt[3] - (half - m.y0) * ps) < 1e-3, "georeference", "%s%s at %d,%d: %.4f %.6f %g %.4f %g %.6f, not %.4f %.6f", what, m.hrv ? " HRV" : "", m.x0, m.y0, gt[0], gt[1], gt[2], gt[3], gt[4], gt[5], (m.x0 - half) * ps, (half - m.y0) * ps);
    const OGRSpatialReference* sr = g->GetSpatialRef(); double cm = sr ? sr->GetProjParm(SRS_PP_CENTRAL_MERIDIAN, 999) : 999; VEXPECT(std::fabs(remainder(cm - m.lon, 360)) < (g1 ? 6e-4 : 1e-6), "meridian", "%s: satellite at %.7f, not %.7f", what, cm, m.lon);
    VEXPECT(sr && sr->GetProjParm(SRS_PP_SATELLITE_HEIGHT) == 35785831 && std::fabs(sr->GetSemiMajor() - 6378169) < 1 && std::fabs(sr->GetSemiMinor() - 6356583.8) < 1, "projection", "%s", what);
    std::string t = m.time; if (g1) t.replace(17, 2, "00"); VEXPECT(md(g, MD_MSAT_DATETIME) == t, "time", "%s: %s, not %s", what, md(g, MD_MSAT_DATETIME).c_str(), t.c_str());
    GDALRasterBand* b = g->GetRasterBand(1); VEXPECT(md(g, MD_MSAT_SPACECRAFT_ID) == fmt("%d", SEV[sat]) && md(g, MD_MSAT_SPACECRAFT) == SATN[sat], "spacecraft", "%s: %s %s, not %d", what, md(g, MD_MSAT_SPACECRAFT_ID).c_str(), md(g, MD_MSAT_SPACECRAFT).c_str(), SEV[sat]);
    VEXPECT(md(b, MD_MSAT_CHANNEL_ID) == fmt("%d", ch) && md(b, MD_MSAT_CHANNEL) == CHN[ch] && !strcmp(b->GetDescription(), CHN[ch]), "channel", "%s: %s %s, not %d", what, md(b, MD_MSAT_CHANNEL_ID).c_str(), md(b, MD_MSAT_CHANNEL).c_str(), ch);
    const char* unit = ch <= 3 || ch == 12 ? "mW m^-2 sr^-1 (cm^-1)^-1" : "K"; VEXPECT(!strcmp(b->GetUnitType(), unit), "unit", "%s channel %d: %s", what, ch, b->GetUnitType());
    int hs = 0, ho = 0, hn = 0; double sc = b->GetScale(&hs), of = b->GetOffset(&ho), nd = b->GetNoDataValue(&hn); VEXPECT(sc == 1 && of == 0 && hn, "scale", "%s: scale %g offset %g", what, sc, of);
    std::vector<double> v = all(g); if (!VEXPECT(v.size() == phys.size(), "values", "%s: %s", what, CPLGetLastErrorMsg())) return; double lo = 1e300, hi = -1e300; for (double x : phys) if (!std::isnan(x)) { lo = std::min(lo, x); hi = std::max(hi, x); }
    VEXPECT(p.step <= (hi - lo) / 4000 || hi == lo, "precision", "%s: steps of %g for values %g to %g", what, p.step, lo, hi);
    double tol = p.err() * 1.001 + extra; size_t miss = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        if (std::isnan(phys[i])) { ++miss; if (!VEXPECT(same(v[i], nd), "missing-lost", "%s: pixel %zu has no value, reads as %.12g (no-data is %g)", what, i, v[i], nd)) return; }
        else if (!VEXPECT(std::fabs(v[i] - phys[i]) <= tol, "value", "%s: pixel %zu of %zu is %.12g, not %.12g (packing allows %.3g; %ld, bitmap %ld)", what, i, v.size(), v[i], phys[i], tol, p.edition, p.bitmap) || !VEXPECT(!same(v[i], nd), "data-lost", "%s: pixel %zu, %.12g, reads as no-data", what, i, phys[i])) return;
    }
    evals(v.size()); obs("content", fmt("%s%s missing %s step %s", what, m.hrv ? " HRV" : "", !miss ? "none" : miss < v.size() / 2 ? "some" : "most", p.step == 0 ? "constant" : fmt("2^%d", (int)std::lround(log2(p.step))).c_str()));
    // any window is what the whole image holds
    for (int k = 0; k < 8; ++k) {
        int w = 1 + r.below(m.w), h = 1 + r.below(m.h), x = r.below(m.w - w + 1), y = r.below(m.h - h + 1); if (k == 0) { w = h = 1; x = r.below(m.w); y = r.below(m.h); } if (k == 1) { w = m.w; h = 1; x = 0; y = m.h - 1; }
        if (r.chance(0.3)) b->FlushCache(false); bool fl = r.chance(0.3); bool ok = true; size_t bad = 0;
        if (fl) { std::vector<float> q((size_t)w * h, 7e9f); ok = b->RasterIO(GF_Read, x, y, w, h, q.data(), w, h, GDT_Float32, 0, 0, nullptr) == CE_None; for (int j = 0; ok && j < h; ++j) for (int i = 0; i < w; ++i) if (!same(q[(size_t)j * w + i], (float)v[(size_t)(y + j) * m.w + x + i])) { ok = false; bad = (size_t)j * w + i; break; } }
        else { std::vector<double> q((size_t)w * h, 7e9); ok = b->RasterIO(GF_Read, x, y, w, h, q.data(), w, h, GDT_Float64, 0, 0, nullptr) == CE_None; for (int j = 0; ok && j < h; ++j) for (int i = 0; i < w; ++i) if (!same(q[(size_t)j * w + i], v[(size_t)(y + j) * m.w + x + i])) { ok = false; bad = (size_t)j * w + i; break; } }
        VEXPECT(ok, "window", "%s: window %d,%d %dx%d differs from the whole image (at %zu)", what, x, y, w, h, bad);
    }
}
static double anylon(Rng& r, bool g1) { static const std::vector<double> L = { 0, 9.5, -3.4, 3.5, 41.5, -45.3, 57, 140.7, -135, 179.9, -179.9, 180, 0.1 }; return r.chance(0.5) ? r.pick(L) : std::round(r.real(-180, 180) * (g1 ? 1000 : 100000)) / (g1 ? 1000 : 100000); }
static std::string anytime(Rng& r) { static const int L[12] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; static const std::vector<int> Y = { 1999, 2000, 2001, 2004, 2010, 2016, 2024, 2099, 2100, 2101 }; int y = r.chance(0.4) ? r.pick(Y) : 1999 + r.below(120), mo = r.below(12), d = 1 + r.below(L[mo]); if (r.chance(0.1)) d = L[mo]; if (mo == 1 && y % 4 == 0 && (y % 100 || y % 400 == 0) && r.chance(0.3)) d = 29; int s = r.chance(0.7) ? 0 : r.below(60); return fmt("%04d-%02d-%02d %02d:%02d:%02d", y, mo + 1, d, (int)r.below(24), (int)r.below(60), s); }
// fills m.v with values; phys gets what they mean
static std::string content(vg::Mem& m, std::vector<double>& phys, int ch, Rng& r) {
    int n = m.w * m.h; m.v.resize(n); phys.resize(n); static const char* K[10] = { "counts", "temperature", "wide", "tiny", "constant", "constant+missing", "two", "small integers", "nan nodata", "centred" }; int k = r.below(10); double scale = 1, off = 0; bool miss = r.chance(0.6); double rate = r.chance(0.5) ? 0.05 : r.chance(0.5) ? 0.5 : 0.95; m.nodata = 0;
    switch (k) {
        case 0: m.type = GDT_UInt16; scale = r.real(0.001, 0.1); off = -51 * scale; if (r.chance(0.2)) off = 0; for (auto& x : m.v) x = 1 + r.below(1023); break;
        case 1: m.type = GDT_Float32; for (auto& x : m.v) x = (float)r.real(150, 340); break;
        case 2: { double a = exp(r.chance(0.2) ? r.real(20, 85) : r.real(3, 20)); for (auto& x : m.v) x = r.real(-a, a); m.nodata = r.chance(0.5) ? a * 2 : -a * 3; break; }
        case 3: { double a = exp(r.real(-12, 0)), c = r.real(-1, 1); for (auto& x : m.v) x = c + r.real(0, a); m.nodata = -9999; break; }
        case 4: miss = false; { double c = r.chance(0.4) ? 0 : r.real(-300, 300); if (r.chance(0.5)) c = (float)c; m.nodata = -9999; for (auto& x : m.v) x = c; break; }
        case 5: miss = n > 1; { double c = r.chance(0.3) ? 0 : r.real(-300, 300); m.nodata = r.chance(0.5) ? 9999 : -1e10; for (auto& x : m.v) x = c; break; }
        case 6: { double a = r.real(-50, 50), c = r.real(-50, 50); m.nodata = 1e20; for (auto& x : m.v) x = r.chance(0.5) ? a : c; break; }
        case 7: m.type = r.chance(0.5) ? GDT_Int16 : GDT_Float32; m.nodata = r.chance(0.5) ? -32768 : -999; for (auto& x : m.v) x = (int)r.below(21) - 10; if (r.chance(0.3)) { scale = 0.5; off = r.range(-3, 3); } break;
        case 8: m.type = r.chance(0.5) ? GDT_Float32 : GDT_Float64; m.nodata = NAN; for (auto& x : m.v) x = (float)r.real(-20, 300); if (r.chance(0.3)) scale = 2; break;
        default: m.type = GDT_Float64; m.nodata = r.chance(0.5) ? msat::facts::defaultScaledMissing(ch) : 77777; for (auto& x : m.v) x = r.real(-3, 3) + (m.nodata == 0 ? 4 : 0); if (m.nodata < 0) for (auto& x : m.v) if (x < 0) x = -x; break;
    }
    m.scale = scale; m.offset = off; m.has_nodata = miss || r.chance(0.5); if (miss) { size_t cnt = 0; for (auto& x : m.v) if (r.chance(rate)) { x = m.nodata; ++cnt; } if (cnt == (size_t)n) m.v[r.below(n)] = k == 7 ? 5 : 1; }
    for (int i = 0; i < n; ++i) phys[i] = m.has_nodata && same(m.v[i], m.nodata) ? NAN : m.v[i] * scale + off; return K[k];
}
static void crop(vg::Mem& m, Rng& r) {
    m.hrv = r.chance(0.3); int full = m.hrv ? 11136 : 3712; int mx = r.chance(0.1) ? 400 : r.chance(0.3) ? 10 : 70; m.w = 1 + r.below(mx); m.h = 1 + r.below(mx); if (r.chance(0.05)) { m.w = full; m.h = 1 + r.below(3); } if (r.chance(0.05)) { m.h = full; m.w = 1 + r.below(3); }
    m.x0 = r.below(full - m.w + 1); m.y0 = r.below(full - m.h + 1); if (r.chance(0.1)) m.x0 = r.chance(0.5) ? 0 : full - m.w; if (r.chance(0.1)) m.y0 = r.chance(0.5) ? 0 : full - m.h; if (r.chance(0.1)) { m.x0 = std::min(full / 2, full - m.w); m.y0 = std::min(full / 2, full - m.h); }
}
static void roundtrip(uint64_t idx, Rng& r) {
    vg::init(); int ti = idx % 3; vg::Mem m; crop(m, r); int sat = (idx / 3) % 4, ch = m.hrv ? 12 : 1 + (int)r.below(11); m.sat = fmt("%d", SEV[sat]); m.chan = fmt("%d", ch); m.lon = anylon(r, ti > 0); m.time = anytime(r); std::vector<double> phys; std::string kind = content(m, phys, ch, r);
    std::string what = fmt("%s %s", TPL[ti], kind.c_str()); note(fmt("%s %dx%d at %d,%d lon %g %s sat %s channel %d nodata %g", what.c_str(), m.w, m.h, m.x0, m.y0, m.lon, m.time.c_str(), m.sat.c_str(), ch, m.nodata));
    vg::DS s = vg::mem(m); if (!s) { viol("harness", "no source"); return; } unlink("x.grib"); vg::DS g = encode("x.grib", s.get(), ti == 0 && r.chance(0.5) ? nullptr : TPL[ti]); if (!VEXPECT(g != nullptr, "refused", "%s: %s", what.c_str(), CPLGetLastErrorMsg())) return;
    double rnd = 0; for (double x : phys) if (!std::isnan(x)) rnd = std::max(rnd, std::fabs(x) * 1e-14); compare("x.grib", g.get(), m, phys, sat, ch, what.c_str(), rnd, r);
    VEXPECT(!strcmp(g->GetDriver()->GetDescription(), "MsatGRIB"), "driver", "reopened by %s", g->GetDriver()->GetDescription());
    // the source is as it was
    std::vector<double> sv = all(s.get()); bool keep = sv.size() == m.v.size(); for (size_t i = 0; keep && i < sv.size(); ++i) keep = same(sv[i], m.type == GDT_Float32 ? (float)m.v[i] : m.v[i]); VEXPECT(keep, "source-changed", "%s", what.c_str());
    // and once more, from the GRIB file, in another template
    std::vector<double> first = all(g.get()); double nd = g->GetRasterBand(1)->GetNoDataValue(); Packing p1 = packing("x.grib"); int tj = r.below(3); vg::DS g2 = encode("y.grib", g.get(), TPL[tj]); g.reset(); s.reset(); if (!VEXPECT(g2 != nullptr, "refused-again", "%s to %s: %s", what.c_str(), TPL[tj], CPLGetLastErrorMsg())) return; for (auto& x : first) if (same(x, nd)) x = NAN; if (p1.edition == 1) m.time.replace(17, 2, "00"); compare("y.grib", g2.get(), m, first, sat, ch, fmt("%s from %s", TPL[tj], TPL[ti]).c_str(), rnd, r);
    g2.reset(); unlink("x.grib"); unlink("y.grib");
}
// whole images
static void whole(uint64_t idx, Rng& r) {
    vg::init(); int ch = 1 + idx % 11; Product p = random_product(r, "prod", ch, 1); p.step_vis = 3.00040307617188f; p.lon = std::round(p.lon * 10) / 10; write_product(p); vg::DS d = vg::open(p.shortname()); if (!VEXPECT(d != nullptr, "open", "%s", CPLGetLastErrorMsg())) return; int n = d->GetRasterXSize();
    std::vector<double> v = all(d.get()); GDALRasterBand* b = d->GetRasterBand(1); double nd = b->GetNoDataValue(), sc = b->GetScale(), of = b->GetOffset(); size_t some = 0; for (auto& x : v) { if (x == nd) x = NAN; else { x = x * sc + of; ++some; } } const char* tpl = TPL[r.below(3)]; CPLErrorReset(); vg::DS g = encode("x.grib", d.get(), tpl);
    if (!some) { VEXPECT(!g && CPLGetLastErrorType() == CE_Failure, "all-missing", "an image without values is written"); obs("whole", "no values"); }
    else if (VEXPECT(g != nullptr, "refused", "%s: %s", tpl, CPLGetLastErrorMsg())) { vg::Mem m; m.w = m.h = n; m.hrv = p.hrv(); m.lon = p.lon; m.time = md(d.get(), MD_MSAT_DATETIME); int sat = 0; for (int i = 0; i < 4; ++i) if (md(d.get(), MD_MSAT_SPACECRAFT_ID) == fmt("%d", SEV[i])) sat = i; compare("x.grib", g.get(), m, v, sat, ch, fmt("%s whole", tpl).c_str(), 1e-9, r); obs("whole", fmt("%s %dx%d", tpl, n, n)); }
    d.reset(); g.reset(); unlink("x.grib"); remove_product(p);
}
// what GRIB cannot hold is refused, and says so
static void refused(uint64_t idx, Rng& r) {
    vg::init(); GDALDriver* drv = GetGDALDriverManager()->GetDriverByName("MsatGRIB"); vg::Mem m; crop(m, r); m.w = std::min(m.w, 50); m.h = std::min(m.h, 50); int full = m.hrv ? 11136 : 3712; m.x0 = std::min(m.x0, full - m.w); m.y0 = std::min(m.y0, full - m.h); m.sat = "57"; m.chan = m.hrv ? "12" : "9"; for (int i = 0; i < m.w * m.h; ++i) m.v.push_back(1 + i % 1000); int k = idx % 10; const char* tpl = TPL[(idx / 10) % 3]; if (k == 9) { m.v[r.below(m.v.size())] = r.chance(0.5) ? 1e60 : r.chance(0.5) ? (double)INFINITY : -4e38; } if (k == 0) for (auto& x : m.v) x = m.nodata; if (k == 8) m.time = "yesterday";
    vg::DS s = vg::mem(m); double gt[6]; s->GetGeoTransform(gt); static const char* W[10] = { "all missing", "unknown template", "rotated", "other pixel width", "other pixel height", "no projection", "other projection", "other height", "bad time", "huge value" };
    if (k == 2) { gt[r.chance(0.5) ? 2 : 4] = 10; s->SetGeoTransform(gt); } if (k == 3) { gt[1] *= r.chance(0.5) ? 1.5 : 2; s->SetGeoTransform(gt); } if (k == 4) { gt[5] *= r.chance(0.5) ? -1 : 2; s->SetGeoTransform(gt); } OGRSpatialReference sr; if (k == 5) s->SetSpatialRef(nullptr); if (k == 6) { sr.SetWellKnownGeogCS("WGS84"); s->SetSpatialRef(&sr); } if (k == 7) { sr.SetGEOS(0, 36000000, 0, 0); s->SetSpatialRef(&sr); }
    (void)drv; unlink("x.grib"); CPLErrorReset(); vg::DS g = encode("x.grib", s.get(), k == 1 ? "msat/none" : tpl); VEXPECT(!g && CPLGetLastErrorType() == CE_Failure, "accepted", "%s, %s: %s", W[k], tpl, g ? "written" : "no error reported"); evals(1); obs("refused", W[k]); g.reset(); s.reset(); unlink("x.grib");
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough;
    add_group("roundtrip", t ? 60000 : 4800, 50, 120, roundtrip); add_group("whole", t ? 96 : 8, 1, 200, whole); add_group("refused", t ? 1800 : 270, 30, 60, refused);
    return run_all();
}
