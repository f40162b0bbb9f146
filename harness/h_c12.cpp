// C12: crop, resize and re-encode keep values, places and metadata together
#include "synth.h"
#include "vgmem.h"
#include "gproj.h"
#include "toolutil.h"
#include <array>
#include <msat/gdal/dataset.h>
#include <msat/gdal/gdaltranslate.h>
using namespace xs; using namespace vf; namespace D = msat::dataset;

struct Src { int w, h, bands; GDALDataType type; double gt[6]; bool geo; std::vector<double> nodata, scale, offset; std::vector<bool> hasnd; std::vector<std::string> desc, unit; std::vector<std::vector<double>> v; std::map<std::string, std::string> md; std::vector<std::map<std::string, std::string>> bmd; std::string wkt; vg::DS ds; };
static const std::vector<GDALDataType> TYPES = { GDT_Byte, GDT_UInt16, GDT_Int16, GDT_Int32, GDT_UInt32, GDT_Float32, GDT_Float64 };
static void make(Src& s, Rng& r, int maxdim, int maxbands) {
    vg::init(); static bool reg = false; if (!reg) { reg = true; GDALAllRegister(); }
    s.w = 1 + r.below(maxdim); s.h = 1 + r.below(maxdim); s.bands = 1 + r.below(maxbands); s.type = r.pick(TYPES); s.ds.reset(GetGDALDriverManager()->GetDriverByName("MEM")->Create("", s.w, s.h, s.bands, s.type, nullptr));
    s.geo = r.chance(0.85); double ps = r.chance(0.5) ? vg::PS : exp(r.real(-4, 9)); double g[6] = { r.real(-5e6, 5e6), ps, 0, r.real(-5e6, 5e6), 0, -ps * (r.chance(0.7) ? 1 : r.real(0.3, 3)) }; if (r.chance(0.2)) { g[2] = r.real(-1, 1) * ps; g[4] = r.real(-1, 1) * ps; } memcpy(s.gt, g, sizeof g);
    if (s.geo) { s.ds->SetGeoTransform(g); OGRSpatialReference o = vg::geos(std::round(r.real(-180, 180) * 10) / 10); s.ds->SetSpatialRef(&o); }
    int nm = r.below(5); for (int i = 0; i < nm; ++i) { std::string k = fmt("KEY%d", i), v = fmt("value %d of %d", i, (int)r.below(1000)); s.md[k] = v; s.ds->SetMetadataItem(k.c_str(), v.c_str()); } if (r.chance(0.7)) { s.md[MD_MSAT_DATETIME] = "2010-01-19 12:00:00"; s.ds->SetMetadataItem(MD_MSAT_DATETIME, "2010-01-19 12:00:00"); }
    double lim = s.type == GDT_Byte ? 250 : s.type == GDT_Int16 ? 32000 : s.type == GDT_UInt16 ? 65000 : 1e6;
    for (int b = 0; b < s.bands; ++b) {
        GDALRasterBand* rb = s.ds->GetRasterBand(b + 1); std::vector<double> v(s.w * s.h); uint64_t base = r.below(1 << 20); for (size_t i = 0; i < v.size(); ++i) { v[i] = fmod((double)base + i + b * 77777, lim); if (s.type >= GDT_Float32 && s.type <= GDT_Float64) v[i] = (float)(v[i] / 7 - 1000); if (s.type == GDT_Int16 && r.chance(0.3)) v[i] = -v[i]; }
        bool hn = r.chance(0.6); double nd = hn ? (r.chance(0.7) ? 0 : 17) : 0; if (hn) for (auto& x : v) if (r.chance(0.05)) x = nd; if (rb->RasterIO(GF_Write, 0, 0, s.w, s.h, v.data(), s.w, s.h, GDT_Float64, 0, 0, nullptr) != CE_None) viol("harness", "write");
        s.v.push_back(v); s.hasnd.push_back(hn); s.nodata.push_back(nd); if (hn) rb->SetNoDataValue(nd); double sc = r.chance(0.3) ? 1 : r.real(0.001, 2), of = r.chance(0.3) ? 0 : r.real(-100, 100); s.scale.push_back(sc); s.offset.push_back(of); rb->SetScale(sc); rb->SetOffset(of); s.desc.push_back(r.chance(0.3) ? "" : fmt("band %d %d", b, (int)r.below(100))); rb->SetDescription(s.desc.back().c_str()); s.unit.push_back(r.chance(0.5) ? "K" : "%"); rb->SetUnitType(s.unit.back().c_str()); std::map<std::string, std::string> bm; for (int i = r.below(3); i > 0; --i) { bm[fmt("BK%d", i)] = fmt("bv%d", (int)r.below(100)); rb->SetMetadataItem(fmt("BK%d", i).c_str(), bm[fmt("BK%d", i)].c_str()); } if (r.chance(0.5)) { bm[MD_MSAT_CHANNEL_ID] = fmt("%d", (int)r.below(13)); rb->SetMetadataItem(MD_MSAT_CHANNEL_ID, bm[MD_MSAT_CHANNEL_ID].c_str()); } s.bmd.push_back(bm);
    }
    note(fmt("%dx%d, %d bands of %s", s.w, s.h, s.bands, GDALGetDataTypeName(s.type)));
}
struct Win { int x, y, w, h, ow, oh; std::vector<int> bands; };
// does `o` show the window of `s`? strict: resized pixels are the ones under the new pixel's middle
static void compare(GDALDataset* o, const Src& s, const Win& w, const char* what, bool meta, bool srs, bool strict, Rng& r) {
    if (!VEXPECT(o->GetRasterXSize() == w.ow && o->GetRasterYSize() == w.oh && o->GetRasterCount() == (int)w.bands.size(), "size", "%s: %dx%d with %d bands, not %dx%d with %d", what, o->GetRasterXSize(), o->GetRasterYSize(), o->GetRasterCount(), w.ow, w.oh, (int)w.bands.size())) return;
    double gt[6]; bool hg = o->GetGeoTransform(gt) == CE_None; VEXPECT(hg == s.geo, "georeference", "%s: %s georeference", what, hg ? "got a" : "lost its");
    if (hg && s.geo) {      // the four corners are where the source's are
        for (int c = 0; c < 4; ++c) { double u = c & 1 ? w.ow : 0, v = c & 2 ? w.oh : 0, U = w.x + (c & 1 ? w.w : 0), V = w.y + (c & 2 ? w.h : 0), X = gt[0] + gt[1] * u + gt[2] * v, Y = gt[3] + gt[4] * u + gt[5] * v, SX = s.gt[0] + s.gt[1] * U + s.gt[2] * V, SY = s.gt[3] + s.gt[4] * U + s.gt[5] * V, tol = 1e-9 * (1e7 + (w.w + w.h + w.x + w.y) * std::fabs(s.gt[1])); VEXPECT(std::fabs(X - SX) < tol && std::fabs(Y - SY) < tol, "corner", "%s: window %d,%d %dx%d to %dx%d, corner %d is at %.6f %.6f, not %.6f %.6f", what, w.x, w.y, w.w, w.h, w.ow, w.oh, c, X, Y, SX, SY); }
        if (srs) { const OGRSpatialReference *a = s.ds->GetSpatialRef(), *b = o->GetSpatialRef(); VEXPECT(b && a->IsSame(b), "projection", "%s: projection changed", what); }
    }
    if (meta) for (auto& k : s.md) { const char* v = o->GetMetadataItem(k.first.c_str()); VEXPECT(v && k.second == v, "metadata", "%s: %s is %s, not %s", what, k.first.c_str(), v ? v : "missing", k.second.c_str()); }
    bool same = w.w == w.ow && w.h == w.oh;
    for (size_t i = 0; i < w.bands.size(); ++i) {
        int b = w.bands[i] - 1; GDALRasterBand* rb = o->GetRasterBand(i + 1); VEXPECT(rb->GetRasterDataType() == s.type, "type", "%s: band %d is %s, not %s", what, (int)i + 1, GDALGetDataTypeName(rb->GetRasterDataType()), GDALGetDataTypeName(s.type));
        int hn = 0, q; double nd = rb->GetNoDataValue(&hn); VEXPECT((hn != 0) == s.hasnd[b] && (!hn || nd == s.nodata[b]), "nodata", "%s: band %d has %s %g, not %s %g", what, (int)i + 1, hn ? "no data" : "none", nd, s.hasnd[b] ? "no data" : "none", s.nodata[b]);
        if (meta) { VEXPECT(close_rel(rb->GetScale(&q), s.scale[b], 1e-12) && close_rel(rb->GetOffset(&q), s.offset[b], 1e-12, 1e-12), "scale", "%s: band %d scale %g offset %g, not %g %g", what, (int)i + 1, rb->GetScale(&q), rb->GetOffset(&q), s.scale[b], s.offset[b]); VEXPECT(s.desc[b] == rb->GetDescription(), "description", "%s: band %d is '%s', not '%s'", what, (int)i + 1, rb->GetDescription(), s.desc[b].c_str()); if (srs && strict && !strstr(what, "recode MEM")) VEXPECT(s.unit[b] == rb->GetUnitType(), "unit", "%s: '%s'", what, rb->GetUnitType()); for (auto& k : s.bmd[b]) { const char* v = rb->GetMetadataItem(k.first.c_str()); VEXPECT(v && k.second == v, "band-metadata", "%s: band %d %s is %s, not %s", what, (int)i + 1, k.first.c_str(), v ? v : "missing", k.second.c_str()); } }
        auto look = [&](int x, int y, double got, bool exact, const char* how) {
            double fx = w.x + (x + 0.5) * w.w / w.ow, fy = w.y + (y + 0.5) * w.h / w.oh; int n = exact ? 0 : 1; bool ok = false; double want = NAN;
            for (int dy = -n; dy <= n && !ok; ++dy) for (int dx = -n; dx <= n && !ok; ++dx) for (int e = 0; e < 4 && !ok; ++e) { int X = (int)floor(fx + (e & 1 ? 1e-6 : -1e-6)) + dx, Y = (int)floor(fy + (e & 2 ? 1e-6 : -1e-6)) + dy; if (X < w.x || Y < w.y || X >= w.x + w.w || Y >= w.y + w.h) continue; double v = s.v[b][(size_t)Y * s.w + X]; if (!dx && !dy) want = v; ok = v == got; }
            VEXPECT(ok, "value", "%s (%s): window %d,%d %dx%d to %dx%d, band %d pixel %d,%d is %.9g, not %.9g", what, how, w.x, w.y, w.w, w.h, w.ow, w.oh, (int)i + 1, x, y, got, want);
        };
        std::vector<double> v((size_t)w.ow * w.oh); if (!VEXPECT(rb->RasterIO(GF_Read, 0, 0, w.ow, w.oh, v.data(), w.ow, w.oh, GDT_Float64, 0, 0, nullptr) == CE_None, "read", "%s: %s", what, CPLGetLastErrorMsg())) continue;
        size_t step = v.size() > 20000 ? v.size() / 20000 + 1 : 1; for (size_t k = r.below(step); k < v.size(); k += step) look(k % w.ow, k / w.ow, v[k], same || strict, "whole");
        for (int k = 0; k < 4; ++k) { int x = r.below(w.ow), y = r.below(w.oh), n = 1 + r.below(w.ow - x), m = 1 + r.below(std::min(w.oh - y, 5)); std::vector<double> p(n * m); if (VEXPECT(rb->RasterIO(GF_Read, x, y, n, m, p.data(), n, m, GDT_Float64, 0, 0, nullptr) == CE_None, "read", "%s: %s", what, CPLGetLastErrorMsg())) for (int t = 0; t < 20; ++t) { int a = r.below(n), c = r.below(m); look(x + a, y + c, p[c * n + a], same, "window"); } }
    }
}
static int outside(Rng& r, int size, int& off, int& len) {      // a window that is not inside
    static const int BIG = 2147483647; switch (r.below(8)) {
        case 0: off = -1 - (int)r.below(10); len = 1 + r.below(size); break;
        case 1: off = r.below(size); len = size - off + 1 + r.below(10); break;
        case 2: off = size + r.below(10); len = 1 + r.below(5); break;
        case 3: off = r.below(size); len = -1 - (int)r.below(10); break;
        case 4: off = 1 + r.below(size); len = BIG - r.below(2); break;
        case 5: off = BIG - r.below(3); len = 1 + r.below(5); break;
        case 6: off = BIG; len = BIG; break;
        default: off = -BIG; len = BIG; break; }
    return 0;
}
static Win window(Src& s, Rng& r, bool resize) {
    Win w; w.w = r.chance(0.15) ? s.w : 1 + r.below(s.w); w.h = r.chance(0.15) ? s.h : 1 + r.below(s.h); w.x = r.below(s.w - w.w + 1); w.y = r.below(s.h - w.h + 1); w.ow = w.w; w.oh = w.h; if (resize) { w.ow = r.chance(0.3) ? w.w : 1 + r.below(w.w * 2 + 3); w.oh = r.chance(0.3) ? w.h : 1 + r.below(w.h * 2 + 3); } for (int b = 1; b <= s.bands; ++b) w.bands.push_back(b); return w;
}
static const char* kind(const Win& w, const Src& s) { return w.w == s.w && w.h == s.h ? (w.ow == w.w && w.oh == w.h ? "all" : "all resized") : w.ow == w.w && w.oh == w.h ? "crop" : w.ow > w.w || w.oh > w.h ? "crop enlarged" : "crop reduced"; }
static void translate(uint64_t, Rng& r) {
    Src s; make(s, r, 60, 4);
    for (int k = 0; k < 6; ++k) {
        GDALTranslate t; Win w = window(s, r, r.chance(0.5)); std::string sx, sy; bool resized = w.ow != w.w || w.oh != w.h; bool ok = true;
        t.anSrcWin[0] = w.x; t.anSrcWin[1] = w.y; t.anSrcWin[2] = w.w; t.anSrcWin[3] = w.h;
        if (resized) { sx = fmt("%d", w.ow); sy = fmt("%d", w.oh); if (r.chance(0.3)) { int p = 1 + r.below(300), q = 1 + r.below(300); sx = fmt("%d%%", p); sy = fmt("%d%%", q); w.ow = (int)((double)p / 100 * w.w); w.oh = (int)((double)q / 100 * w.h); if (w.ow < 1 || w.oh < 1) ok = false; } }
        if (r.chance(0.3)) { w.bands.clear(); int n = 1 + r.below(s.bands + 2); for (int i = 0; i < n; ++i) w.bands.push_back(1 + r.below(s.bands)); int bad = r.chance(0.15) ? r.below(n) : -1; if (bad >= 0) { static const std::vector<int> B = { 0, -1, 99, 2147483647, -2147483647 }; w.bands[bad] = r.chance(0.5) ? s.bands + 1 : r.pick(B); ok = false; } t.panBandList = (int*)CPLMalloc(n * sizeof(int)); for (int i = 0; i < n; ++i) t.panBandList[i] = w.bands[i]; t.nBandCount = n; bool def = n == s.bands; for (int i = 0; i < n; ++i) if (w.bands[i] != i + 1) def = false; t.bDefBands = def; }
        const char* why = ok ? kind(w, s) : "bad band or size";
        if (r.chance(0.2)) { int which = r.below(2); int o = 0, l = 0; outside(r, which ? s.h : s.w, o, l); t.anSrcWin[which] = o; t.anSrcWin[2 + which] = l; if (!(t.anSrcWin[2] == 0 && t.anSrcWin[3] == 0)) { ok = false; why = "outside"; } }
        if (resized && r.chance(0.15)) { static const std::vector<const char*> B = { "", "0", "-5", "abc", "%", "-10%", "0%", "1e30", "1e30%", "99999999999", "nan", "0.5" }; (r.chance(0.5) ? sx : sy) = r.pick(B); ok = false; why = "bad size"; }
        if (resized) { t.pszOXSize = sx.c_str(); t.pszOYSize = sy.c_str(); }
        bool nd = ok && r.chance(0.15); if (nd) { t.bSetNoData = TRUE; t.dfNoDataReal = 42; }
        CPLErrorReset(); GDALDataset* o = t.translate(s.ds.get()); obs("translate", why);
        if (!ok) { VEXPECT(o == nullptr, "not-refused", "%s: window %d,%d %dx%d, size '%s','%s', %d bands of a %dx%d image is accepted", why, t.anSrcWin[0], t.anSrcWin[1], t.anSrcWin[2], t.anSrcWin[3], sx.c_str(), sy.c_str(), (int)w.bands.size(), s.w, s.h); VEXPECT(o || CPLGetLastErrorType() == CE_Failure, "no-error", "%s is refused without an error", why); if (o && o != s.ds.get()) GDALClose(o); continue; }
        if (!VEXPECT(o != nullptr, "refused", "window %d,%d %dx%d to %s,%s of a %dx%d image: %s", w.x, w.y, w.w, w.h, sx.c_str(), sy.c_str(), s.w, s.h, CPLGetLastErrorMsg())) continue;
        if (nd) { auto h = s.hasnd; auto n = s.nodata; for (int b = 0; b < s.bands; ++b) { s.hasnd[b] = true; s.nodata[b] = 42; } compare(o, s, w, "translate, no data set", true, true, true, r); s.hasnd = h; s.nodata = n; }
        else compare(o, s, w, "translate", true, true, true, r);
        if (o != s.ds.get()) GDALClose(o);
        Win all; all.x = all.y = 0; all.w = all.ow = s.w; all.h = all.oh = s.h; for (int b = 1; b <= s.bands; ++b) all.bands.push_back(b); compare(s.ds.get(), s, all, "source afterwards", true, true, true, r);
    }
}
static double squeeze(double v, GDALDataType t) {      // into what a band of that type can hold
    double lo, hi; switch (t) { case GDT_Byte: lo = 0; hi = 255; break; case GDT_UInt16: lo = 0; hi = 65535; break; case GDT_Int16: lo = -32768; hi = 32767; break; case GDT_Int32: lo = -2147483648.0; hi = 2147483647; break; case GDT_UInt32: lo = 0; hi = 4294967295.0; break; case GDT_Float32: return (float)v; default: return v; }
    return v <= lo ? lo : v >= hi ? hi : floor(v + 0.5);
}
static GDAL_GCP* gcps(Rng& r, int n) { GDAL_GCP* g = (GDAL_GCP*)CPLMalloc(n * sizeof(GDAL_GCP)); GDALInitGCPs(n, g); for (int i = 0; i < n; ++i) { CPLFree(g[i].pszId); g[i].pszId = CPLStrdup(fmt("p%d", i).c_str()); g[i].dfGCPPixel = r.below(30); g[i].dfGCPLine = r.below(30); g[i].dfGCPX = r.real(-100, 100); g[i].dfGCPY = r.real(-80, 80); g[i].dfGCPZ = r.below(3); } return g; }
// every other way of asking: projected windows, types, scaling, control points, bounds, systems, metadata, colours
static void options(uint64_t, Rng& r) {
    Src s; make(s, r, 30, 3); bool rot = s.gt[2] != 0 || s.gt[4] != 0; std::vector<std::array<int, 4>> pal; std::vector<GDAL_GCP> sg; GDAL_GCP* sgp = nullptr; OGRSpatialReference ll; ll.importFromEPSG(4326); ll.SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER); char* p = nullptr; ll.exportToWkt(&p); std::string llw = p; CPLFree(p);
    if (s.type == GDT_Byte && r.chance(0.7)) { GDALColorTable ct; for (int i = 0; i < 256; ++i) { std::array<int, 4> c{ (int)r.below(256), (int)r.below(256), (int)r.below(256), (int)r.below(256) }; pal.push_back(c); GDALColorEntry e{ (short)c[0], (short)c[1], (short)c[2], (short)c[3] }; ct.SetColorEntry(i, &e); } s.ds->GetRasterBand(1)->SetColorTable(&ct); }
    if (!s.geo && r.chance(0.5)) { int n = 1 + r.below(4); sgp = gcps(r, n); sg.assign(sgp, sgp + n); s.ds->SetGCPs(n, sgp, llw.c_str()); }
    const char* rpc[] = { "LINE_OFF=1", "SAMP_OFF=2", nullptr }; bool hasrpc = r.chance(0.3); if (hasrpc) s.ds->SetMetadata((char**)rpc, "RPC"); bool stat = r.chance(0.3); if (stat) for (int b = 1; b <= s.bands; ++b) s.ds->GetRasterBand(b)->SetMetadataItem("STATISTICS_MEAN", "5");
    for (int k = 0; k < 4; ++k) {
        GDALTranslate t; Win w = window(s, r, r.chance(0.3)); std::string sx = fmt("%d", w.ow), sy = fmt("%d", w.oh), what, sy2; bool ok = true, full = false;
        if (s.geo && r.chance(0.4)) { // a window by projected coordinates
            int x = w.x, y = w.y, W = w.w, H = w.h; what += "projwin "; if (r.chance(0.3)) { ok = false; switch (r.below(4)) { case 0: x = -1 - (int)r.below(3); break; case 1: y = s.h - H + 1 + r.below(3); break; case 2: W = s.w - x + 1; break; default: H = -H; } what += "outside "; }
            t.dfULX = s.gt[0] + x * s.gt[1]; t.dfULY = s.gt[3] + y * s.gt[5]; t.dfLRX = t.dfULX + W * s.gt[1]; t.dfLRY = t.dfULY + H * s.gt[5]; if (rot) ok = false, what += "rotated "; else if (r.chance(0.1)) { static const std::vector<double> B = { 1e300, -1e300, NAN, INFINITY, 1e18, -3e15 }; (r.chance(0.5) ? t.dfLRX : r.chance(0.5) ? t.dfULY : t.dfULX) = r.pick(B); ok = false; what += "absurd "; } }
        else { t.anSrcWin[0] = w.x; t.anSrcWin[1] = w.y; t.anSrcWin[2] = w.w; t.anSrcWin[3] = w.h; }
        bool size = w.ow != w.w || w.oh != w.h || r.chance(0.1); if (size) { t.pszOXSize = sx.c_str(); t.pszOYSize = sy.c_str(); } full = !w.x && !w.y && w.w == s.w && w.h == s.h && !size; bool touched = !full;
        GDALDataType type = s.type; if (r.chance(0.4)) { type = r.pick(TYPES); t.eOutputType = type; what += "type "; touched = true; }
        bool bounds = r.chance(0.2); if (bounds) { t.bGotBounds = TRUE; for (auto& v : t.adfULLR) v = r.real(-100, 100); what += "bounds "; touched = true; }
        bool srs = r.chance(0.2); if (srs) { t.pszOutputSRS = &llw[0]; what += "srs "; touched = true; }
        bool nd = r.chance(0.15); if (nd) { t.bSetNoData = TRUE; t.dfNoDataReal = 42; what += "nodata "; touched = true; }
        int scale = r.chance(0.3) ? 1 + r.below(2) : 0; double a = r.real(-50, 400), b = r.chance(0.1) ? a : a + r.real(1, 500), c = r.below(100), d = r.chance(0.1) ? c : c + 1 + r.below(200); if (scale) { t.bScale = TRUE; t.bHaveScaleSrc = scale == 1; t.dfScaleSrcMin = a; t.dfScaleSrcMax = b; t.dfScaleDstMin = c; t.dfScaleDstMax = d; what += scale == 1 ? "scale " : "autoscale "; touched = true; }
        std::map<std::string, std::string> mo; if (r.chance(0.3)) { what += "metadata "; touched = true; for (int i = 1 + r.below(3); i-- > 0;) { std::string key = r.chance(0.4) && !s.md.empty() ? s.md.begin()->first : fmt("NEW%d", i); mo[key] = fmt("new %d", (int)r.below(100)); } for (auto& m : mo) t.papszMetadataOptions = CSLAddString(t.papszMetadataOptions, (m.first + "=" + m.second).c_str()); }
        int ng = r.chance(0.2) ? 1 + r.below(4) : 0; std::vector<GDAL_GCP> mine; if (ng) { t.pasGCPs = gcps(r, ng); t.nGCPCount = ng; mine.assign(t.pasGCPs, t.pasGCPs + ng); what += "gcps "; touched = true; }
        int ex = r.chance(0.2) ? 3 + r.below(2) : 0; if (ex) { t.nRGBExpand = ex; what += fmt("expand%d ", ex); touched = true; if (pal.empty()) ok = false; }
        if (r.chance(0.3)) { w.bands.clear(); int n = 1 + r.below(s.bands + 2); bool def = n == s.bands; for (int i = 0; i < n; ++i) { w.bands.push_back(1 + r.below(s.bands)); if (w.bands[i] != i + 1) def = false; } t.panBandList = (int*)CPLMalloc(n * sizeof(int)); for (int i = 0; i < n; ++i) t.panBandList[i] = w.bands[i]; t.nBandCount = n; t.bDefBands = def; if (!def) touched = true; }
        if (ex && w.bands[0] != 1) ok = false;
        what = what.empty() ? "plain" : what; note(fmt("%dx%d %d bands of %s: ", s.w, s.h, s.bands, GDALGetDataTypeName(s.type)) + what + fmt("window %d,%d %dx%d to %dx%d", w.x, w.y, w.w, w.h, w.ow, w.oh)); std::vector<std::pair<double, double>> gxy; for (auto& g : mine) gxy.push_back({ g.dfGCPX, g.dfGCPPixel });
        int times = r.chance(0.3) ? 2 : 1; for (int q = 0; q < times; ++q) {   // the same request again gives the same
            CPLErrorReset(); GDALDataset* o = t.translate(s.ds.get()); obs("options", what.substr(0, 40) + (ok ? "" : "refused")); const char* W = what.c_str();
            if (!ok) { VEXPECT(o == nullptr, "not-refused", "%s: accepted", W); VEXPECT(o || CPLGetLastErrorType() == CE_Failure, "no-error", "%s: refused without an error", W); if (o && o != s.ds.get()) GDALClose(o); continue; }
            if (!VEXPECT(o != nullptr, "refused", "%s: %s", W, CPLGetLastErrorMsg())) continue; if (touched) VEXPECT(o != s.ds.get(), "untouched", "%s: the source itself is returned", W);
            int nb = w.bands.size() + (ex ? ex - 1 : 0); if (!VEXPECT(o->GetRasterXSize() == w.ow && o->GetRasterYSize() == w.oh && o->GetRasterCount() == nb, "size", "%s: %dx%d with %d bands, not %dx%d with %d", W, o->GetRasterXSize(), o->GetRasterYSize(), o->GetRasterCount(), w.ow, w.oh, nb)) { if (o != s.ds.get()) GDALClose(o); continue; }
            double gt[6], want[6] = {}; bool hg = o->GetGeoTransform(gt) == CE_None, wg = bounds || (s.geo && !ng); VEXPECT(hg == wg, "georeference", "%s: %s", W, hg ? "there is a georeference" : "no georeference");
            if (bounds) { want[0] = t.adfULLR[0]; want[3] = t.adfULLR[1]; want[1] = (t.adfULLR[2] - t.adfULLR[0]) / w.ow; want[5] = (t.adfULLR[3] - t.adfULLR[1]) / w.oh; } else { double fx = (double)w.w / w.ow, fy = (double)w.h / w.oh; want[0] = s.gt[0] + w.x * s.gt[1] + w.y * s.gt[2]; want[3] = s.gt[3] + w.x * s.gt[4] + w.y * s.gt[5]; want[1] = s.gt[1] * fx; want[2] = s.gt[2] * fy; want[4] = s.gt[4] * fx; want[5] = s.gt[5] * fy; }
            // a rotated georeference of a resized image: columns and lines each by their own factor
            if (hg && wg) for (int i = 0; i < 6; ++i) { if (!bounds && rot && size && (i == 2 || i == 4)) continue; VEXPECT(std::fabs(gt[i] - want[i]) <= 1e-9 * (std::fabs(want[i]) + std::fabs(s.gt[1]) * 100 + 1), "georeference", "%s: coefficient %d is %.12g, not %.12g", W, i, gt[i], want[i]); }
            const OGRSpatialReference* sr = o->GetSpatialRef(); if (!ng) { const OGRSpatialReference* e = srs ? &ll : s.ds->GetSpatialRef(); VEXPECT((sr != nullptr) == (e != nullptr) && (!e || (sr && sr->IsSame(e))), "projection", "%s: another projection", W); }
            int wn = ng ? ng : (int)sg.size(); if (VEXPECT(o->GetGCPCount() == wn, "gcps", "%s: %d control points, not %d", W, o->GetGCPCount(), wn)) for (int i = 0; i < wn; ++i) { const GDAL_GCP& g = o->GetGCPs()[i]; if (ng) VEXPECT(g.dfGCPX == gxy[i].first && g.dfGCPPixel == gxy[i].second, "gcps", "%s: point %d is at %g", W, i, g.dfGCPX); else VEXPECT(g.dfGCPX == sg[i].dfGCPX && g.dfGCPY == sg[i].dfGCPY && std::fabs(g.dfGCPPixel - (sg[i].dfGCPPixel - w.x) * w.ow / w.w) < 1e-9 && std::fabs(g.dfGCPLine - (sg[i].dfGCPLine - w.y) * w.oh / w.h) < 1e-9, "gcps", "%s: point %d of the source is at %g %g", W, i, g.dfGCPPixel, g.dfGCPLine); }
            for (auto& m : mo) { const char* v = o->GetMetadataItem(m.first.c_str()); VEXPECT(v && m.second == v, "metadata", "%s: %s is %s, not %s", W, m.first.c_str(), v ? v : "missing", m.second.c_str()); } for (auto& m : s.md) if (!mo.count(m.first)) { const char* v = o->GetMetadataItem(m.first.c_str()); VEXPECT(v && m.second == v, "metadata", "%s: %s is %s", W, m.first.c_str(), v ? v : "missing"); }
            VEXPECT((o->GetMetadata("RPC") != nullptr) == (hasrpc && full), "rpc", "%s: %s", W, o->GetMetadata("RPC") ? "the coefficients of the whole are those of a part" : "the coefficients are lost");
            for (int i = 0; i < nb; ++i) {
                bool col = i < ex; int sb = w.bands[col ? 0 : i - (ex ? ex - 1 : 0)] - 1; GDALRasterBand* rb = o->GetRasterBand(i + 1); VEXPECT(rb->GetRasterDataType() == type, "type", "%s: band %d is %s, not %s", W, i + 1, GDALGetDataTypeName(rb->GetRasterDataType()), GDALGetDataTypeName(type)); int hn = 0; double v = rb->GetNoDataValue(&hn);
                if (nd) VEXPECT(hn && v == squeeze(42, type), "nodata", "%s: band %d has %s %g", W, i + 1, hn ? "no data" : "none", v); else if (!col) VEXPECT((hn != 0) == s.hasnd[sb] && (!hn || v == s.nodata[sb]), "nodata", "%s: band %d has %s %g", W, i + 1, hn ? "no data" : "none", v);
                if (col) VEXPECT(rb->GetColorInterpretation() == GCI_RedBand + i, "colour", "%s: band %d is %s", W, i + 1, GDALGetColorInterpretationName(rb->GetColorInterpretation()));
                else { VEXPECT(s.desc[sb] == rb->GetDescription(), "description", "%s: '%s'", W, rb->GetDescription()); if (stat) VEXPECT((rb->GetMetadataItem("STATISTICS_MEAN") != nullptr) == (full && !scale), "statistics", "%s: band %d %s", W, i + 1, full ? "lost them" : "has those of another image"); if (!scale) VEXPECT(close_rel(rb->GetScale(), s.scale[sb], 1e-12) && close_rel(rb->GetOffset(), s.offset[sb], 1e-12, 1e-12), "scale", "%s: band %d scale %g offset %g", W, i + 1, rb->GetScale(), rb->GetOffset()); else VEXPECT(rb->GetScale() == 1 && rb->GetOffset() == 0, "scale", "%s: band %d of other values has scale %g offset %g of the source", W, i + 1, rb->GetScale(), rb->GetOffset()); }
                double lo = a, hi = b; if (scale == 2) { double mm[2] = { 1, 0 }; if (GDALComputeRasterMinMax(s.ds->GetRasterBand(sb + 1), TRUE, mm) != CE_None) continue; lo = mm[0]; hi = mm[1]; } // GDAL's own, of a sample of the lines
                if (hi == lo) hi += 0.1; double dhi = d == c ? d + 0.1 : d, f = (dhi - c) / (hi - lo);
                std::vector<double> g((size_t)w.ow * w.oh); if (!VEXPECT(rb->RasterIO(GF_Read, 0, 0, w.ow, w.oh, g.data(), w.ow, w.oh, GDT_Float64, 0, 0, nullptr) == CE_None, "read", "%s: %s", W, CPLGetLastErrorMsg())) continue;
                if (w.ow != w.w || w.oh != w.h) { evals(1); continue; }
                for (size_t n = 0; n < g.size(); ++n) {
                    double x = s.v[sb][(size_t)(w.y + n / w.w) * s.w + w.x + n % w.w], e = x; bool none = s.hasnd[sb] && x == s.nodata[sb]; if (col) e = pal[(int)x][i]; if (scale) e = col && false ? e : (e - lo) * f + c; if (scale && none && !col) { double N = nd ? 42 : s.nodata[sb]; VEXPECT(g[n] == N || g[n] == squeeze(N, type), "value-nodata", "%s: band %d pixel %zu, of no data, is %.9g", W, i + 1, n, g[n]); continue; }
                    if (col && scale) continue; double z = squeeze(e, type), tol = scale ? 1e-5 * (std::fabs(e) + std::fabs(lo * f) + std::fabs(c)) + 1e-6 : 0; if (type != GDT_Float32 && type != GDT_Float64 && scale) tol += std::fabs(e - floor(e) - 0.5) < 1e-3 + tol ? 1 : 0;
                    VEXPECT(std::fabs(g[n] - z) <= tol, "value", "%s: band %d pixel %zu of %.9g is %.9g, not %.9g", W, i + 1, n, x, g[n], z);
                }
            }
            if (o != s.ds.get()) GDALClose(o); Win all; all.x = all.y = 0; all.w = all.ow = s.w; all.h = all.oh = s.h; for (int i = 1; i <= s.bands; ++i) all.bands.push_back(i); compare(s.ds.get(), s, all, "source afterwards", true, true, true, r);
        }
    }
    if (sgp) { GDALDeinitGCPs(sg.size(), sgp); CPLFree(sgp); }
}
static void recode(uint64_t, Rng& r) {
    Src s; make(s, r, 60, 3); static const std::vector<const char*> DRV = { "MEM", "GTiff", "GTiff", "HFA" };
    for (int k = 0; k < 4; ++k) {
        const char* dn = r.pick(DRV); GDALDriver* drv = GetGDALDriverManager()->GetDriverByName(dn); if (!drv) continue; Win w = window(s, r, false); int form = r.below(3); std::string f = fmt("out%d", k); for (auto e : { "", ".aux.xml", ".ige", ".rrd" }) unlink((f + e).c_str()); GDALDataset* o; using msat::proj::ImageBox; using msat::proj::ImagePoint; bool vrt = !strcmp(dn, "VRT"), mem = !strcmp(dn, "MEM");
        std::string o1, o2, o3; if (!strcmp(dn, "GTiff")) { if (r.chance(0.5)) o1 = "COMPRESS=DEFLATE"; if (r.chance(0.3)) o2 = "TILED=YES"; if (r.chance(0.3)) o3 = "INTERLEAVE=BAND"; }
        bool bad = r.chance(0.2); if (bad) outside(r, s.w, w.x, w.w); if (bad && ((long)w.x + w.w > 2147483647L || (long)w.x + w.w < -2147483647L)) bad = false, w.x = 0, w.w = w.ow = s.w;
        if (form == 0) o = D::recode(s.ds.get(), ImageBox(ImagePoint(w.x, w.y), ImagePoint(w.x + w.w, w.y + w.h)), f, drv, o1, o2, o3);
        else if (form == 1) { w.ow = 1 + r.below(90); w.oh = 1 + r.below(90); o = D::recode(s.ds.get(), ImageBox(ImagePoint(w.x, w.y), ImagePoint(w.x + w.w, w.y + w.h)), w.ow, w.oh, f, drv, o1, o2, o3); }
        else { bad = false; w.x = w.y = 0; w.w = s.w; w.h = s.h; w.ow = 1 + r.below(90); w.oh = 1 + r.below(90); o = D::recode(s.ds.get(), w.ow, w.oh, f, drv, o1, o2, o3); }
        if (bad) { VEXPECT(o == nullptr && access(f.c_str(), F_OK) != 0, "not-refused", "recode of window %d,%d %dx%d of a %dx%d image gave something", w.x, w.y, w.w, w.h, s.w, s.h); if (o) GDALClose(o); obs("recode", "outside"); continue; }
        if (!strcmp(dn, "GTiff") && !o) { bool mixed = false; for (int b = 1; b < s.bands; ++b) if (s.hasnd[b] != s.hasnd[0] || s.nodata[b] != s.nodata[0]) mixed = true; if (mixed) continue; }
        if (!VEXPECT(o != nullptr, "recode-refused", "%s, window %d,%d %dx%d to %dx%d of %dx%d: %s", dn, w.x, w.y, w.w, w.h, w.ow, w.oh, s.w, s.h, CPLGetLastErrorMsg())) continue; obs("recode", fmt("%s %s", dn, kind(w, s)));
        // formats keep one no data value for all bands, and few keep all metadata: judge what the format can keep
        Src* ps = &s; auto h = s.hasnd; auto n = s.nodata; bool geo = s.geo; if (!vrt && !mem) { for (int b = 0; b < s.bands; ++b) { int hn = 0; double v = o->GetRasterBand(b + 1)->GetNoDataValue(&hn); if (!strcmp(dn, "GTiff") && s.bands > 1) { s.hasnd[b] = hn; s.nodata[b] = v; } else if (!strcmp(dn, "HFA")) { s.hasnd[b] = hn; s.nodata[b] = v; } } }
        bool rot = s.gt[2] != 0 || s.gt[4] != 0; if (!strcmp(dn, "HFA") && (rot || !s.geo)) { s.hasnd = h; s.nodata = n; GDALClose(o); continue; }
        compare(o, *ps, w, fmt("recode %s", dn).c_str(), vrt || mem || !strcmp(dn, "GTiff"), vrt || mem, mem || vrt ? !(!vrt && form) : false, r); GDALClose(o);
        if (!mem) { vg::DS again; if (!vrt) { again = vg::open(f); if (VEXPECT(again != nullptr, "reopen", "%s", CPLGetLastErrorMsg())) compare(again.get(), *ps, w, fmt("reopened %s", dn).c_str(), !strcmp(dn, "GTiff"), false, false, r); } }
        s.hasnd = h; s.nodata = n; s.geo = geo; for (auto e : { "", ".aux.xml", ".ige", ".rrd" }) unlink((f + e).c_str());
    }
}
static void calibrated(uint64_t idx, Rng& r) {
    vg::init(); Src s; make(s, r, idx % 16 == 7 ? 2 : 50, 3); vg::DS big;
    if (idx % 16 == 7) {    // blocks of the size of the image
        int n = 2600; big.reset(GetGDALDriverManager()->GetDriverByName("GTiff")->Create("big.tif", n, n, 1, GDT_UInt16, nullptr)); big.reset(); char** o = CSLAddString(nullptr, fmt("BLOCKYSIZE=%d", n).c_str()); big.reset(GetGDALDriverManager()->GetDriverByName("GTiff")->Create("big.tif", n, n, 1, GDT_UInt16, o)); CSLDestroy(o); s.w = s.h = n; s.bands = 1; s.type = GDT_UInt16; std::vector<double> v((size_t)n * n); for (size_t i = 0; i < v.size(); ++i) v[i] = i % 65521; if (big->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, n, n, v.data(), n, n, GDT_Float64, 0, 0, nullptr) != CE_None) viol("harness", "write"); s.v = { v }; s.hasnd = { true }; s.nodata = { 0 }; s.scale = { 0.5 }; s.offset = { -25 }; big->GetRasterBand(1)->SetScale(0.5); big->GetRasterBand(1)->SetOffset(-25); big->GetRasterBand(1)->SetNoDataValue(0); s.ds = std::move(big); s.desc = { "" }; s.geo = false; s.md.clear();
    }
    D::CalibratedDataset c(*s.ds); obs("calibrated", fmt("%s%s", GDALGetDataTypeName(s.type), idx % 16 == 7 ? " one block" : ""));
    if (!VEXPECT(c.GetRasterXSize() == s.w && c.GetRasterYSize() == s.h && c.GetRasterCount() == s.bands, "calibrated-size", "%dx%d", c.GetRasterXSize(), c.GetRasterYSize())) return;
    double gt[6]; VEXPECT((c.GetGeoTransform(gt) == CE_None) == s.geo && (!s.geo || !memcmp(gt, s.gt, sizeof gt)), "calibrated-georeference", "changed"); if (s.geo) VEXPECT(c.GetSpatialRef() && c.GetSpatialRef()->IsSame(s.ds->GetSpatialRef()), "calibrated-projection", "changed"); for (auto& k : s.md) { const char* v = c.GetMetadataItem(k.first.c_str()); VEXPECT(v && k.second == v, "calibrated-metadata", "%s", k.first.c_str()); }
    for (int b = 0; b < s.bands; ++b) {
        GDALRasterBand* rb = c.GetRasterBand(b + 1); bool cal = s.type == GDT_UInt16; VEXPECT(rb->GetRasterDataType() == (cal ? GDT_Float32 : s.type), "calibrated-type", "%s", GDALGetDataTypeName(rb->GetRasterDataType())); double sc = rb->GetScale(), of = rb->GetOffset(); int hn = 0; double nd = rb->GetNoDataValue(&hn); VEXPECT(s.desc[b] == rb->GetDescription(), "calibrated-description", "%s", rb->GetDescription());
        std::vector<double> v((size_t)s.w * s.h); if (!VEXPECT(rb->RasterIO(GF_Read, 0, 0, s.w, s.h, v.data(), s.w, s.h, GDT_Float64, 0, 0, nullptr) == CE_None, "calibrated-read", "%s", CPLGetLastErrorMsg())) continue; size_t step = v.size() / 20000 + 1;
        for (size_t i = 0; i < v.size(); i += step) { double raw = s.v[b][i], want = raw * s.scale[b] + s.offset[b], got = v[i] * sc + of; bool miss = s.hasnd[b] && raw == s.nodata[b]; if (miss) VEXPECT(hn && v[i] == nd, "calibrated-missing", "band %d: a missing count reads %g, no data is %g", b + 1, v[i], nd); else VEXPECT(close_rel(got, want, 1e-6, 1e-6 * std::fabs(s.offset[b]) + 1e-9), "calibrated-value", "band %d: count %g, scale %g, offset %g reads %.9g, not %.9g", b + 1, raw, s.scale[b], s.offset[b], got, want); }
        for (int k = 0; k < 20; ++k) { int x = r.below(s.w), y = r.below(s.h); double p = 0; if (rb->RasterIO(GF_Read, x, y, 1, 1, &p, 1, 1, GDT_Float64, 0, 0, nullptr) == CE_None) VEXPECT(p == v[(size_t)y * s.w + x], "calibrated-pixel", "%d,%d: %g alone, %g in the whole", x, y, p, v[(size_t)y * s.w + x]); }
    }
    // a crop of it, as with msat --force-calibration
    if (s.w < 100) { GDALTranslate t; Win w = window(s, r, false); t.anSrcWin[0] = w.x; t.anSrcWin[1] = w.y; t.anSrcWin[2] = w.w; t.anSrcWin[3] = w.h; GDALDataset* o = t.translate(&c); if (VEXPECT(o != nullptr, "calibrated-crop", "%s", CPLGetLastErrorMsg())) { for (int b = 0; b < s.bands; ++b) { std::vector<double> a(w.w * w.h), e(w.w * w.h); if (o->GetRasterBand(b + 1)->RasterIO(GF_Read, 0, 0, w.w, w.h, a.data(), w.w, w.h, GDT_Float64, 0, 0, nullptr) == CE_None && c.GetRasterBand(b + 1)->RasterIO(GF_Read, w.x, w.y, w.w, w.h, e.data(), w.w, w.h, GDT_Float64, 0, 0, nullptr) == CE_None) VEXPECT(a == e, "calibrated-crop", "band %d differs", b + 1); int h1, h2; VEXPECT(o->GetRasterBand(b + 1)->GetScale() == c.GetRasterBand(b + 1)->GetScale() && o->GetRasterBand(b + 1)->GetOffset() == c.GetRasterBand(b + 1)->GetOffset() && (o->GetRasterBand(b + 1)->GetNoDataValue(&h1) == c.GetRasterBand(b + 1)->GetNoDataValue(&h2) || !h2) && !h1 == !h2, "calibrated-crop", "band %d: scale %g %g offset %g %g no data %d %g %d %g", b + 1, o->GetRasterBand(b + 1)->GetScale(), c.GetRasterBand(b + 1)->GetScale(), o->GetRasterBand(b + 1)->GetOffset(), c.GetRasterBand(b + 1)->GetOffset(), h1, o->GetRasterBand(b + 1)->GetNoDataValue(), h2, c.GetRasterBand(b + 1)->GetNoDataValue()); } if (o != &c) GDALClose(o); } }
    unlink("big.tif");
}
// the command on products: pixel areas, places, sizes, formats
struct Full { int size, half; double ps; };
static bool read_all(GDALDataset* d, std::vector<double>& v) { int w = d->GetRasterXSize(), h = d->GetRasterYSize(); v.resize((size_t)w * h); return d->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, w, h, v.data(), w, h, GDT_Float64, 0, 0, nullptr) == CE_None; }
static void command(uint64_t idx, Rng& r) {
    vg::init(); static bool reg = false; if (!reg) { reg = true; GDALAllRegister(); } mkdir("work", 0755); vt::clear("work"); std::string name, dir = cfg().scratch; char cwd[4096]; if (getcwd(cwd, sizeof cwd)) dir = cwd;
    Product p; bool grib = idx % 3 == 2; vg::DS src; vg::Mem m; double sub; int gx = 0, gy = 0, half; double ps; static const std::vector<double> L = { 0, 9.5, -3.5, 41.5, 57, 140.7, -135, 179 };
    if (!grib) { int ch = 1 + r.below(11); p = random_product(r, "prod", ch, 1); p.seglines = 464; p.nsegs = 8; p.present.clear(); for (int i = 1; i <= 8; ++i) if (r.chance(0.9)) p.present.insert(i); if (p.present.empty()) p.present.insert(4); p.lon = r.pick(L); write_product(p); name = dir + "/" + p.shortname(); if (r.chance(0.5)) name = dir + "/" + p.segpath(*p.present.begin()); src = vg::open(name); half = 1856; ps = vg::PS; sub = p.lon; }
    else { int n = 400; m.w = 50 + r.below(n); m.h = 50 + r.below(n); m.x0 = r.below(3712 - m.w); m.y0 = r.below(3712 - m.h); if (r.chance(0.7)) { m.x0 = 1856 - r.below(m.w) + r.range(-300, 300); m.y0 = 1856 - r.below(m.h) + r.range(-600, 600); } m.lon = r.pick(L); m.sat = "56"; m.chan = "9"; m.has_nodata = false; for (int i = 0; i < m.w * m.h; ++i) m.v.push_back(i % 1024 + 1); vg::DS s = vg::mem(m); unlink("in.grib"); static const char* T[3] = { "msat/wmo", "msat/ecmwf", "msat/msat" }; char** o = CSLAddString(nullptr, fmt("TEMPLATE=%s", T[r.below(3)]).c_str()); vg::DS g(GetGDALDriverManager()->GetDriverByName("MsatGRIB")->CreateCopy("in.grib", s.get(), TRUE, o, nullptr, nullptr)); CSLDestroy(o); g.reset(); name = dir + "/in.grib"; src = vg::open(name); half = 1856; ps = vg::PS; sub = m.lon; gx = m.x0; gy = m.y0; }
    if (!VEXPECT(src != nullptr, "open", "%s: %s", name.c_str(), CPLGetLastErrorMsg())) return; int W = src->GetRasterXSize(), H = src->GetRasterYSize(); double step = ps / 35785831.0; double gt[6]; src->GetGeoTransform(gt);
    for (int k = 0; k < 3; ++k) {
        std::vector<std::string> args; static const std::vector<const char*> DRV = { "GTiff", "VRT", "GTiff" }; const char* drv = r.pick(DRV); std::string conv = fmt("--conv=%s", drv); args.push_back(conv); int how = r.below(4); int wx = 0, wy = 0, ww = W, wh = H, ow, oh; bool fail = false, places = false; double la[2] = { 0, 0 }, lo[2] = { 0, 0 }; std::string desc;
        if (how == 0) { ww = 1 + r.below(std::min(W, 300)); wh = 1 + r.below(std::min(H, 300)); wx = r.below(W - ww + 1); wy = r.below(H - wh + 1); if (r.chance(0.25)) { if (r.chance(0.5)) outside(r, W, wx, ww); else outside(r, H, wy, wh); fail = true; } args.push_back(fmt("--area=%d,%d,%d,%d", wx, ww, wy, wh)); desc = fail ? "area outside" : "area"; }
        else if (how < 3) {
            places = true; double ax, ay; int tries = 0; do { ax = (gx + r.below(W) - half) * step; ay = (half - gy - (int)r.below(H)) * step; double cla, clo; if (gp::inverse(ax * 1.01, ay * 1.01, cla, clo) && gp::inverse(ax, ay, cla, clo)) { double dh = exp(r.real(-3, 3.8)), dw = exp(r.real(-3, 4.2)); la[0] = cla - dh / 2; la[1] = cla + dh / 2; lo[0] = clo + sub - dw / 2; lo[1] = clo + sub + dw / 2; if (la[0] > -90 && la[1] < 90) break; } } while (++tries < 50); if (tries >= 50) { la[0] = la[1] = 0; lo[0] = sub - 1; lo[1] = sub + 1; }
            if (r.chance(0.05)) { la[0] = la[1] = 0; lo[0] = lo[1] = 0; }
            if (how == 1) args.push_back(fmt("--Area=%.10g,%.10g,%.10g,%.10g", la[0], la[1], lo[0], lo[1])); else args.push_back(fmt("--around=%.10g,%.10g,%.10g,%.10g", (la[0] + la[1]) / 2, (lo[0] + lo[1]) / 2, la[1] - la[0], lo[1] - lo[0])); desc = how == 1 ? "Area" : "around"; }
        else { ww = std::min(W, 300); wh = std::min(H, 200); wx = r.below(W - ww + 1); wy = r.below(H - wh + 1); args.push_back(fmt("--area=%d,%d,%d,%d", wx, ww, wy, wh)); ow = 1 + r.below(400); oh = 1 + r.below(400); bool pc = r.chance(0.3); if (pc) { int a = 1 + r.below(200), b = 1 + r.below(200); ow = (int)((double)a / 100 * ww); oh = (int)((double)b / 100 * wh); args.push_back(fmt("--resize=%d%%,%d%%", a, b)); if (ow < 1 || oh < 1) fail = true; } else args.push_back(fmt("--resize=%d,%d", ow, oh)); desc = "resize"; if (r.chance(0.2)) { static const std::vector<const char*> B = { ",5", "5,", "0,5", "5,-1", "x,y", "1e20,5", ",", "5" }; args.back() = std::string("--resize=") + r.pick(B); fail = true; desc = "resize refused"; } }
        if (how != 3) { ow = ww; oh = wh; } args.push_back(name); vt::Out o = vt::run("MSAT", args, "work"); auto files = vt::files("work"); std::string line; for (auto& a : args) line += a + " ";
        sample("msat " + line); if (!VEXPECT(!o.crashed(), "crash", "msat %s: signal %d: %.300s", line.c_str(), o.sig, o.err.c_str())) { vt::clear("work"); continue; }
        // what the request encloses, by the published projection
        if (places) { bool hidden = false, edge = false; double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; for (int i = 0; i <= 60; ++i) for (int j = 0; j <= 60; ++j) { double a = la[0] + (la[1] - la[0]) * i / 60, b = lo[0] + (lo[1] - lo[0]) * j / 60, x, y; if (!gp::forward(a, b - sub, x, y)) { hidden = true; continue; } double u, v; if (!gp::inverse(x * 1.002, y * 1.002, u, v)) edge = true; double fx = x / step + half - gx, fy = half - y / step - gy; x0 = std::min(x0, fx); x1 = std::max(x1, fx); y0 = std::min(y0, fy); y1 = std::max(y1, fy); }
            if (edge && !hidden) { vt::clear("work"); obs("command", "grazing"); continue; }
            bool inside = !hidden && x0 > 0.6 && y0 > 0.6 && x1 < W - 1.6 && y1 < H - 1.6, touches = x1 > -0.4 && y1 > -0.4 && x0 < W - 0.6 && y0 < H - 0.6; desc += hidden ? " partly hidden" : inside ? "" : touches ? " across the border" : " beyond the image"; obs("command", fmt("%s %s %s", grib ? "GRIB" : "xRIT", drv, desc.c_str()));
            if (inside) { if (!VEXPECT(o.status == 0 && files.size() >= 1, "area-refused", "msat %s: pixels %.1f..%.1f %.1f..%.1f: exit %d: %.200s", line.c_str(), x0, x1, y0, y1, o.status, o.err.c_str())) { vt::clear("work"); continue; } }
            else if (o.status != 0) { VEXPECT(files.empty() && !o.err.empty(), "refused-quietly", "msat %s: exit %d with %d files, says '%.100s'", line.c_str(), o.status, (int)files.size(), o.err.c_str()); vt::clear("work"); continue; }
            std::string fn = files.begin()->first; vg::DS out = vg::open("work/" + fn); if (!VEXPECT(out != nullptr, "output", "msat %s: %s", line.c_str(), CPLGetLastErrorMsg())) { vt::clear("work"); continue; } double og[6]; out->GetGeoTransform(og); double ox = (og[0] - gt[0]) / gt[1], oy = (og[3] - gt[3]) / gt[5]; ow = out->GetRasterXSize(); oh = out->GetRasterYSize();
            wx = lrint(ox); wy = lrint(oy); ww = ow; wh = oh; VEXPECT(std::fabs(ox - wx) < 1e-4 && std::fabs(oy - wy) < 1e-4 && close_rel(og[1], gt[1], 1e-9) && close_rel(og[5], gt[5], 1e-9) && wx >= 0 && wy >= 0 && wx + ww <= W && wy + wh <= H, "area-place", "msat %s: upper left %.4f,%.4f %dx%d", line.c_str(), ox, oy, ow, oh);
            double cx0 = std::max(x0, -0.5), cy0 = std::max(y0, -0.5), cx1 = std::min(x1, W - 0.5), cy1 = std::min(y1, H - 0.5); VEXPECT(wx - 0.5 <= cx0 + 0.15 && wy - 0.5 <= cy0 + 0.15 && wx + ww - 0.5 >= cx1 - 0.15 && wy + wh - 0.5 >= cy1 - 0.15, "area-incomplete", "msat %s: pixels %.2f to %.2f by %.2f to %.2f are asked for, %d to %d by %d to %d given", line.c_str(), x0, x1, y0, y1, wx, wx + ww - 1, wy, wy + wh - 1); VEXPECT(wx >= cx0 - 2 && wy >= cy0 - 2 && wx + ww - 1 <= cx1 + 2 && wy + wh - 1 <= cy1 + 2, "area-excessive", "msat %s: pixels %.2f to %.2f by %.2f to %.2f are asked for, %d to %d by %d to %d given", line.c_str(), x0, x1, y0, y1, wx, wx + ww - 1, wy, wy + wh - 1);
        } else { obs("command", fmt("%s %s %s", grib ? "GRIB" : "xRIT", drv, desc.c_str()));
            if (fail) { VEXPECT(o.status > 0 && files.empty() && !o.err.empty(), "not-refused", "msat %s: exit %d with %d files, says '%.100s'", line.c_str(), o.status, (int)files.size(), o.err.c_str()); vt::clear("work"); continue; }
            if (!VEXPECT(o.status == 0 && files.size() >= 1, "refused", "msat %s: exit %d: %.200s", line.c_str(), o.status, o.err.c_str())) { vt::clear("work"); continue; } }
        std::string fn = files.begin()->first; vg::DS out = vg::open("work/" + fn); if (VEXPECT(out != nullptr, "output", "msat %s: %s", line.c_str(), CPLGetLastErrorMsg())) {
            double og[6]; out->GetGeoTransform(og); GDALRasterBand *a = src->GetRasterBand(1), *b = out->GetRasterBand(1); VEXPECT(out->GetRasterXSize() == ow && out->GetRasterYSize() == oh && out->GetRasterCount() == 1, "size", "msat %s: %dx%d", line.c_str(), out->GetRasterXSize(), out->GetRasterYSize()); VEXPECT(std::fabs(og[0] - (gt[0] + wx * gt[1])) < 1e-3 && std::fabs(og[3] - (gt[3] + wy * gt[5])) < 1e-3 && close_rel(og[1], gt[1] * ww / ow, 1e-9) && close_rel(og[5], gt[5] * wh / oh, 1e-9), "corner", "msat %s: %.3f %.4f %.3f %.4f", line.c_str(), og[0], og[1], og[3], og[5]);
            VEXPECT(close_rel(b->GetScale(), a->GetScale(), 1e-12) && close_rel(b->GetOffset(), a->GetOffset(), 1e-12, 1e-12) && b->GetNoDataValue() == a->GetNoDataValue() && b->GetRasterDataType() == a->GetRasterDataType(), "scale", "msat %s: %g %g %g", line.c_str(), b->GetScale(), b->GetOffset(), b->GetNoDataValue()); for (auto key : { MD_MSAT_DATETIME, MD_MSAT_SPACECRAFT_ID }) { const char *u = src->GetMetadataItem(key, MD_DOMAIN_MSAT), *v = out->GetMetadataItem(key, MD_DOMAIN_MSAT); VEXPECT(u && v && !strcmp(u, v), "metadata", "msat %s: %s is %s, not %s", line.c_str(), key, v ? v : "missing", u ? u : "missing"); } if (!strcmp(drv, "VRT")) VEXPECT(out->GetSpatialRef() && out->GetSpatialRef()->IsSame(src->GetSpatialRef()), "projection", "msat %s: changed", line.c_str());
            std::vector<double> S((size_t)ww * wh), O; if (a->RasterIO(GF_Read, wx, wy, ww, wh, S.data(), ww, wh, GDT_Float64, 0, 0, nullptr) == CE_None && VEXPECT(read_all(out.get(), O), "output-read", "msat %s: %s", line.c_str(), CPLGetLastErrorMsg())) { bool same = ow == ww && oh == wh; if (same) { size_t bad = 0, at = 0; for (size_t i = 0; i < O.size(); ++i) if (O[i] != S[i]) { if (!bad++) at = i; } VEXPECT(bad == 0, "value", "msat %s: %d pixels differ, first %d,%d: %g, not %g", line.c_str(), (int)bad, (int)(at % ow), (int)(at / ow), O[at], S[at]); } else for (int t = 0; t < 3000; ++t) { int x = r.below(ow), y = r.below(oh); bool ok = false; int cx = (int)((x + 0.5) * ww / ow), cy = (int)((y + 0.5) * wh / oh); for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { int X = cx + dx, Y = cy + dy; if (X >= 0 && Y >= 0 && X < ww && Y < wh && S[(size_t)Y * ww + X] == O[(size_t)y * ow + x]) ok = true; } VEXPECT(ok, "value", "msat %s: resized pixel %d,%d is %g", line.c_str(), x, y, O[(size_t)y * ow + x]); } }
        }
        out.reset(); vt::clear("work");
    }
    src.reset(); if (!grib) remove_product(p);
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough; setenv("GDAL_PAM_ENABLED", "YES", 1);
    add_group("translate", t ? 20000 : 1600, 40, 60, translate); add_group("options", t ? 10000 : 800, 20, 60, options); add_group("recode", t ? 8000 : 640, 20, 60, recode); add_group("calibrated", t ? 3000 : 320, 20, 60, calibrated); add_group("command", t ? 1500 : 120, 5, 120, command);
    return run_all();
}
