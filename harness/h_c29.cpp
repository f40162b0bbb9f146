// C29: an image written as NetCDF, in either layout, and read back is the same image
#include "synth.h"
#include "vgmem.h"
#include <netcdf.h>
#include <msat/facts.h>
#include <signal.h>
#include <sys/resource.h>
#include <cfloat>
using namespace xs; using namespace vf;
extern "C" { void GDALRegister_MsatNetCDF(); void GDALRegister_MsatNetCDF24(); }
static const char* DRV[2] = { "MsatNetCDF", "MsatNetCDF24" };
static const int SEV[4] = { 55, 56, 57, 70 };
static const char* SATN[4] = { "MSG1", "MSG2", "MSG3", "MSG4" };
static const char* CHN[13] = { "", "VIS006", "VIS008", "IR_016", "IR_039", "WV_062", "WV_073", "IR_087", "IR_097", "IR_108", "IR_120", "IR_134", "HRV" };
static const std::vector<GDALDataType> TYPES = { GDT_Byte, GDT_Int16, GDT_UInt16, GDT_Int32, GDT_UInt32, GDT_Float32, GDT_Float64 };
static void start() { static bool once = false; if (once) return; once = true; vg::init(); GDALRegister_MEM(); GDALRegister_MsatNetCDF(); GDALRegister_MsatNetCDF24(); }
static std::string md(GDALMajorObject* o, const char* k) { const char* s = o->GetMetadataItem(k, MD_DOMAIN_MSAT); return s ? s : "(none)"; }
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static void range_of(GDALDataType t, double& lo, double& hi) { switch (t) { case GDT_Byte: lo = 0; hi = 255; break; case GDT_Int16: lo = -32768; hi = 32767; break; case GDT_UInt16: lo = 0; hi = 65535; break; case GDT_Int32: lo = -2147483648.0; hi = 2147483647; break; case GDT_UInt32: lo = 0; hi = 4294967295.0; break; case GDT_Float32: lo = -3e38; hi = 3e38; break; default: lo = -1e300; hi = 1e300; } }
static double value(GDALDataType t, Rng& r) { double lo, hi; range_of(t, lo, hi); if (t >= GDT_Float32) { double v = r.chance(0.05) ? lo : r.chance(0.05) ? hi : r.chance(0.05) ? 0 : r.real(-400, 400); return t == GDT_Float32 ? (float)v : v; } return r.chance(0.1) ? lo : r.chance(0.1) ? hi : r.chance(0.5) ? std::floor(r.real(lo, hi)) : (double)r.below(200); }
struct Band { std::string name, unit; double scale = 1, offset = 0, nodata = 0; bool hasnd = false; int ch = 0; std::vector<double> v; };
struct Src { vg::DS ds; int w, h, x0, y0, step; bool hrv; int sat; double lon, psx; std::string time; GDALDataType type; std::vector<Band> b; };
static std::string anytime(Rng& r) { static const int L[12] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; int y = 2000 + r.below(37), m = r.below(12), d = L[m] + (m == 1 && y % 4 == 0); return fmt("%04d-%02d-%02d %02d:%02d:%02d", y, m + 1, 1 + (int)(r.chance(0.2) ? d - 1 : r.below(d)), (int)r.below(24), (int)r.below(60), (int)r.below(60)); }
static double seconds2000(const std::string& t) { int y, m, d, H, M, S; sscanf(t.c_str(), "%d-%d-%d %d:%d:%d", &y, &m, &d, &H, &M, &S); static const int C[12] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 }; double days = 365.0 * (y - 2000) + (y - 2000 + 3) / 4 + C[m - 1] + (m > 2 && y % 4 == 0) + d - 1; return days * 86400 + H * 3600 + M * 60 + S; }
static void make(Src& s, Rng& r, int f) {
    s.type = r.pick(TYPES); s.hrv = r.chance(0.3); s.step = f == 0 && r.chance(0.2) ? 2 : 1; int full = s.hrv ? 11136 : 3712, mx = r.chance(0.1) ? 300 : 40; s.w = 1 + r.below(mx); s.h = 1 + r.below(mx); s.x0 = r.below(full / s.step - s.w + 1) * s.step; s.y0 = r.below(full / s.step - s.h + 1) * s.step; if (r.chance(0.1)) s.x0 = s.y0 = 0;
    s.sat = r.below(f ? 2 : 4); static const std::vector<double> LON = { 0, 9.5, -3.5, 41.5, 57, -135, 179.9, -179.9, 180 }; s.lon = r.chance(0.6) ? r.pick(LON) : std::round(r.real(-180, 180) * 100) / 100; s.time = anytime(r); s.psx = (s.hrv ? vg::PSH : vg::PS) * s.step;
    s.ds.reset(GetGDALDriverManager()->GetDriverByName("MEM")->Create("", s.w, s.h, 0, s.type, nullptr)); double half = s.hrv ? 5568 : 1856, gt[6] = { (s.x0 - half) * s.psx / s.step, s.psx, 0, (half - s.y0) * s.psx / s.step, 0, -s.psx }; s.ds->SetGeoTransform(gt); OGRSpatialReference sr = vg::geos(s.lon); s.ds->SetSpatialRef(&sr);
    s.ds->SetMetadataItem(MD_MSAT_DATETIME, s.time.c_str(), MD_DOMAIN_MSAT); s.ds->SetMetadataItem(MD_MSAT_SPACECRAFT_ID, fmt("%d", SEV[s.sat]).c_str(), MD_DOMAIN_MSAT); s.ds->SetMetadataItem(MD_MSAT_SPACECRAFT, SATN[s.sat], MD_DOMAIN_MSAT); if (r.chance(0.5)) s.ds->SetDescription("a title");
    int n = 1 + (r.chance(0.4) ? r.below(3) : 0); s.b.resize(n); for (int i = 0; i < n; ++i) {
        Band& b = s.b[i]; s.ds->AddBand(s.type, nullptr); GDALRasterBand* rb = s.ds->GetRasterBand(i + 1); if (r.chance(0.8)) { b.ch = 1 + r.below(12); b.name = CHN[b.ch] + (i ? fmt("_%d", i) : std::string()); rb->SetMetadataItem(MD_MSAT_CHANNEL_ID, fmt("%d", b.ch).c_str(), MD_DOMAIN_MSAT); } else b.name = fmt("product %d", i); rb->SetDescription(b.name.c_str());
        if (r.chance(0.6)) { b.scale = r.real(0.001, 2); b.offset = r.chance(0.2) ? 1 : r.real(-50, 50); } rb->SetScale(b.scale); rb->SetOffset(b.offset); b.unit = r.chance(0.3) ? "" : r.chance(0.5) ? "K" : "mW m^-2 sr^-1 (cm^-1)^-1"; rb->SetUnitType(b.unit.c_str());
        b.v.resize((size_t)s.w * s.h); for (auto& x : b.v) x = value(s.type, r); if (r.chance(0.6)) { b.hasnd = true; b.nodata = r.chance(0.1) && s.type >= GDT_Float32 ? NAN : value(s.type, r); for (auto& x : b.v) if (r.chance(0.1)) x = b.nodata; rb->SetNoDataValue(b.nodata); }
        if (rb->RasterIO(GF_Write, 0, 0, s.w, s.h, b.v.data(), s.w, s.h, GDT_Float64, 0, 0, nullptr) != CE_None) _exit(96);
    }
}
static void compare(GDALDataset* o, const Src& s, int f, const char* W, bool copy) {
    if (!VEXPECT(o->GetRasterXSize() == s.w && o->GetRasterYSize() == s.h && o->GetRasterCount() == (int)s.b.size(), "size", "%s: %dx%d with %d bands, not %dx%d with %zu", W, o->GetRasterXSize(), o->GetRasterYSize(), o->GetRasterCount(), s.w, s.h, s.b.size())) return;
    VEXPECT(md(o, MD_MSAT_SPACECRAFT_ID) == fmt("%d", SEV[s.sat]) && md(o, MD_MSAT_SPACECRAFT) == SATN[s.sat], "spacecraft", "%s: %s %s, not %d", W, md(o, MD_MSAT_SPACECRAFT_ID).c_str(), md(o, MD_MSAT_SPACECRAFT).c_str(), SEV[s.sat]); VEXPECT(md(o, MD_MSAT_DATETIME) == s.time, "time", "%s: %s, not %s", W, md(o, MD_MSAT_DATETIME).c_str(), s.time.c_str());
    const OGRSpatialReference* sr = o->GetSpatialRef(); VEXPECT(sr && sr->GetProjParm(SRS_PP_SATELLITE_HEIGHT) == 35785831 && std::fabs(remainder(sr->GetProjParm(SRS_PP_CENTRAL_MERIDIAN, 999) - s.lon, 360)) < 1e-4 && std::fabs(sr->GetSemiMajor() - 6378169) < 1 && std::fabs(sr->GetSemiMinor() - 6356583.8) < 1, "projection", "%s: satellite at %.7f, not %.7f", W, sr ? sr->GetProjParm(SRS_PP_CENTRAL_MERIDIAN, 999) : 999, s.lon);
    double half = s.hrv ? 5568 : 1856, gt[6] = {}, want[6] = { (s.x0 - half) * s.psx / s.step, s.psx, 0, (half - s.y0) * s.psx / s.step, 0, -s.psx }; bool ok = o->GetGeoTransform(gt) == CE_None; double rel = f ? 2.5e-4 : s.step == 1 ? 1e-9 : 1e-6; for (int i = 0; i < 6 && ok; ++i) ok = std::fabs(gt[i] - want[i]) <= std::fabs(want[i]) * rel + (i % 3 ? 1e-9 : 1e-3); VEXPECT(ok, "georeference", "%s%s at %d,%d: %.4f %.6f %g %.4f %g %.6f, not %.4f %.6f %.4f %.6f", W, s.hrv ? " HRV" : "", s.x0, s.y0, gt[0], gt[1], gt[2], gt[3], gt[4], gt[5], want[0], want[1], want[3], want[5]);
    for (size_t i = 0; i < s.b.size(); ++i) {
        const Band& b = s.b[i]; GDALRasterBand* rb = o->GetRasterBand(i + 1); VEXPECT(rb->GetRasterDataType() == s.type, "type", "%s: %s, not %s", W, GDALGetDataTypeName(rb->GetRasterDataType()), GDALGetDataTypeName(s.type)); VEXPECT(b.name == rb->GetDescription(), "name", "%s: '%s', not '%s'", W, rb->GetDescription(), b.name.c_str()); VEXPECT(b.unit == rb->GetUnitType(), "unit", "%s: '%s', not '%s'", W, rb->GetUnitType(), b.unit.c_str());
        VEXPECT(rb->GetScale() == b.scale && rb->GetOffset() == b.offset, "scale", "%s: scale %.17g offset %.17g, not %.17g %.17g", W, rb->GetScale(), rb->GetOffset(), b.scale, b.offset); if (b.ch) VEXPECT(md(rb, MD_MSAT_CHANNEL_ID) == fmt("%d", b.ch) && md(rb, MD_MSAT_CHANNEL) == CHN[b.ch], "channel", "%s: %s %s, not %d", W, md(rb, MD_MSAT_CHANNEL_ID).c_str(), md(rb, MD_MSAT_CHANNEL).c_str(), b.ch); else VEXPECT(md(rb, MD_MSAT_CHANNEL_ID) == "(none)", "channel", "%s: channel %s", W, md(rb, MD_MSAT_CHANNEL_ID).c_str());
        int hn = 0; double nd = rb->GetNoDataValue(&hn); if (b.hasnd) VEXPECT(hn && same(nd, b.nodata), "nodata", "%s %s: %s %.17g, not %.17g", W, GDALGetDataTypeName(s.type), hn ? "it is" : "none", nd, b.nodata); else if (hn) VEXPECT(same(nd, msat::facts::defaultPackedMissing(b.ch)), "nodata", "%s %s: %.17g, where the source has none", W, GDALGetDataTypeName(s.type), nd);
        std::vector<double> g((size_t)s.w * s.h, 7e9); if (!VEXPECT(rb->RasterIO(GF_Read, 0, 0, s.w, s.h, g.data(), s.w, s.h, GDT_Float64, 0, 0, nullptr) == CE_None, "read", "%s: %s", W, CPLGetLastErrorMsg())) continue; for (size_t n = 0; n < g.size(); ++n) if (!VEXPECT(same(g[n], b.v[n]), "value", "%s %s: band %zu pixel %zu is %.17g, not %.17g", W, GDALGetDataTypeName(s.type), i + 1, n, g[n], b.v[n])) break; evals(g.size());
    }
    (void)copy;
}
// the file itself, read without the code under test
static void file(const char* path, const Src& s, const char* W) {
    int nc, v; if (!VEXPECT(nc_open(path, NC_NOWRITE, &nc) == NC_NOERR, "file", "%s: not a NetCDF file", W)) return; double t = 0; VEXPECT(nc_inq_varid(nc, "time", &v) == NC_NOERR && nc_get_var_double(nc, v, &t) == NC_NOERR && t == seconds2000(s.time), "file-time", "%s: %.0f seconds since 2000 for %s, not %.0f", W, t, s.time.c_str(), seconds2000(s.time));
    for (auto& b : s.b) {
        if (!VEXPECT(nc_inq_varid(nc, b.name.c_str(), &v) == NC_NOERR, "file-variable", "%s: no variable '%s'", W, b.name.c_str())) continue; int nd = 0, ids[NC_MAX_VAR_DIMS]; size_t len[3] = {}; nc_inq_varndims(nc, v, &nd); if (nd == 3) { nc_inq_vardimid(nc, v, ids); for (int i = 0; i < 3; ++i) nc_inq_dimlen(nc, ids[i], len + i); } if (!VEXPECT(nd == 3 && len[0] == 1 && (int)len[1] == s.h && (int)len[2] == s.w, "file-dimensions", "%s: %zux%zux%zu", W, len[0], len[1], len[2])) continue;
        std::vector<double> g((size_t)s.w * s.h); nc_get_var_double(nc, v, g.data()); double span = s.type == GDT_Byte ? 256 : s.type == GDT_UInt16 ? 65536 : s.type == GDT_UInt32 ? 4294967296.0 : 0; for (size_t i = 0; i < g.size(); ++i) { double x = g[i]; if (span && x < 0) x += span; if (!VEXPECT(same(x, b.v[i]), "file-value", "%s: pixel %zu is %.17g, not %.17g", W, i, x, b.v[i])) break; }
        double a = 0; VEXPECT(nc_get_att_double(nc, v, "scale_factor", &a) == NC_NOERR && a == b.scale, "file-scale", "%s: %g", W, a); VEXPECT(nc_get_att_double(nc, v, "add_offset", &a) == NC_NOERR && a == b.offset, "file-offset", "%s: %g", W, a); if (span) { char u[16] = ""; nc_get_att_text(nc, v, "_Unsigned", u); VEXPECT(!strncmp(u, "true", 4), "file-unsigned", "%s: '%s'", W, u); }
    }
    nc_close(nc);
}
static vg::DS encode(const char* f, GDALDataset* d, int which) { unlink(f); CPLErrorReset(); return vg::DS(GetGDALDriverManager()->GetDriverByName(DRV[which])->CreateCopy(f, d, TRUE, nullptr, nullptr, nullptr)); }
static void roundtrip(uint64_t idx, Rng& r) {
    start(); int f = idx % 2; Src s; make(s, r, f); std::string W = fmt("%s", DRV[f]); note(fmt("%s %dx%d at %d,%d%s of %s sat %d lon %g %s %zu bands", DRV[f], s.w, s.h, s.x0, s.y0, s.hrv ? " HRV" : "", GDALGetDataTypeName(s.type), SEV[s.sat], s.lon, s.time.c_str(), s.b.size()));
    static const char* TZ[4] = { nullptr, "UTC", "Europe/Rome", "XYZ5" }; const char* tz = TZ[r.below(4)]; if (tz) setenv("TZ", tz, 1); else unsetenv("TZ"); tzset();
    vg::DS o = encode("x.nc", s.ds.get(), f); const char* now = getenv("TZ"); VEXPECT(tz ? now && !strcmp(now, tz) : !now, "environment", "TZ is %s, not %s", now ? now : "unset", tz ? tz : "unset");
    if (!VEXPECT(o != nullptr, "refused", "%s: %s", W.c_str(), CPLGetLastErrorMsg())) return; compare(o.get(), s, f, W.c_str(), false); obs("image", fmt("%s %s %s%s%s", DRV[f], GDALGetDataTypeName(s.type), s.hrv ? "HRV " : "", s.b[0].hasnd ? "nodata " : "", s.b.size() > 1 ? "bands" : ""));
    // windows of it
    for (int k = 0; k < 4; ++k) { const Band& b = s.b[r.below(s.b.size())]; GDALRasterBand* rb = o->GetRasterBand(&b - &s.b[0] + 1); int w = 1 + r.below(s.w), h = 1 + r.below(s.h), x = r.below(s.w - w + 1), y = r.below(s.h - h + 1); if (r.chance(0.4)) rb->FlushCache(false); std::vector<double> g((size_t)w * h); bool ok = rb->RasterIO(GF_Read, x, y, w, h, g.data(), w, h, GDT_Float64, 0, 0, nullptr) == CE_None; for (int j = 0; ok && j < h; ++j) for (int i = 0; ok && i < w; ++i) ok = same(g[(size_t)j * w + i], b.v[(size_t)(y + j) * s.w + x + i]); VEXPECT(ok, "window", "%s: window %d,%d %dx%d differs", W.c_str(), x, y, w, h); }
    o.reset(); file("x.nc", s, W.c_str());
    // and once more, from the file
    vg::DS first = vg::open("x.nc"); if (!VEXPECT(first != nullptr, "open", "%s: %s", W.c_str(), CPLGetLastErrorMsg())) return; int g = f == 1 ? 0 : s.sat < 2 && s.step == 1 ? r.below(2) : 0; if (f == 1) for (auto& b : s.b) if (!b.hasnd) { b.hasnd = false; }
    bool defaults = false; for (auto& b : s.b) defaults |= !b.hasnd && b.ch; if (!defaults && (f == 0 || g == 1)) { vg::DS o2 = encode("y.nc", first.get(), g); if (VEXPECT(o2 != nullptr, "refused-again", "%s as %s: %s", W.c_str(), DRV[g], CPLGetLastErrorMsg())) compare(o2.get(), s, g, fmt("%s from %s", DRV[g], DRV[f]).c_str(), true); } unlink("x.nc"); unlink("y.nc");
}
// what the format cannot hold is refused, and says so
static void refused(uint64_t idx, Rng& r) {
    start(); int f = idx % 2, k = idx / 2 % 14; Src s; make(s, r, f); s.ds->GetRasterBand(1)->SetMetadataItem(MD_MSAT_CHANNEL_ID, "9", MD_DOMAIN_MSAT); double gt[6]; s.ds->GetGeoTransform(gt); OGRSpatialReference sr; vg::DS other; bool ok = false; GDALDataset* d = s.ds.get(); GDALDriver* mem = GetGDALDriverManager()->GetDriverByName("MEM");
    static const char* WHAT[14] = { "rotated", "rotated too", "no projection", "other projection", "other height", "no georeference", "complex values", "no name", "name twice", "name of another variable", "name no variable can have", "absurd longitude", "bad time", "no directory" }; const char* path = "x.nc"; std::string W = fmt("%s, %s", DRV[f], WHAT[k]); note(W);
    switch (k) {
        case 0: gt[2] = 10; s.ds->SetGeoTransform(gt); break; case 1: gt[4] = -3; s.ds->SetGeoTransform(gt); break; case 2: s.ds->SetSpatialRef(nullptr); break; case 3: sr.importFromEPSG(32632); s.ds->SetSpatialRef(&sr); break; case 4: sr.SetGEOS(0, 36000000, 0, 0); s.ds->SetSpatialRef(&sr); break;
        case 5: case 6: other.reset(mem->Create("", 5, 5, 1, k == 5 ? GDT_Byte : GDT_CFloat32, nullptr)); other->SetSpatialRef(s.ds->GetSpatialRef()); if (k == 6) other->SetGeoTransform(gt); other->GetRasterBand(1)->SetDescription("b"); other->GetRasterBand(1)->SetMetadataItem(MD_MSAT_CHANNEL_ID, "9", MD_DOMAIN_MSAT); other->SetMetadata(s.ds->GetMetadata(MD_DOMAIN_MSAT), MD_DOMAIN_MSAT); d = other.get(); if (k == 5 ) { double q[6]; if (d->GetGeoTransform(q) == CE_None) ok = true; } break;
        case 7: s.ds->GetRasterBand(1)->SetDescription(""); break; case 8: s.ds->AddBand(s.type, nullptr); s.ds->GetRasterBand(s.ds->GetRasterCount())->SetDescription(s.b[0].name.c_str()); break; case 9: s.ds->GetRasterBand(1)->SetDescription(f ? "Projection" : "time"); break; case 10: s.ds->GetRasterBand(1)->SetDescription("a/b"); break;
        case 11: sr.SetGEOS(r.chance(0.5) ? 1e30 : -1e12, 35785831, 0, 0); s.ds->SetSpatialRef(&sr); ok = true; break; case 12: s.ds->SetMetadataItem(MD_MSAT_DATETIME, r.chance(0.5) ? "yesterday" : "2010-13", MD_DOMAIN_MSAT); break; case 13: path = "none/x.nc"; break;
    }
    vg::DS o = encode(path, d, f); obs("refused", W); evals(1); if (!ok) { VEXPECT(!o, "accepted", "%s: written", W.c_str()); VEXPECT(o || CPLGetLastErrorType() == CE_Failure, "no-error", "%s: refused without an error", W.c_str()); } o.reset(); unlink("x.nc");
}
// images on a grid of latitudes and longitudes
static void latlon(uint64_t, Rng& r) {
    start(); Src s; make(s, r, 0); double gt[6] = { r.real(-60, 0), r.real(0.01, 0.2), 0, r.real(20, 60), 0, -r.real(0.01, 0.2) }; s.ds->SetGeoTransform(gt); OGRSpatialReference sr; sr.SetWellKnownGeogCS("WGS84"); sr.SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER); s.ds->SetSpatialRef(&sr); note(fmt("%dx%d from %g %g by %g %g", s.w, s.h, gt[0], gt[3], gt[1], gt[5]));
    vg::DS o = encode("x.nc", s.ds.get(), 0); if (!VEXPECT(o != nullptr, "refused", "latlon: %s", CPLGetLastErrorMsg())) return; for (size_t i = 0; i < s.b.size(); ++i) { std::vector<double> g((size_t)s.w * s.h); GDALRasterBand* rb = (int)i < o->GetRasterCount() ? o->GetRasterBand(i + 1) : nullptr; if (!VEXPECT(rb && o->GetRasterXSize() == s.w && o->GetRasterYSize() == s.h && rb->RasterIO(GF_Read, 0, 0, s.w, s.h, g.data(), s.w, s.h, GDT_Float64, 0, 0, nullptr) == CE_None, "latlon-read", "%s", CPLGetLastErrorMsg())) continue; for (size_t n = 0; n < g.size(); ++n) if (!VEXPECT(same(g[n], s.b[i].v[n]), "value", "latlon: pixel %zu is %g, not %g", n, g[n], s.b[i].v[n])) break; }
    double q[6]; bool has = o->GetGeoTransform(q) == CE_None; const OGRSpatialReference* so = o->GetSpatialRef(); if (has) for (int i = 0; i < 6; ++i) VEXPECT(std::fabs(q[i] - gt[i]) < 1e-4, "latlon-georeference", "coefficient %d is %.9g, not %.9g", i, q[i], gt[i]); VEXPECT(!so || so->IsGeographic(), "latlon-projection", "a grid of latitudes and longitudes is read as %s", so && so->GetAttrValue("PROJECTION") ? so->GetAttrValue("PROJECTION") : "something else"); o.reset();
    file("x.nc", s, "latlon"); int nc, v; if (nc_open("x.nc", NC_NOWRITE, &nc) == NC_NOERR) { std::vector<float> a(s.w), b(s.h); bool ok = nc_inq_varid(nc, "longitude", &v) == NC_NOERR && nc_get_var_float(nc, v, a.data()) == NC_NOERR && nc_inq_varid(nc, "latitude", &v) == NC_NOERR && nc_get_var_float(nc, v, b.data()) == NC_NOERR; VEXPECT(ok, "latlon-axes", "no axes"); if (ok) { double dx = a[0] - gt[0], dy = b[0] - gt[3]; VEXPECT(std::fabs(dx) <= std::fabs(gt[1]) * 0.51 + 1e-5 && std::fabs(dy) <= std::fabs(gt[5]) * 0.51 + 1e-5, "latlon-origin", "axes start at %g %g, the image at %g %g", a[0], b[0], gt[0], gt[3]); for (int i = 0; i < s.w; ++i) if (!VEXPECT(std::fabs(a[i] - a[0] - i * gt[1]) < 2e-5, "latlon-longitude", "column %d is at %g, the first at %g", i, a[i], a[0])) break; for (int i = 0; i < s.h; ++i) if (!VEXPECT(std::fabs(b[i] - b[0] - i * gt[5]) < 2e-5, "latlon-latitude", "line %d is at %g, the first at %g", i, b[i], b[0])) break; } nc_close(nc); } obs("latlon", GDALGetDataTypeName(s.type)); unlink("x.nc");
}
// other people's files: anything may be missing or of another kind
static void others(uint64_t idx, Rng& r) {
    start(); int f = idx % 2, nc; std::string how; unlink("o.nc"); if (nc_create("o.nc", NC_CLOBBER | (r.chance(0.2) ? NC_NETCDF4 : r.chance(0.2) ? NC_64BIT_OFFSET : 0), &nc) != NC_NOERR) { viol("harness", "no file"); return; }
    auto att = [&](int v, const char* n, double x) { if (r.chance(0.12)) { how += fmt("no %s; ", n); return; } if (r.chance(0.08)) { how += fmt("text %s; ", n); const char* T[] = { "", "x", "1", "a long text that is not a number at all" }; const char* t = T[r.below(4)]; nc_put_att_text(nc, v, n, strlen(t), t); return; } if (r.chance(0.08)) { static const std::vector<double> B = { 0, -1, 1e9, -2147483648.0, 2147483647, 1e30, NAN, 4294967296.0 }; x = r.pick(B); how += fmt("%s=%g; ", n, x); } if (r.chance(0.05)) { how += fmt("empty %s; ", n); nc_put_att_double(nc, v, n, NC_DOUBLE, 0, &x); return; } if (r.chance(0.5) && std::fabs(x) < 2e9) { int i = x; nc_put_att_int(nc, v, n, NC_INT, 1, &i); } else nc_put_att_double(nc, v, n, NC_DOUBLE, 1, &x); };
    auto txt = [&](int v, const char* n, const char* t) { if (r.chance(0.12)) { how += fmt("no %s; ", n); return; } std::string s = t; if (r.chance(0.1)) { s = std::string(r.below(400), r.chance(0.5) ? '9' : 'a'); how += fmt("%s of %zu; ", n, s.size()); } if (r.chance(0.05)) { double d = 3; nc_put_att_double(nc, v, n, NC_DOUBLE, 1, &d); how += fmt("number %s; ", n); return; } nc_put_att_text(nc, v, n, s.size(), s.data()); };
    int t, l, c, l2; nc_def_dim(nc, "time", r.chance(0.8) ? NC_UNLIMITED : 1 + r.below(2), &t); nc_def_dim(nc, "line", 1 + r.below(30), &l); nc_def_dim(nc, "column", 1 + r.below(30), &c); nc_def_dim(nc, "other", 1 + r.below(40), &l2);
    if (f == 0) { txt(NC_GLOBAL, "Satellite", r.chance(0.8) ? "MSG2" : "Hubble"); txt(NC_GLOBAL, "Time", "2010-01-19 12:00:00 UTC"); att(NC_GLOBAL, "SampleX", 1); att(NC_GLOBAL, "SampleY", 1); att(NC_GLOBAL, "Orbit_Radius", 42164); att(NC_GLOBAL, "Longitude", 9.5); att(NC_GLOBAL, "AreaStartPix", 100); att(NC_GLOBAL, "AreaStartLin", 200); att(NC_GLOBAL, "Column_Offset", 1856); att(NC_GLOBAL, "Line_Offset", 1856); att(NC_GLOBAL, "Column_Scale_Factor", 13642337); att(NC_GLOBAL, "Line_Scale_Factor", 13642337); txt(NC_GLOBAL, "Version", r.chance(0.5) ? "0" : "1.36"); }
    else { att(NC_GLOBAL, "GribEditionNumber", 1); att(NC_GLOBAL, "LevelType", 55); att(NC_GLOBAL, "SatelliteID", 55); for (auto n : { "Year", "Month", "Day", "Hour", "Minute", "Second" }) att(NC_GLOBAL, n, 10); int v; if (r.chance(0.85)) { nc_def_var(nc, "Projection", NC_INT, 0, nullptr, &v); att(v, "Lop", 0); att(v, "Xp", 1856); att(v, "Yp", 1856); att(v, "X0", 10); att(v, "Y0", 20); att(v, "DX", 3622); att(v, "DY", 3622); } else how += "no Projection; "; }
    int nv = r.below(4); for (int i = 0; i < nv; ++i) { static const std::vector<nc_type> T = { NC_BYTE, NC_CHAR, NC_SHORT, NC_INT, NC_FLOAT, NC_DOUBLE, NC_UBYTE, NC_USHORT, NC_UINT, NC_INT64, NC_UINT64, NC_STRING }; int d[5] = { t, l, c, l2, l2 }, n = 3; if (r.chance(0.2)) { n = r.below(5); how += fmt("%d dimensions; ", n); } if (r.chance(0.2)) { d[1 + r.below(2)] = l2; how += "another size; "; } if (r.chance(0.05)) { d[0] = l; how += "no time; "; } int v; if (nc_def_var(nc, i == 0 && r.chance(0.2) ? "time" : fmt("band%d", i).c_str(), r.pick(T), n, d, &v) != NC_NOERR) continue; att(v, f ? "L1" : "chnum", 1 + r.below(12)); att(v, "add_offset", 0); att(v, "scale_factor", 1); if (r.chance(0.5)) txt(v, "units", "K"); if (r.chance(0.5)) txt(v, "_Unsigned", "true"); if (r.chance(0.5)) att(v, "missing_value", 3); }
    nc_enddef(nc); if (r.chance(0.8)) for (int v = 0; v < nv + 1; ++v) { int nd = 0, ids[NC_MAX_VAR_DIMS]; nc_type ty; if (nc_inq_var(nc, v, nullptr, &ty, &nd, ids, nullptr) != NC_NOERR || nd < 1 || nd > 4 || ty == NC_STRING || ty == NC_CHAR) continue; size_t st[5] = {}, ct[5], tot = 1; for (int i = 0; i < nd; ++i) { nc_inq_dimlen(nc, ids[i], ct + i); if (!ct[i]) ct[i] = r.chance(0.8) ? 1 : 2; tot *= ct[i]; } std::vector<double> z(tot, 5); nc_put_vara_double(nc, v, st, ct, z.data()); } else how += "no records; "; nc_close(nc);
    if (r.chance(0.3)) { std::string b = read_file("o.nc"); size_t n = r.below(b.size() + 1); b.resize(n); write_file("o.nc", b); how += fmt("cut at %zu; ", n); } note(fmt("%s: %s", DRV[f], how.c_str()));
    CPLErrorReset(); vg::DS o = vg::open("o.nc"); evals(1); obs("other file", how.substr(0, how.find(';')) + (o ? " opened" : " refused")); if (!o) { unlink("o.nc"); return; } double gt[6]; o->GetGeoTransform(gt); if (const OGRSpatialReference* s = o->GetSpatialRef()) { char* w = nullptr; s->exportToWkt(&w); CPLFree(w); } md(o.get(), MD_MSAT_DATETIME);
    for (int i = 1; i <= o->GetRasterCount(); ++i) { GDALRasterBand* b = o->GetRasterBand(i); b->GetNoDataValue(); b->GetScale(); b->GetOffset(); (void)strlen(b->GetUnitType()); std::vector<double> g((size_t)b->GetXSize() * b->GetYSize()); if (b->GetXSize() > 0 && b->GetYSize() > 0) { CPLErr e = b->RasterIO(GF_Read, 0, 0, b->GetXSize(), b->GetYSize(), g.data(), b->GetXSize(), b->GetYSize(), GDT_Float64, 0, 0, nullptr); obs("other read", e == CE_None ? "read" : "refused"); } }
    if (r.chance(0.5)) { vg::DS c = encode("c.nc", o.get(), r.below(2)); unlink("c.nc"); } o.reset(); unlink("o.nc");
}
// products written by others, with all they need and different amounts of what they may have
static void product(uint64_t idx, Rng& r) {
    start(); int f = idx % 2, nc, v, dim[3]; unlink("p.nc"); if (nc_create("p.nc", NC_CLOBBER | (r.chance(0.2) ? NC_NETCDF4 : r.chance(0.2) ? NC_64BIT_OFFSET : 0), &nc) != NC_NOERR) { viol("harness", "no file"); return; } std::string how, time = anytime(r), want_time = time;
    auto txt = [&](int id, const char* n, const std::string& t) { nc_put_att_text(nc, id, n, t.size(), t.data()); }; auto num = [&](int id, const char* n, double x) { if (x == std::floor(x) && std::fabs(x) < 2e9 && r.chance(0.5)) { int i = x; nc_put_att_int(nc, id, n, NC_INT, 1, &i); } else nc_put_att_double(nc, id, n, NC_DOUBLE, 1, &x); };
    static const std::vector<std::pair<const char*, int>> SAT = { { "MSG1", 55 }, { "MSG2", 56 }, { "MSG3", 57 }, { "MSG4", 70 }, { "METEOSAT7", 54 }, { "MTSAT1", 171 }, { "NOAA15", 206 }, { "GOES10", 254 } }; auto sat = f ? SAT[r.below(2)] : r.pick(SAT); bool sev = sat.second >= 55 && sat.second <= 70, hrv = r.chance(0.3), geo = true, named = true, old = false; double lon = r.chance(0.3) ? 0 : std::round(r.real(-180, 180) * 2) / 2, psx = hrv ? vg::PSH : vg::PS; int off = hrv ? 5568 : 1856, x0 = r.below(3000), y0 = r.below(3000), w = 1 + r.below(40), h = 1 + r.below(40); int G = NC_GLOBAL;
    if (f == 0) {
        txt(G, "Satellite", sat.first); if (r.chance(0.9)) txt(G, "Time", time + " UTC"); else { want_time = "0000-00-00 00:00:00"; how += "no time "; } if (r.chance(0.5)) { num(G, "SampleX", 1); num(G, "SampleY", 1); } if (r.chance(0.5)) num(G, "Orbit_Radius", 42164); if (lon || r.chance(0.5)) num(G, "Longitude", lon); if (r.chance(0.9)) { num(G, "AreaStartPix", x0 + 1); num(G, "AreaStartLin", y0 + 1); } else { geo = false; how += "no area "; }
        if (off != 1856 || r.chance(0.5)) { num(G, "Column_Offset", off); num(G, "Line_Offset", off); } if (hrv || r.chance(0.5)) { int sg = r.chance(0.5) ? -1 : 1; num(G, "Column_Scale_Factor", sg * (hrv ? 40927000 : 13642337)); num(G, "Line_Scale_Factor", sg * (hrv ? 40927000 : 13642337)); } if (r.chance(0.5)) txt(G, "Version", r.chance(0.5) ? "1.0" : "0"); size_t l = 0; char b[16] = ""; old = nc_inq_attlen(nc, G, "Version", &l) != NC_NOERR || (nc_get_att_text(nc, G, "Version", b) == NC_NOERR && !strcmp(b, "0"));
    } else {
        num(G, "GribEditionNumber", 1); num(G, "LevelType", sat.second); if (r.chance(0.9)) num(G, "SatelliteID", sat.second); else { named = false; how += "no satellite "; } int y, m, d, H, M, S; sscanf(time.c_str(), "%d-%d-%d %d:%d:%d", &y, &m, &d, &H, &M, &S); num(G, "Year", y); num(G, "Month", m); num(G, "Day", d); num(G, "Hour", H); num(G, "Minute", M); if (S || r.chance(0.5)) num(G, "Second", S);
        nc_def_var(nc, "Projection", NC_INT, 0, nullptr, &v); num(v, "Lop", lon); num(v, "Xp", off); num(v, "Yp", off); num(v, "X0", x0 + 1); num(v, "Y0", y0 + 1); num(v, "DX", hrv ? 10867 : r.chance(0.5) ? 3608 : 3622); num(v, "DY", hrv ? 10867 : r.chance(0.5) ? 3608 : 3622);
    }
    nc_def_dim(nc, "time", r.chance(0.7) ? NC_UNLIMITED : 1, dim); nc_def_dim(nc, "line", h, dim + 1); nc_def_dim(nc, "column", w, dim + 2); if (r.chance(0.5)) { nc_def_var(nc, "time", NC_DOUBLE, 1, dim, &v); how += "time "; }
    struct B { std::string name, unit; int id, ch; GDALDataType t; double scale, offset, nd; bool hs, ho, hn; std::vector<double> v; }; std::vector<B> bs; int n = 1 + r.below(3); for (int i = 0; i < n; ++i) {
        if (r.chance(0.15)) { nc_def_var(nc, fmt("line%d", i).c_str(), NC_SHORT, 2, dim + 1, &v); how += "2 dimensions "; } B b; b.name = fmt("band%d", i); static const std::vector<nc_type> T = { NC_BYTE, NC_SHORT, NC_INT, NC_FLOAT, NC_DOUBLE }; nc_type ty = r.pick(T); bool un = ty <= NC_INT && r.chance(0.5); b.t = ty == NC_BYTE ? GDT_Byte : ty == NC_SHORT ? un ? GDT_UInt16 : GDT_Int16 : ty == NC_INT ? un ? GDT_UInt32 : GDT_Int32 : ty == NC_FLOAT ? GDT_Float32 : GDT_Float64; if (nc_def_var(nc, b.name.c_str(), ty, 3, dim, &b.id) != NC_NOERR) { viol("harness", "no variable"); nc_close(nc); return; }
        if (un) txt(b.id, "_Unsigned", "true"); else if (r.chance(0.3)) txt(b.id, "_Unsigned", "false"); auto store = [&](double x) { return un && b.t != GDT_Float64 ? b.t == GDT_Byte ? (double)(signed char)(unsigned char)x : b.t == GDT_UInt16 ? (double)(short)(unsigned short)x : (double)(int)(unsigned)x : x; };
        b.ch = r.chance(0.8) ? 1 + r.below(12) : 0; if (b.ch) num(b.id, f ? "L1" : "chnum", b.ch); b.hs = r.chance(0.6); b.ho = r.chance(0.6); b.scale = b.hs ? r.real(0.01, 3) : 1; b.offset = b.ho ? r.chance(0.3) ? 1 : r.real(-9, 9) : 0; if (b.hs) num(b.id, "scale_factor", b.scale); if (b.ho) num(b.id, "add_offset", b.offset); if (b.offset == 1 && old) { b.offset = 0; how += "offset 1 "; } if (r.chance(0.6)) { b.unit = r.chance(0.5) ? "K" : "mW m-2"; txt(b.id, "units", b.unit); }
        auto val = [&]() { double x = value(b.t, r); return b.t == GDT_Byte && !un ? (double)((int)x & 127) : x; }; b.hn = r.chance(0.6); b.nd = val(); double nd = store(b.nd); if (b.hn) { bool fill = r.chance(0.6); if (!fill && un) b.nd = nd = 7; if (fill) nc_put_att_double(nc, b.id, "_FillValue", ty, 1, &nd); if (!fill || r.chance(0.2)) { double o = fill ? 3 : nd; nc_put_att_double(nc, b.id, "missing_value", ty, 1, &o); } how += fill ? "fill " : "missing "; }
        b.v.resize((size_t)w * h); for (auto& x : b.v) x = b.hn && r.chance(0.1) ? b.nd : val(); bs.push_back(b); bs.back().id = b.id; if (un && b.t != GDT_Byte) how += "unsigned ";
    }
    nc_enddef(nc); for (auto& b : bs) { size_t st[3] = {}, ct[3] = { 1, (size_t)h, (size_t)w }; std::vector<double> z = b.v; nc_type ty; nc_inq_vartype(nc, b.id, &ty); for (auto& x : z) { if (ty == NC_BYTE && x > 127) x -= 256; if (b.t == GDT_UInt16 && x > 32767) x -= 65536; if (b.t == GDT_UInt32 && x > 2147483647.0) x -= 4294967296.0; } if (nc_put_vara_double(nc, b.id, st, ct, z.data()) != NC_NOERR) { viol("harness", "not written"); nc_close(nc); return; } } nc_close(nc);
    std::string W = fmt("%s product", DRV[f]); note(fmt("%s %s %dx%d at %d,%d lon %g: %s", W.c_str(), sat.first, w, h, x0, y0, lon, how.c_str())); vg::DS o = vg::open("p.nc"); if (!VEXPECT(o != nullptr, "product-refused", "%s: %s", W.c_str(), CPLGetLastErrorMsg())) return;
    if (!VEXPECT(o->GetRasterXSize() == w && o->GetRasterYSize() == h && o->GetRasterCount() == n, "product-size", "%s: %dx%d, %d bands, not %dx%d, %d", W.c_str(), o->GetRasterXSize(), o->GetRasterYSize(), o->GetRasterCount(), w, h, n)) return;
    VEXPECT(md(o.get(), MD_MSAT_SPACECRAFT_ID) == (named ? fmt("%d", sat.second) : "(none)") && md(o.get(), MD_MSAT_SPACECRAFT) == (named ? sat.first : "(none)"), "product-spacecraft", "%s: %s %s, not %s", W.c_str(), md(o.get(), MD_MSAT_SPACECRAFT_ID).c_str(), md(o.get(), MD_MSAT_SPACECRAFT).c_str(), sat.first); VEXPECT(md(o.get(), MD_MSAT_DATETIME) == want_time, "product-time", "%s: %s, not %s", W.c_str(), md(o.get(), MD_MSAT_DATETIME).c_str(), want_time.c_str());
    const OGRSpatialReference* sr = o->GetSpatialRef(); VEXPECT(sr && std::fabs(remainder(sr->GetProjParm(SRS_PP_CENTRAL_MERIDIAN, 999) - lon, 360)) < 1e-4 && sr->GetProjParm(SRS_PP_SATELLITE_HEIGHT) == 35785831, "product-projection", "%s: at %g, not %g", W.c_str(), sr ? sr->GetProjParm(SRS_PP_CENTRAL_MERIDIAN, 999) : 999, lon); double gt[6] = {}, want[6] = { (x0 - off) * psx, psx, 0, (off - y0) * psx, 0, -psx }; bool has = o->GetGeoTransform(gt) == CE_None; VEXPECT(has == geo, "product-georeference", "%s: %s a georeference", W.c_str(), has ? "has" : "lacks"); if (has && geo) for (int i = 0; i < 6; ++i) VEXPECT(std::fabs(gt[i] - want[i]) <= 1e-3, "product-georeference", "%s%s: coefficient %d is %.6f, not %.6f", W.c_str(), hrv ? " HRV" : "", i, gt[i], want[i]);
    for (int i = 0; i < n; ++i) { B& b = bs[i]; GDALRasterBand* rb = o->GetRasterBand(i + 1); int q = 9; VEXPECT(b.name == rb->GetDescription() && b.unit == rb->GetUnitType() && rb->GetRasterDataType() == b.t, "product-band", "%s: '%s' in '%s' of %s, not '%s' in '%s' of %s", W.c_str(), rb->GetDescription(), rb->GetUnitType(), GDALGetDataTypeName(rb->GetRasterDataType()), b.name.c_str(), b.unit.c_str(), GDALGetDataTypeName(b.t));
        VEXPECT(rb->GetScale(&q) == b.scale && q == b.hs && rb->GetOffset(&q) == b.offset && q == b.ho, "product-scale", "%s: %g %g, not %g %g (%s)", W.c_str(), rb->GetScale(), rb->GetOffset(), b.scale, b.offset, how.c_str()); VEXPECT(b.ch ? md(rb, MD_MSAT_CHANNEL_ID) == fmt("%d", b.ch) && (!(sev && named) || md(rb, MD_MSAT_CHANNEL) == CHN[b.ch]) : md(rb, MD_MSAT_CHANNEL_ID) == "(none)", "product-channel", "%s: %s %s, not %d", W.c_str(), md(rb, MD_MSAT_CHANNEL_ID).c_str(), md(rb, MD_MSAT_CHANNEL).c_str(), b.ch);
        double nd = rb->GetNoDataValue(&q); double wn = b.hn ? b.nd : msat::facts::defaultPackedMissing(b.ch); VEXPECT(q && same(nd, wn), "product-nodata", "%s %s: %.17g, not %.17g (%s)", W.c_str(), GDALGetDataTypeName(b.t), nd, wn, how.c_str()); std::vector<double> g((size_t)w * h); if (!VEXPECT(rb->RasterIO(GF_Read, 0, 0, w, h, g.data(), w, h, GDT_Float64, 0, 0, nullptr) == CE_None, "product-read", "%s: %s", W.c_str(), CPLGetLastErrorMsg())) continue; for (size_t k = 0; k < g.size(); ++k) if (!VEXPECT(same(g[k], b.v[k]), "product-value", "%s %s: pixel %zu is %.17g, not %.17g", W.c_str(), GDALGetDataTypeName(b.t), k, g[k], b.v[k])) break; evals(g.size()); obs("product", fmt("%s %s%s%s%s", DRV[f], GDALGetDataTypeName(b.t), hrv ? " HRV" : "", b.hn ? " nodata" : "", old ? " old" : "")); }
    sample(fmt("%s %s: %s", W.c_str(), sat.first, how.c_str())); o.reset(); unlink("p.nc");
}
// with too little room nothing incomplete is reported as written
static void room(uint64_t idx, Rng& r) {
    start(); int f = idx % 2; Src s; make(s, r, f); vg::DS o = encode("x.nc", s.ds.get(), f); if (!VEXPECT(o != nullptr, "refused", "%s: %s", DRV[f], CPLGetLastErrorMsg())) return; o.reset(); size_t full = read_file("x.nc").size(); signal(SIGXFSZ, SIG_IGN);
    for (int k = 0; k < 6; ++k) { size_t lim = k == 0 ? full - 1 : k == 1 ? full - 1 - r.below(std::min<size_t>(full - 1, 64)) : r.below(full); rlimit old, l; getrlimit(RLIMIT_FSIZE, &old); l = old; l.rlim_cur = lim; unlink("x.nc"); setrlimit(RLIMIT_FSIZE, &l); o = encode("x.nc", s.ds.get(), f); CPLErr e = (CPLErr)CPLGetLastErrorType(); setrlimit(RLIMIT_FSIZE, &old); evals(1); obs("room", fmt("%s %zu%%", DRV[f], lim * 10 / full * 10)); if (o) compare(o.get(), s, f, fmt("%s with room for %zu of %zu bytes", DRV[f], lim, full).c_str(), false); else VEXPECT(e == CE_Failure, "no-error", "%s fails silently with room for %zu of %zu bytes", DRV[f], lim, full); o.reset(); }
    unlink("x.nc");
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough;
    add_group("roundtrip", t ? 30000 : 3200, 20, 120, roundtrip); add_group("refused", t ? 2800 : 280, 28, 60, refused); add_group("latlon", t ? 2000 : 200, 10, 60, latlon); add_group("product", t ? 20000 : 2400, 20, 60, product); add_group("others", t ? 20000 : 2400, 40, 60, others); add_group("room", t ? 1000 : 80, 5, 60, room);
    return run_all();
}
