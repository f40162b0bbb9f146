// C11: georeferencing ties every pixel to its point on Earth
#include "synth.h"
#include "vgmem.h"
#include "gproj.h"
#include <msat/gdal/dataset.h>
using namespace xs; using namespace vf; namespace D = msat::dataset;

// one raster whose upper left pixel is x0,y0 of a grid with `half` lines above the satellite's point
static void check(GDALDataset* ds, int half, double ps, int x0, int y0, double sub, const char* what, Rng& r, double tol, int n) {
    double gt[6]; if (!VEXPECT(ds->GetGeoTransform(gt) == CE_None, "no-geotransform", "%s", what)) return; int w = ds->GetRasterXSize(), h = ds->GetRasterYSize(); double step = ps / 35785831.0;
    VEXPECT(gt[2] == 0 && gt[4] == 0 && close_rel(gt[1], ps, 3e-5) && close_rel(gt[5], -ps, 3e-5) && std::fabs(gt[0] - (x0 - half) * ps) < ps * tol && std::fabs(gt[3] - (half - y0) * ps) < ps * tol, "geotransform", "%s at %d,%d: %.4f %.6f %g %.4f %g %.6f", what, x0, y0, gt[0], gt[1], gt[2], gt[3], gt[4], gt[5]);
    const OGRSpatialReference* sr = ds->GetSpatialRef(); if (!VEXPECT(sr != nullptr, "no-projection", "%s", what)) return; double cm = sr->GetProjParm(SRS_PP_CENTRAL_MERIDIAN, 999);
    VEXPECT(std::fabs(remainder(cm - sub, 360)) < 1e-4 && sr->GetProjParm(SRS_PP_SATELLITE_HEIGHT) == 35785831 && std::fabs(sr->GetSemiMajor() - 6378169) < 1 && std::fabs(sr->GetSemiMinor() - 6356583.8) < 1, "projection", "%s: meridian %.6f not %.6f, height %.1f, axes %.1f %.1f", what, cm, sub, sr->GetProjParm(SRS_PP_SATELLITE_HEIGHT), sr->GetSemiMajor(), sr->GetSemiMinor());
    int xs, ys; double psx, psy; D::decodeGeotransform(ds, xs, ys, psx, psy); VEXPECT(xs == half - x0 && ys == half - y0 && close_rel(psx, ps, 3e-5) && close_rel(psy, ps, 3e-5), "decoded", "%s at %d,%d: %d %d %g %g", what, x0, y0, xs, ys, psx, psy);
    D::GeoReferencer g; if (!VEXPECT(g.init(ds) == CE_None, "referencer", "%s: %s", what, CPLGetLastErrorMsg())) return; int on = 0, off = 0;
    for (int k = 0; k < n; ++k) {
        int x, y; if (r.chance(0.15)) { x = r.chance(0.5) ? 0 : w - 1; y = r.chance(0.5) ? 0 : h - 1; } else { x = r.below(w); y = r.below(h); } if (r.chance(0.1)) { x = half - x0 + r.range(-2, 2); y = half - y0 + r.range(-2, 2); }
        double ax = (x + x0 - half) * step, ay = (half - y - y0) * step, tlat, tlon; bool seen = gp::inverse(ax, ay, tlat, tlon), in = gp::inverse(ax * 1.001, ay * 1.001, tlat, tlon), out = gp::inverse(ax * 0.999, ay * 0.999, tlat, tlon); double lat = 1e9, lon = 1e9; CPLErr e = g.pixelToLatlon(x, y, lat, lon);
        if (seen && in) {
            ++on; if (!VEXPECT(e == CE_None, "no-position", "%s: pixel %d,%d of the disk has no position", what, x, y)) continue; gp::inverse(ax, ay, tlat, tlon); double px, py; bool vis = gp::forward(lat, lon - sub, px, py); double dx = (px - ax) / step, dy = (py - ay) / step;
            VEXPECT(vis && std::fabs(dx) < tol && std::fabs(dy) < tol, "position", "%s: pixel %d,%d (grid %d,%d, satellite at %.3f) is at %.5f %.5f, not %.5f %.5f: %.3f,%.3f pixels away", what, x, y, x + x0, y + y0, sub, lat, lon, tlat, tlon + sub, dx, dy);
            int bx = -9999, by = -9999; e = g.latlonToPixel(lat, lon, bx, by); VEXPECT(e == CE_None && bx == x && by == y, "pixel-back", "%s: pixel %d,%d -> %.6f %.6f -> %d,%d", what, x, y, lat, lon, bx, by);
            double qx, qy, qa, qo; g.pixelToProjected(x, y, qx, qy); VEXPECT(std::fabs(qx / ps - (x + x0 - half)) < tol && std::fabs(qy / ps - (half - y - y0)) < tol, "projected", "%s: pixel %d,%d is at %.3f %.3f", what, x, y, qx, qy); int zx, zy; g.projectedToPixel(qx, qy, zx, zy); VEXPECT(zx == x && zy == y, "projected-back", "%s: %d,%d -> %d,%d", what, x, y, zx, zy); VEXPECT(g.projectedToLatlon(qx, qy, qa, qo) == CE_None && std::fabs(qa - lat) < 1e-9 && std::fabs(qo - lon) < 1e-9, "projected-position", "%s: %.9f %.9f and %.9f %.9f", what, qa, qo, lat, lon); double ux, uy; VEXPECT(g.latlonToProjected(lat, lon, ux, uy) == CE_None && std::fabs(ux - qx) < 1 && std::fabs(uy - qy) < 1, "position-projected", "%s: %.3f %.3f and %.3f %.3f", what, ux, uy, qx, qy);
        } else if (!seen && !out) { ++off; VEXPECT(e != CE_None, "position-off-disk", "%s: pixel %d,%d in space (satellite at %.3f) is at %.5f %.5f", what, x, y, sub, lat, lon); }
    }
    for (int k = 0; k < n / 4; ++k) {            // places first
        double lat = asin(r.real(-1, 1)) * 180 / M_PI, lon = r.real(-180, 180), px, py; bool vis = gp::forward(lat, lon - sub, px, py); double x1, y1; bool v1 = gp::forward(lat * 0.98, sub + remainder(lon - sub, 360) * 0.98 - sub, x1, y1), v2 = gp::forward(std::min(90.0, std::max(-90.0, lat * 1.02)), remainder(lon - sub, 360) * 1.02, x1, y1); if (v1 != vis || v2 != vis) continue;
        int bx = -9999, by = -9999; CPLErr e = g.latlonToPixel(lat, lon, bx, by);
        if (vis) { double fx = px / step + half - x0, fy = half - py / step - y0; VEXPECT(e == CE_None && std::fabs(bx - fx) < 0.5 + tol && std::fabs(by - fy) < 0.5 + tol, "place", "%s: %.5f %.5f (satellite at %.3f) is at pixel %d,%d, not %.2f,%.2f", what, lat, lon, sub, bx, by, fx, fy); }
        else VEXPECT(e != CE_None, "place-hidden", "%s: %.5f %.5f, which a satellite at %.3f cannot see, is at pixel %d,%d", what, lat, lon, sub, bx, by);
    }
    obs("raster", fmt("%s %s lon %.1f", what, on && off ? "disk and space" : on ? "disk" : "space", sub));
}
static double anylon(Rng& r) { static const std::vector<double> L = { 0, 9.5, -3.4, 3.5, 41.5, -45.3, 57, 140.7, -135, 179.9, -179.9, 180, 0.1 }; return r.chance(0.6) ? r.pick(L) : std::round(r.real(-180, 180) * 10) / 10; }
static void xrit(uint64_t idx, Rng& r) {
    vg::init(); int ch = idx % 12 + 1; Product p = random_product(r, "prod", ch, 1); p.seglines = p.hrv() ? 29 : 16; p.nsegs = p.full() / p.seglines; p.present = { 1 + (int)r.below(p.nsegs) }; p.lon = anylon(r); write_product(p); std::string name = r.chance(0.5) ? p.shortname() : p.segpath(*p.present.begin()); note(fmt("channel %d lon %g", ch, p.lon));
    static const std::vector<const char*> OPT = { nullptr, nullptr, "MSAT_COMPUTE=jday", "MSAT_COMPUTE=sat_za", "MSAT_COMPUTE=cos_sol_za", "MSAT_COMPUTE=reflectance" }; const char* opt = r.pick(OPT); if (opt && strstr(opt, "refl") && !(ch <= 3 || ch == 12)) opt = nullptr;
    vg::DS d = vg::open(name, opt); if (VEXPECT(d != nullptr, "open", "%s %s: %s", name.c_str(), opt ? opt : "", CPLGetLastErrorMsg())) { VEXPECT(d->GetRasterXSize() == p.full() && d->GetRasterYSize() == p.full(), "size", "%d x %d", d->GetRasterXSize(), d->GetRasterYSize()); check(d.get(), p.full() / 2, (p.hrv() ? p.step_hrv : p.step_vis) * 1000.0, 0, 0, p.lon, fmt("xRIT %s%s", p.hrv() ? "HRV" : "VIS/IR", opt ? opt + 12 : "").c_str(), r, 0.1, 300); }
    d.reset(); remove_product(p);
}
static void grib(uint64_t idx, Rng& r) {
    vg::init(); static const char* TPL[3] = { "msat/wmo", "msat/ecmwf", "msat/msat" }; const char* tpl = TPL[idx % 3]; vg::Mem m; m.hrv = r.chance(0.3); int full = m.hrv ? 11136 : 3712; m.w = 1 + r.below(60); m.h = 1 + r.below(60); if (r.chance(0.2)) { m.x0 = m.y0 = 0; } else { m.x0 = r.below(full - m.w + 1); m.y0 = r.below(full - m.h + 1); } if (r.chance(0.3)) { m.w = m.h = 300; m.x0 = std::min(m.x0, full - 300); m.y0 = std::min(m.y0, full - 300); }
    static const int SEV[4] = { 55, 56, 57, 70 }; m.lon = anylon(r); m.sat = fmt("%d", SEV[r.below(4)]); m.chan = fmt("%d", m.hrv ? 12 : 1 + (int)r.below(11)); m.has_nodata = false; for (int i = 0; i < m.w * m.h; ++i) m.v.push_back(i % 1024 + 1); note(fmt("%s %dx%d at %d,%d lon %g", tpl, m.w, m.h, m.x0, m.y0, m.lon));
    vg::DS s = vg::mem(m); unlink("x.grib"); char** o = CSLAddString(nullptr, fmt("TEMPLATE=%s", tpl).c_str()); vg::DS g(GetGDALDriverManager()->GetDriverByName("MsatGRIB")->CreateCopy("x.grib", s.get(), TRUE, o, nullptr, nullptr)); CSLDestroy(o); if (!VEXPECT(g != nullptr, "grib-refused", "%s: %s", tpl, CPLGetLastErrorMsg())) return;
    check(s.get(), full / 2, m.hrv ? vg::PSH : vg::PS, m.x0, m.y0, m.lon, m.hrv ? "crop HRV" : "crop", r, 0.02, 60); check(g.get(), full / 2, m.hrv ? vg::PSH : vg::PS, m.x0, m.y0, m.lon, fmt("%s%s", tpl, m.hrv ? " HRV" : "").c_str(), r, m.hrv ? 0.15 : 0.05, 60); s.reset(); g.reset();
}
// pixel and projected coordinates of any affine georeference, and refusals
static void affine(uint64_t, Rng& r) {
    vg::init(); GDALRegister_MEM(); GDALDriver* drv = GetGDALDriverManager()->GetDriverByName("MEM");
    for (int k = 0; k < 40; ++k) {
        double a = r.real(0, 6.3), sx = exp(r.real(-3, 9)), sy = exp(r.real(-3, 9)) * (r.chance(0.5) ? 1 : -1), f[6] = { r.real(-1e6, 1e6), sx * cos(a), -sy * sin(a), r.real(-1e6, 1e6), sx * sin(a), sy * cos(a) }, inv[6], id[6]; if (r.chance(0.4)) { f[1] = sx; f[5] = sy; f[2] = f[4] = 0; }
        VEXPECT(D::invertGeoTransform(f, inv) == CE_None, "invert", "a regular matrix is refused: %s", CPLGetLastErrorMsg()); double u = r.real(-5000, 5000), v = r.real(-5000, 5000), X = f[0] + f[1] * u + f[2] * v, Y = f[3] + f[4] * u + f[5] * v, bu = inv[0] + inv[1] * X + inv[2] * Y, bv = inv[3] + inv[4] * X + inv[5] * Y; (void)id;
        double cond = (1e6 + 5000 * (sx + std::fabs(sy))) / std::min(sx, std::fabs(sy)); VEXPECT(std::fabs(bu - u) < 1e-9 * cond + 1e-9 && std::fabs(bv - v) < 1e-9 * cond + 1e-9, "invert", "%g,%g -> %g,%g -> %g,%g", u, v, X, Y, bu, bv); obs("affine", f[2] ? "rotated" : "straight");
        vg::DS d(drv->Create("", 100, 100, 1, GDT_Byte, nullptr)); d->SetGeoTransform(f); OGRSpatialReference s = vg::geos(anylon(r)); d->SetSpatialRef(&s); D::GeoReferencer g; if (VEXPECT(g.init(d.get()) == CE_None, "referencer", "%s", CPLGetLastErrorMsg())) { int x = r.range(-500, 5000), y = r.range(-500, 5000), zx, zy; double px, py; g.pixelToProjected(x, y, px, py); VEXPECT(std::fabs(px - (f[0] + f[1] * x + f[2] * y)) <= 1e-9 * (1e6 + std::fabs(px)) && std::fabs(py - (f[3] + f[4] * x + f[5] * y)) <= 1e-9 * (1e6 + std::fabs(py)), "affine-projected", "pixel %d,%d -> %g,%g", x, y, px, py); g.projectedToPixel(px, py, zx, zy); VEXPECT(zx == x && zy == y, "affine-back", "pixel %d,%d -> %g,%g -> %d,%d", x, y, px, py, zx, zy); }
    }
    double z[6] = { 1, 0, 0, 1, 0, 0 }, q[6] = { 0, 1, 2, 0, 2, 4 }, inv[6]; VEXPECT(D::invertGeoTransform(z, inv) != CE_None && D::invertGeoTransform(q, inv) != CE_None, "invert-singular", "a singular matrix is inverted");
    { vg::DS d(drv->Create("", 10, 10, 1, GDT_Byte, nullptr)); D::GeoReferencer g; VEXPECT(g.init(d.get()) != CE_None, "referencer-none", "a raster without georeference is accepted"); double f[6] = { 0, 1, 0, 0, 0, -1 }; d->SetGeoTransform(f); D::GeoReferencer g2; VEXPECT(g2.init(d.get()) != CE_None, "referencer-none", "a raster without projection is accepted"); OGRSpatialReference l; l.SetLocalCS("plain"); d->SetSpatialRef(&l); D::GeoReferencer g3; VEXPECT(g3.init(d.get()) != CE_None, "referencer-none", "a local grid is accepted"); }
    for (int k = 0; k < 20; ++k) { double lon = anylon(r); OGRSpatialReference s, t; D::set_spaceview(s, lon); std::string w = D::spaceviewWKT(lon); VEXPECT(t.importFromWkt(w.c_str()) == OGRERR_NONE && std::fabs(t.GetProjParm(SRS_PP_CENTRAL_MERIDIAN, 999) - lon) < 1e-9 && s.IsSame(&t), "spaceview", "%g: %s", lon, w.c_str()); }
    for (int k = 0; k < 50; ++k) { using msat::proj::ImageBox; using msat::proj::ImagePoint; long a = r.range(-100, 5000), b = r.range(-100, 5000), c = r.range(-100, 5000), d = r.range(-100, 5000); ImageBox box(ImagePoint(a, b), ImagePoint(c, d)); int x0, y0, w, h; box.boundingBox(x0, y0, w, h); VEXPECT(x0 == std::min(a, c) && y0 == std::min(b, d) && w == std::labs(a - c) && h == std::labs(b - d), "box", "%ld,%ld to %ld,%ld: %d,%d %dx%d", a, b, c, d, x0, y0, w, h); }
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough;
    add_group("xrit", t ? 1500 : 120, 8, 60, xrit); add_group("grib", t ? 6000 : 480, 16, 60, grib); add_group("affine", t ? 200 : 16, 2, 60, affine);
    return run_all();
}
