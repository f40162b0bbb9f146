// C10: sun and satellite angles agree with astronomy and viewing geometry
#include "synth.h"
#include "gdalutil.h"
#include "gproj.h"
#include <msat/facts.h>
#include <msat/hrit/MSG_HRIT.h>
using namespace xs; using namespace vf; namespace F = msat::facts;
static double deg(double c) { return acos(std::max(-1.0, std::min(1.0, c))) * 180 / M_PI; }
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int mdays(int y, int m) { static const int D[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return D[m - 1] + (m == 2 && leap(y)); }

static void days(uint64_t i, Rng&) {
    for (int y = 1 + (int)i * 100; y <= ((int)i + 1) * 100; ++y) { int want = 0; for (int m = 1; m <= 12; ++m) for (int d = 1; d <= mdays(y, m); ++d) { ++want; int got = F::jday(y, m, d); VEXPECT(got == want, "day-of-year", "%04d-%02d-%02d is day %d, not %d", y, m, d, got, want); } obs("year", fmt("%s %s", leap(y) ? "leap" : "common", y % 400 == 0 ? "400" : y % 100 == 0 ? "100" : y % 4 == 0 ? "4" : "1")); }
}
static void place(Rng& r, double& lat, double& lon) { switch (r.below(8)) { case 0: lat = r.chance(0.5) ? 90 : -90; break; case 1: lat = 0; break; case 2: lat = r.range(-90, 90); break; default: lat = asin(r.real(-1, 1)) * 180 / M_PI; } switch (r.below(6)) { case 0: lon = 0; break; case 1: lon = r.range(-180, 180); break; case 2: lon = r.real(0, 360); break; default: lon = r.real(-180, 180); } }
static void sun(uint64_t i, Rng& r) {
    double worst = 0, worst2 = 0;
    for (int k = 0; k < 4000; ++k) {
        int y = r.range(2002, 2041), m = r.range(1, 12), d = r.range(1, mdays(y, m)), hh = r.below(24), mi = r.below(60); double lat, lon; place(r, lat, lon); double h = hh + mi / 60.0; int jd = gp::doy(y, m, d);
        double c = F::cos_sol_za(y, m, d, hh, mi, lat, lon), z = deg(c), tz = deg(gp::true_cos(y, m, d, h, lat, lon)), mz = deg(gp::mean_cos(jd, h, lat, lon));
        VEXPECT(c >= -1 - 1e-12 && c <= 1 + 1e-12, "sun-range", "cosine %.17g", c); worst = std::max(worst, std::fabs(z - tz)); worst2 = std::max(worst2, std::fabs(z - mz));
        VEXPECT(std::fabs(z - tz) < 0.9, "sun-true", "%04d-%02d-%02d %02d:%02d at %.4f %.4f: zenith angle %.4f, the sun's is %.4f", y, m, d, hh, mi, lat, lon, z, tz);
        VEXPECT(std::fabs(z - mz) < 0.28, "sun-mean-year", "day %d %02d:%02d at %.4f %.4f: zenith angle %.4f, the mean year's is %.4f", jd, hh, mi, lat, lon, z, mz);
        VEXPECT(F::cos_sol_za(jd, hh, mi, lat, lon) == c && F::cos_sol_za(jd, h, lat, lon) == c, "sun-forms", "%04d-%02d-%02d %02d:%02d: %.17g by date, %.17g by day, %.17g by hour", y, m, d, hh, mi, c, F::cos_sol_za(jd, hh, mi, lat, lon), F::cos_sol_za(jd, h, lat, lon));
        VEXPECT(std::fabs(F::cos_sol_za(jd, h, lat, lon + 360) - c) < 1e-9 && std::fabs(F::cos_sol_za(jd, h, lat, lon - 360) - c) < 1e-9, "sun-wrap", "longitude %.4f plus or minus 360", lon);
        VEXPECT(std::fabs(F::cos_sol_za(jd, h + 1, lat, lon - 15) - c) < 1e-9, "sun-rotation", "an hour later and 15 degrees west: %.9g, not %.9g", F::cos_sol_za(jd, h + 1, lat, lon - 15), c);
        if (tz > 91 || tz < 89) VEXPECT((c > 0) == (tz < 90), "sun-up", "the sun is %s at %.4f %.4f, and the cosine is %g", tz < 90 ? "up" : "down", lat, lon, c);
        obs("sun", fmt("month %d %s", m, c > 0 ? "day" : "night")); if (k == 0 && i < 3) sample(fmt("%04d-%02d-%02d %02d:%02d at %.3f %.3f: zenith angle %.4f, true %.4f, mean year %.4f", y, m, d, hh, mi, lat, lon, z, tz, mz));
    }
}
static void satellite(uint64_t i, Rng& r) {
    for (int k = 0; k < 8000; ++k) {
        double lat, lon; place(r, lat, lon); if (r.chance(0.2)) { lat = r.real(-1, 1) * exp(r.real(-20, 0)); lon = r.real(-1, 1) * exp(r.real(-20, 0)); } if (r.chance(0.1)) lat = lon = 0;
        double z = F::sat_za(lat, lon), t = gp::sat_zenith(lat, lon); VEXPECT(std::fabs(z - t) < 3e-8, "satellite", "at %.9g %.9g: %.9f rad, not %.9f", lat, lon, z, t); VEXPECT(z >= 0 && z <= M_PI + 1e-12, "satellite-range", "at %.9g %.9g: %.17g", lat, lon, z);
        for (double q : { F::sat_za(-lat, lon), F::sat_za(lat, -lon), F::sat_za(lat, lon + 360), F::sat_za(lat, lon - 360) }) VEXPECT(std::fabs(q - z) < 1e-7, "satellite-symmetry", "at %.9g %.9g: %.9f and %.9f", lat, lon, z, q);
        double x, y; bool seen = gp::forward(lat, lon, x, y); if (std::fabs(t - M_PI / 2) > 0.006) VEXPECT((z < M_PI / 2) == seen, "satellite-up", "at %.4f %.4f the satellite is %s, and the zenith angle is %.4f", lat, lon, seen ? "up" : "down", z); obs("satellite", fmt("%d degrees", (int)(z * 18 / M_PI) * 10));
    }
}
// the same as rasters of products
static void rasters(uint64_t i, Rng& r) {
    vg::init(); Product p = random_product(r, "prod", r.chance(0.2) ? 12 : 1 + r.below(11), 1); p.seglines = p.hrv() ? 29 : 16; p.nsegs = p.full() / p.seglines; p.present = { 1 + (int)r.below(p.nsegs) }; p.d = r.range(1, mdays(p.y, p.mo)); p.mi = r.below(60); p.timing = fmt("%04d%02d%02d%02d%02d", p.y, p.mo, p.d, p.hh, p.mi); write_product(p);
    const char* open = strdup((r.chance(0.5) ? p.shortname() : p.segpath(*p.present.begin())).c_str()); note(fmt("channel %d lon %g", p.channel, p.lon));
    vg::DS j = vg::open(open, "MSAT_COMPUTE=jday"), s = vg::open(open, "MSAT_COMPUTE=cos_sol_za"), z = vg::open(open, "MSAT_COMPUTE=sat_za"); if (!VEXPECT(j && s && z, "open", "%s: %s", open, CPLGetLastErrorMsg())) return;
    int F_ = p.full(), jd = gp::doy(p.y, p.mo, p.d); double step = (p.hrv() ? p.step_hrv : p.step_vis) * 1000.0 / 35785831.0, half = F_ / 2, hour = p.hh + p.mi / 60.0, R = 180 / M_PI; std::vector<double> a(F_), b(F_), c(F_); bool clamped = false; long vis = 0, off = 0;
    VEXPECT(j->GetRasterXSize() == F_ && s->GetRasterYSize() == F_ && z->GetRasterXSize() == F_, "raster-size", "%d", z->GetRasterXSize());
    for (int k = 0; k < 10; ++k) { int y = k == 0 ? half : r.below(F_), e = 0; for (auto q : { std::make_pair(j.get(), &a), std::make_pair(s.get(), &b), std::make_pair(z.get(), &c) }) e |= q.first->GetRasterBand(1)->RasterIO(GF_Read, 0, y, F_, 1, q.second->data(), F_, 1, GDT_Float64, 0, 0, nullptr); if (!VEXPECT(e == 0, "raster-read", "line %d: %s", y, CPLGetLastErrorMsg())) break;
        for (int x = 0; x < F_; ++x) { double lat, lon, ax = (x - half) * step, ay = (half - y) * step; VEXPECT(a[x] == jd, "raster-day", "pixel %d,%d: day %g, not %d", x, y, a[x], jd);
            double rad = hypot(ax, ay * 1.003); bool seen = gp::inverse(ax, ay, lat, lon); if (seen != gp::inverse(ax * 1.0005, ay * 1.0005, lat, lon) || seen != gp::inverse(ax * 0.9995, ay * 0.9995, lat, lon)) continue; (void)rad; evals(2);
            if (!seen) { ++off; if (b[x] != 0) viol("raster-off-disk", fmt("pixel %d,%d, off the disk: cosine %g", x, y, b[x])); if (c[x] != 0) viol("raster-off-disk", fmt("pixel %d,%d, off the disk: satellite zenith angle %g", x, y, c[x])); continue; }
            gp::inverse(ax, ay, lat, lon); ++vis; double mc = gp::mean_cos(jd, hour, lat, lon + p.lon), want = std::min(1.0, std::max(0.0, mc)); if (std::fabs(b[x] - want) > 0.006 || (mc < -0.006 && b[x] != 0)) viol("raster-sun", fmt("%s pixel %d,%d (%.3f %.3f): cosine %.6f, not %.6f", p.shortname().c_str(), x, y, lat, lon + p.lon, b[x], want));
            double t = gp::sat_zenith(lat, lon); if (c[x] == 1 && t > 1 + 1e-3) { clamped = true; continue; } if (std::fabs(c[x] - t) > 4e-3 / std::max(0.05, cos(t))) viol("raster-satellite", fmt("pixel %d,%d (%.3f %.3f): satellite zenith angle %.6f, not %.6f", x, y, lat, lon, c[x], t)); } }
    if (clamped) viol("satza-clamped", "pixels more than one radian from the zenith read exactly 1");
    (void)R; obs("raster", fmt("channel %d lon %g %s", p.channel, p.lon, p.hrv() ? "HRV" : "")); evals(1); if (i < 2) sample(fmt("%s: %ld pixels on the disk, %ld off it", p.shortname().c_str(), vis, off)); j.reset(); s.reset(); z.reset(); remove_product(p);
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough;
    add_group("days", t ? 100 : 40, 4, 30, days); add_group("sun", t ? 2000 : 96, 6, 60, sun); add_group("satellite", t ? 1500 : 64, 4, 60, satellite); add_group("rasters", t ? 600 : 32, 4, 60, rasters);
    return run_all();
}
