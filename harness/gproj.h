// The normalised geostationary projection and the sun's place, from their
// published definitions (CGMS LRIT/HRIT global specification 4.4; Meeus)
#pragma once
#include <cmath>
namespace gp {
static const double RE = 6378.169, RP = 6356.5838, HS = 42164.0, HG = 35785.831;     // km
inline bool inverse(double x, double y, double& lat, double& lon) {      // viewing angles (radians, x east, y north) to degrees east of the satellite
    double cx = cos(x), cy = cos(y), sy = sin(y), k = (RE / RP) * (RE / RP), hs = HG + RE;
    double d = (hs * cx * cy) * (hs * cx * cy) - (cy * cy + k * sy * sy) * (hs * hs - RE * RE); if (d < 0) return false;
    double sn = (hs * cx * cy - sqrt(d)) / (cy * cy + k * sy * sy), s1 = hs - sn * cx * cy, s2 = sn * sin(x) * cy, s3 = sn * sy;
    lon = atan2(s2, s1) * 180 / M_PI; lat = atan(k * s3 / sqrt(s1 * s1 + s2 * s2)) * 180 / M_PI; return true;
}
inline bool forward(double lat, double dlon, double& x, double& y) {     // false: beyond the horizon
    double R = M_PI / 180, cl = atan(RP * RP / (RE * RE) * tan(lat * R)), hs = HG + RE, e2 = 1 - RP * RP / (RE * RE);
    if (std::fabs(lat) >= 90) cl = lat > 0 ? M_PI / 2 : -M_PI / 2;
    double rl = RP / sqrt(1 - e2 * cos(cl) * cos(cl)), r1 = hs - rl * cos(cl) * cos(dlon * R), r2 = rl * cos(cl) * sin(dlon * R), r3 = rl * sin(cl);
    x = atan2(r2, r1); y = atan(r3 / sqrt(r1 * r1 + r2 * r2));
    // seen if the local horizon plane has the satellite above it
    double px = rl * cos(cl) * cos(dlon * R), py = rl * cos(cl) * sin(dlon * R), pz = rl * sin(cl), nx = px / (RE * RE), ny = py / (RE * RE), nz = pz / (RP * RP);
    return (hs - px) * nx - py * ny - pz * nz > 0;
}
inline long days2000(int y, int m, int d) { y -= m <= 2; long era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (long)doe - 719468 - 10957; }
inline double sun(double L0, double M0, double eps, double hang0, double hour, double lat, double lon) { double R = M_PI / 180, M = M0 * R, C = 1.914602 * sin(M) + 0.019993 * sin(2 * M) + 0.000289 * sin(3 * M), lam = (L0 + C - 0.00569) * R, dec = asin(sin(eps * R) * sin(lam)), ra = atan2(cos(eps * R) * sin(lam), cos(lam)); double H = hang0 * R - ra + lon * R; (void)hour; return sin(lat * R) * sin(dec) + cos(lat * R) * cos(dec) * cos(H); }
// the sun's true place at an instant
inline double true_cos(int y, int m, int d, double hour, double lat, double lon) { double n = days2000(y, m, d) - 0.5 + hour / 24, T = n / 36525; return sun(280.46646 + 36000.76983 * T, 357.52911 + 35999.05029 * T, 23.439291 - 0.0130042 * T, fmod(280.46061837 + 360.98564736629 * n, 360), hour, lat, lon); }
// the mean year the library documents: the sun stands still for a day, at longitude 279.9348 on 1 January
inline double mean_cos(int jday, double hour, double lat, double lon) { double L0 = 279.9348 + 360 * (jday - 1) / 365.242, n = (L0 - 280.46646) / 0.9856473596; return sun(L0, 357.52911 + 35999.05029 * n / 36525, 23.4393, L0 - 0.0057183 + 15 * (hour - 12), hour, lat, lon); }
inline int doy(int y, int m, int d) { return (int)(days2000(y, m, d) - days2000(y, 1, 1)) + 1; }
// zenith angle of the satellite over a sphere
inline double sat_zenith(double lat, double dlon) { double R = M_PI / 180, a = 6378.137, h = 42164.0, x = cos(lat * R) * cos(dlon * R), y = cos(lat * R) * sin(dlon * R), z = sin(lat * R), vx = h - a * x, vy = -a * y, vz = -a * z; double dot = x * vx + y * vy + z * vz, cx = y * vz - z * vy, cy = z * vx - x * vz, cz = x * vy - y * vx; return atan2(sqrt(cx * cx + cy * cy + cz * cz), dot); }
}
