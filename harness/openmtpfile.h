// An encoder of OpenMTP files
#pragma once
#include "common.h"
namespace mt {
using namespace vf; using std::string; using std::vector;
static const size_t A = 1345, S1 = 5175, S2 = 2636, S3 = 136704, S3V = 185188;
struct Mtp { string ascii, h; vector<string> rows; vector<string> heads; int nl = 0, np = 0; bool vis = false; string file() const { string s = ascii + h; for (size_t i = 0; i < rows.size(); ++i) s += heads[i] + rows[i]; return s; } };
static uint64_t be(const string& h, size_t o, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (unsigned char)h[o + i]; return v; }
static void pb(string& h, size_t o, uint64_t v, int n) { for (int i = n; i-- > 0; v >>= 8) h[o + i] = (char)v; }
static int i4(const string& h, size_t o) { return (int)be(h, o, 4); }
static short i2(const string& h, size_t o) { return (short)be(h, o, 2); }
static float f4(const string& h, size_t o) { uint32_t v = be(h, o, 4); float f; memcpy(&f, &v, 4); return f; }
static double f8(const string& h, size_t o) { uint64_t v = be(h, o, 8); double f; memcpy(&f, &v, 8); return f; }
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static string bytes(Rng& r, size_t n) { string s(n, 0); for (auto& c : s) c = (char)r.u64(); return s; }
static void pf(string& h, size_t o, float f) { uint32_t v; memcpy(&v, &f, 4); pb(h, o, v, 4); }
static Mtp make(Rng& r) {
    Mtp m; m.ascii = bytes(r, A); for (auto& c : m.ascii) c = r.chance(0.02) ? '\n' : (char)r.range(32, 126); int chan = r.below(8); m.vis = chan == 3; m.h = bytes(r, S1 + S2 + (m.vis ? S3V : S3)); string& h = m.h;
    if (r.chance(0.7)) for (size_t i = 7827; i + 4 <= h.size(); i += 4) if (i != 96027) pf(h, i, (float)(r.range(-100000, 100000) / 64.0)); 
    static const char* N[] = { "A1MTPIMG", "OPENMTP ", "IMAGEXYZ" }; h.replace(0, 8, N[r.below(3)]); pb(h, 8, r.range(1970, 2030), 4); pb(h, 12, r.range(1, 366), 4); pb(h, 16, r.below(4), 4); pb(h, 20, r.below(4), 4); int mon = r.range(1, 12), day = r.range(1, 28); pb(h, 24, r.below(100) * 10000 + mon * 100 + day, 4); pb(h, 28, r.below(24) * 100 + r.below(60), 4); static const char* S[] = { "M7", "M7", "M7", "M6", "M5", "G1" }; h.replace(32, 2, S[r.below(6)]); pb(h, 36, r.below(7), 4); pb(h, 40, chan, 4);
    for (int i = 44; i < 57; ++i) h[i] = r.chance(0.1) ? ' ' : (char)('0' + r.below(10)); if (r.chance(0.7)) h.replace(49, 3, fmt("%03d", (int)r.below(100))); pf(h, 95, (float)r.real(-180, 180)); pb(h, 87, r.below(4), 4); pb(h, 91, r.below(4), 4); pb(h, 111, r.below(5), 4); pb(h, 5155, r.below(8), 4); pb(h, 5179, r.below(3), 4); pb(h, 5183, r.below(5), 4);
    for (int i = 7559; i < 7575; ++i) if (r.chance(0.5)) h[i] = r.chance(0.5); for (int i = 155; i < 5155; ++i) h[i] = r.chance(0.7) ? 1 + r.below(3) : 0;
    if (r.chance(0.03)) { m.nl = r.chance(0.5) ? 2500 : 625; m.np = m.nl == 2500 ? 2500 : 1250; if (m.vis) m.nl *= 2, m.np *= 2; if (r.chance(0.2)) m.nl = std::min(m.nl + 1, 5000); } else { m.nl = r.below(60); m.np = r.chance(0.1) ? 5000 - r.below(3) : r.chance(0.1) ? r.below(2) : r.below(400); }
    pb(h, 123, r.chance(0.4) ? (m.vis ? 3620 : 1810) : r.range(1, 5000), 4); pb(h, 127, r.range(1, 5000), 4); pb(h, 131, m.nl, 4); pb(h, 135, m.np, 4); for (int i = 0; i < m.nl; ++i) { m.heads.push_back(bytes(r, 32)); m.rows.push_back(bytes(r, m.np)); } return m;
}
}
