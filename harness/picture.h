// Pictures written by the tools, against the samples they must show
#pragma once
#include "gdalutil.h"
#include <algorithm>
#include <map>
using namespace vf; using std::string; using std::vector;
static uint64_t pic_be(const string& s, size_t o, int n) { uint64_t v = 0; while (n-- > 0) v = v << 8 | (unsigned char)s[o++]; return v; }
struct Pic { int w = 0, h = 0; vector<double> v; double full = 65535; };
static bool pgm(const string& s, Pic& p) {      // binary and plain grey maps
    if (s.size() < 3 || s[0] != 'P' || (s[1] != '5' && s[1] != '2')) return false; size_t o = 2; auto num = [&]() { for (;;) { while (o < s.size() && isspace((unsigned char)s[o])) ++o; if (o < s.size() && s[o] == '#') { while (o < s.size() && s[o] != '\n') ++o; } else break; } long n = 0; bool any = false; while (o < s.size() && isdigit((unsigned char)s[o])) { n = n * 10 + s[o++] - '0'; any = true; } return any ? n : -1L; };
    p.w = num(); p.h = num(); p.full = num(); if (p.w < 1 || p.h < 1 || p.full < 1) return false; size_t n = (size_t)p.w * p.h; if (s[1] == '2') { for (size_t i = 0; i < n; ++i) p.v.push_back(num()); return p.v.back() >= 0; } ++o; int b = p.full > 255 ? 2 : 1; if (s.size() != o + n * b) return false; for (size_t i = 0; i < n; ++i) p.v.push_back(pic_be(s, o + i * b, b)); return true;
}
static bool picture(const string& path, const string& fm, Pic& p) {
    if (fm == "pgm" || fm == "pnm") return pgm(read_file(path), p); GDALDataset* d = (GDALDataset*)GDALOpen(path.c_str(), GA_ReadOnly); if (!d) return false; GDALRasterBand* b = d->GetRasterBand(1); p.w = d->GetRasterXSize(); p.h = d->GetRasterYSize(); p.v.resize((size_t)p.w * p.h); const char* nb = b->GetMetadataItem("NBITS", "IMAGE_STRUCTURE"); p.full = nb ? (1 << atoi(nb)) - 1 : b->GetRasterDataType() == GDT_UInt16 ? 65535 : 255; bool ok = b->RasterIO(GF_Read, 0, 0, p.w, p.h, p.v.data(), p.w, p.h, GDT_Float64, 0, 0, nullptr) == CE_None;
    if (GDALColorTable* t = b->GetColorTable()) { for (auto& q : p.v) q = t->GetColorEntry((int)q)->c1; p.full = 255; } GDALClose(d); return ok;
}
// the samples a picture must show, top left first: sample k of a stored image
// seen from the other end
static vector<uint16_t> turned(vector<uint16_t> v) { std::reverse(v.begin(), v.end()); return v; }
static void exact(const Pic& p, const vector<uint16_t>& want, int w, int h, const char* line) {
    if (!VEXPECT(p.w == w && p.h == h, "size", "the picture is %dx%d, not %dx%d (%s)", p.w, p.h, w, h, line)) return; size_t n = 0, first = 0; double eps = p.full == 65535 ? 0.01 : 65535 / p.full * 0.51; for (size_t i = 0; i < want.size(); ++i) if (fabs(p.v[i] * 65535 / p.full - want[i]) > eps && !n++) first = i; evals(want.size()); VEXPECT(n == 0, "pixels", "%zu of %zu pixels differ, first %zu,%zu: %g of %g, stored %d (%s)", n, want.size(), first % w, first / w, p.v[first], p.full, want[first], line);
}
// the same order of greys, in proportion, dark to bright
static void stretched(const Pic& p, const vector<uint16_t>& want, int w, int h, const char* line) {
    if (!VEXPECT(p.w == w && p.h == h, "size", "the picture is %dx%d, not %dx%d (%s)", p.w, p.h, w, h, line)) return; std::map<int, std::pair<double, double>> m; for (size_t i = 0; i < want.size(); ++i) { double q = p.v[i] * 255 / p.full; auto r = m.emplace(want[i], std::make_pair(q, q)); r.first->second.first = std::min(r.first->second.first, q); r.first->second.second = std::max(r.first->second.second, q); } evals(want.size()); double last = -1, tol = p.full < 65535 ? 1.01 : 0.01;
    for (auto& k : m) { if (!VEXPECT(k.second.second - k.second.first <= 1e-9 && k.second.first >= last - 1e-9, "greys", "samples of %d are shown as %g to %g, those before as %g (%s)", k.first, k.second.first, k.second.second, last, line)) return; last = k.second.first; }
    vector<std::pair<int, double>> in; for (auto& k : m) if (k.second.first > tol && k.second.first < 255 - tol) in.push_back({ k.first, k.second.first }); if (m.size() > 1) VEXPECT(m.begin()->second.first <= 127 && m.rbegin()->second.first >= 128, "greys", "greys from %g to %g (%s)", m.begin()->second.first, m.rbegin()->second.first, line);
    if (in.size() > 2) { auto a = in.front(), b = in.back(); for (auto& k : in) { double t = a.second + (b.second - a.second) * (k.first - a.first) / (b.first - a.first); VEXPECT(fabs(t - k.second) <= 2 * tol, "greys", "sample %d is shown as %g, in proportion %g (%s)", k.first, k.second, t, line); } obs("stretch", "proportional"); }
}
// scaled down: every pixel lies between the samples around its place
static void scaled(const Pic& p, const vector<uint16_t>& want, int w, int h, double f, bool stretch, const char* line) {
    int ew = (int)((float)w * (float)f), eh = (int)((float)h * (float)f); if (!VEXPECT(p.w >= 1 && p.h >= 1 && abs(p.w - ew) <= 1 + w / h && abs(p.h - eh) <= 1 + h / w && (p.w >= ew - 1 || p.h >= eh - 1), "size", "the picture is %dx%d, not %dx%d (%s)", p.w, p.h, ew, eh, line)) return;
    if (stretch) { obs("scaled", "stretched"); return; } size_t n = 0, first = 0; for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) { double lo = 1e9, hi = -1e9; int x0 = (int)floor((double)x * w / p.w) - 1, x1 = (int)ceil((double)(x + 1) * w / p.w) + 1, y0 = (int)floor((double)y * h / p.h) - 1, y1 = (int)ceil((double)(y + 1) * h / p.h) + 1; for (int Y = std::max(0, y0); Y < std::min(h, y1); ++Y) for (int X = std::max(0, x0); X < std::min(w, x1); ++X) { lo = std::min<double>(lo, want[(size_t)Y * w + X]); hi = std::max<double>(hi, want[(size_t)Y * w + X]); } double q = p.v[(size_t)y * p.w + x] * 65535 / p.full, e = p.full == 65535 ? 1 : 65535 / p.full * 0.51 + 1; if ((q < lo - e || q > hi + e) && !n++) first = (size_t)y * p.w + x; }
    evals(p.v.size()); VEXPECT(n == 0, "pixels", "%zu of %zu pixels of the scaled picture are none of those around their place, first %zu: %g (%s)", n, p.v.size(), first, p.v[first], line); obs("scaled", fmt("by %.1f", f));
}
