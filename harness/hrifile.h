// An encoder of HRI files
#pragma once
#include "common.h"
#include <msat/hri/HRI.h>
#include <map>
namespace hr {
using namespace vf;
enum Kind { C6, C3, C5, F5, F3, N2, N3, R8, R4, I4, I2, FL };
struct Field { const char* name; int off; Kind kind; const char* label; double (*get)(const HRI_subframe_interpretation&); };
static const Field FIELDS[] = {
#define X(m, o, k, l) { #m, o, k, l, [](const HRI_subframe_interpretation& i) { return (double)i.m; } },
#include "hri_fields.inc"
#undef X
};
static void enc(std::string& b, int off, double v, int digits, int before, Rng& r) { char t[16]; long n = lround(v * pow(10, digits - before)); snprintf(t, sizeof t, "%0*ld", digits, n); if (r.chance(0.5)) for (int i = 0; i + 1 < before && t[i] == '0'; ++i) t[i] = ' '; memcpy(&b[off], t, digits); }
static double ibm(std::string& b, int off, int n, Rng& r, bool small) {
    int fb = n == 4 ? 24 : 56; uint64_t m = r.u64() >> (64 - fb); if (r.chance(0.3)) m >>= fb - 1 - r.below(20); else if (r.chance(0.1)) m >>= r.below(fb); if (r.chance(0.05)) m = 0; int e = small ? r.range(60, 68) : r.chance(0.9) ? r.range(44, 84) : r.range(0, 127); if (m == 0 && r.chance(0.5)) e = 0; bool s = r.chance(0.4); b[off] = (char)(s << 7 | e); for (int i = 1; i < n; ++i) b[off + i] = (char)(m >> 8 * (n - 1 - i)); long double v = ldexpl((long double)m, 4 * (e - 64) - fb); return s ? -v : v;
}
// random content of the interpretation subframe, and what its fields are worth
static std::string interp(Rng& r, std::map<std::string, double>& v, std::string& msg) {
    std::string b(1360, 0); for (auto& c : b) c = (char)r.below(256);
    for (auto& f : FIELDS) switch (f.kind) {
        case C6: enc(b, f.off, v[f.name] = r.below(1000000) / 1000.0, 6, 3, r); break; case C3: enc(b, f.off, v[f.name] = r.below(1000) / 100.0, 3, 1, r); break; case C5: enc(b, f.off, v[f.name] = r.below(100000) / 100.0, 5, 3, r); break; case F5: enc(b, f.off, v[f.name] = r.below(100000) / 100000.0, 5, 0, r); break; case F3: enc(b, f.off, v[f.name] = r.below(1000) / 10.0, 3, 2, r); break; case N2: enc(b, f.off, v[f.name] = r.below(100), 2, 2, r); break; case N3: enc(b, f.off, v[f.name] = r.below(1000), 3, 3, r); break;
        case R8: v[f.name] = ibm(b, f.off, 8, r, false); break; case R4: v[f.name] = ibm(b, f.off, 4, r, false); break; case I4: { int x = (int)r.u64(); put_be(b, f.off, (uint32_t)x, 4); v[f.name] = x; break; } case I2: { int16_t x = (int16_t)r.u64(); put_be(b, f.off, (uint16_t)x, 2); v[f.name] = x; break; } case FL: b[f.off] = r.chance(0.5) ? 0 : r.chance(0.5) ? 1 : 255; v[f.name] = b[f.off] != 0; break; }
    msg.clear(); size_t n = r.chance(0.3) ? 800 : r.below(801); while (msg.size() < n) msg += (char)(32 + r.below(95)); b.replace(560, 800, msg + std::string(800 - n, 0)); return b;
}
struct Band { HRI_image_band band; bool half; const char* name; int px, lines; };
struct Format { const char* code; int fmt, viss, visn, ir, wv; bool a; std::vector<Band> bands; };
static const std::vector<Format> FORMATS = {
    { "AW", 0, 0, 0, 0, 255, true, { { WV_BAND, false, "WV", 2500, 2500 } } }, { "AIW", 0, 0, 0, 255, 255, true, { { IR_BAND, false, "IR", 2500, 2500 }, { WV_BAND, false, "WV", 2500, 2500 } } }, { "AVH", 0, 255, 0, 0, 0, true, { { VH_BAND, false, "VIS", 2500, 2500 } } }, { "AIVH", 0, 0, 255, 255, 0, true, { { IR_BAND, false, "IR", 2500, 2500 }, { VH_BAND, false, "VIS", 2500, 2500 } } }, { "AV", 0, 240, 240, 0, 0, true, { { VIS_BAND, true, "VIS", 5000, 5000 } } },
    { "BW", 255, 0, 0, 0, 1, false, { { WV_BAND, false, "WV", 1250, 625 } } }, { "BIW", 255, 0, 0, 255, 255, false, { { IR_BAND, false, "IR", 1250, 625 }, { WV_BAND, false, "WV", 1250, 625 } } }, { "BIV", 255, 240, 15, 255, 0, false, { { IR_BAND, false, "IR", 1250, 625 }, { VIS_BAND, true, "VIS", 2500, 1250 } } },
    { "XI", 15, 0, 0, 255, 0, false, { { IR_BAND, false, "IR", 1250, 1250 } } }, { "XW", 15, 0, 0, 0, 255, false, { { WV_BAND, false, "WV", 1250, 1250 } } }, { "XVH", 15, 255, 255, 0, 0, false, { { VH_BAND, false, "VH", 1250, 1250 } } } };
struct Sat { int b0, b1; const char* name; HRI_image_satellite x; };
static const std::vector<Sat> SATS = { { 212, 0, "METEOSAT", INDOX }, { 212, 240, "METEOSAT", INDOX }, { 212, 241, "METEOSAT-1", INDOX }, { 212, 247, "METEOSAT-7", INDOX }, { 212, 255, "METEOSAT-15", INDOX }, { 0, 0, "GOES-E", GOES_E }, { 0, 1, "GOES-W", GOES_W }, { 0, 2, "GMS", GMS }, { 0, 3, "GOMS", INDOX } };
struct Key { int number, station; std::string key; };
struct File { const Format* f; bool tec; const Sat* sat; int year, month, day, jday, hour, minute, lon, wday, col, line; unsigned frames, subs, cur, imgline, imgno; int grid, enc, dir; std::string label, seed, ident, inter, msg, keys, bytes; std::map<std::string, double> v; std::vector<std::string> img; std::vector<size_t> frame0; std::vector<Key> keyv; };
static bool leap(int y) { return y % 4 == 0 && (y % 100 || y % 400 == 0); }
static void header(Rng& r, File& f) {
    std::string& l = f.label; l.assign(24, 0); put_be(l, 0, f.frames = r.below(65536), 2); put_be(l, 2, f.subs = r.below(65536), 2); put_be(l, 4, f.cur = r.below(65536), 2); put_be(l, 6, f.imgline = r.below(65536), 2); put_be(l, 8, f.imgno = r.u64(), 4); l[12] = (char)f.f->fmt; l[13] = (char)f.f->viss; l[14] = (char)f.f->visn; l[15] = (char)f.f->ir; l[16] = (char)f.f->wv; l[17] = (char)(f.grid = r.chance(0.5) ? 255 : 0); l[18] = (char)(f.enc = r.below(16)); l[19] = (char)(f.dir = r.pick(std::vector<int>{ 0, 240, 15, 255 })); for (int i = 20; i < 24; ++i) l[i] = (char)('0' + r.below(10));
    f.seed.assign(8, 0); if (r.chance(0.7)) for (auto& c : f.seed) c = (char)(1 + r.below(255));
    static const int cum[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365 }; f.year = r.chance(0.8) ? r.range(1977, 2040) : r.range(1901, 2999); f.jday = r.chance(0.2) ? r.pick(std::vector<int>{ 1, 59, 60, 61, 365 }) : 1 + r.below(365 + leap(f.year)); f.month = 12; for (int m = 1; m <= 12; ++m) { int c = cum[m] + (m >= 2 && leap(f.year)); if (f.jday <= c) { f.month = m; break; } } f.day = f.jday - (cum[f.month - 1] + (f.month > 2 && leap(f.year))); f.hour = r.below(24); f.minute = r.below(60); { int y = f.year, m = f.month; static const int t[] = { 0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4 }; y -= m < 3; f.wday = (y + y / 4 - y / 100 + y / 400 + t[m - 1] + f.day) % 7; }
    std::string& d = f.ident; d.assign(48, 0); for (auto& c : d) c = (char)r.below(256); d[0] = (char)f.sat->b0; d[1] = (char)f.sat->b1; put_be(d, 2, f.year, 2); put_be(d, 4, f.jday, 2); put_be(d, 6, f.hour * 100 + f.minute, 2); put_be(d, 20, f.col = r.below(65536), 2); put_be(d, 22, f.line = r.below(65536), 2); f.lon = r.range(-180, 180); put_be(d, 24, (uint16_t)(int16_t)f.lon, 2);
    f.inter = interp(r, f.v, f.msg); f.keys.assign(1440, 0); f.keyv.clear(); for (int i = 0; i < 120; ++i) { for (int k = 1; k < 12; ++k) f.keys[i * 12 + k] = (char)r.below(256); if (r.chance(0.6)) { f.keys[i * 12] = 1; f.keyv.push_back({ (unsigned char)f.keys[i * 12 + 1], 0, f.keys.substr(i * 12 + 4, 8) }); } }
}
static void build(Rng& r, File& f) {
    header(r, f); f.img.clear(); f.frame0.clear(); std::string& o = f.bytes; o.clear(); char id = f.f->a ? 112 : 48; const char sync[] = { 5, 12, (char)0xDF }; uint64_t s = r.u64(); auto fillrnd = [&](std::string& b, size_t from) { for (size_t i = from; i < b.size(); ++i) b[i] = (char)((s = s * 6364136223846793005ULL + 1442695040888963407ULL) >> 56); };
    auto subframe = [&](const std::string& body) { f.frame0.push_back(o.size()); std::string fr(sync, 3); fr += id; for (size_t p = 0; p < body.size(); p += 360) { o += fr; o += body.substr(p, 360); } };   // body: multiple of 360
    std::string head = f.label + f.seed + f.ident + f.inter; int lineoff, linelen = f.f->a ? 2500 : 1250;
    if (f.tec) { o.assign(512, 0); fillrnd(o, 0); f.frame0.push_back(512); size_t rec = f.f->a ? 3072 : 1536; std::string h(sync, 3); h += id; h += head; if (f.f->a) h += f.keys; size_t n = h.size(); h.resize(rec); fillrnd(h, n); o += h; lineoff = f.f->a ? 388 : 196; }
    else { subframe(head + (f.f->a ? f.keys : std::string())); lineoff = f.f->a ? 64 : 32; }
    auto line = [&](const char* px) { if (f.tec) { size_t a = o.size(); f.frame0.push_back(a); o.resize(a + (f.f->a ? 3072 : 1536)); fillrnd(o, a); memcpy(&o[a], sync, 3); o[a + 3] = id; memcpy(&o[a + lineoff], px, linelen); } else { std::string b(f.f->a ? 2880 : 1440, 0); fillrnd(b, 0); memcpy(&b[lineoff], px, linelen); subframe(b); } };
    for (auto& b : f.f->bands) { std::string m((size_t)b.px * b.lines, 0); fillrnd(m, 0); f.img.push_back(m); }
    int n = f.f->bands[0].half ? f.f->bands[0].lines / 2 : f.f->bands[0].lines; for (int i = 0; i < n; ++i) for (size_t k = 0; k < f.f->bands.size(); ++k) { auto& b = f.f->bands[k]; if (b.half) for (int q = 0; q < 4; ++q) line(&f.img[k][((size_t)(2 * i + q / 2) * 2 + q % 2) * (b.px / 2)]); else line(&f.img[k][(size_t)i * b.px]); }
}
static void pick(Rng& r, File& f, bool big) { std::vector<const Format*> p; for (auto& x : FORMATS) if (x.a == big) p.push_back(&x); f.f = r.pick(p); f.tec = r.chance(0.4); std::vector<const Sat*> s; for (auto& x : SATS) if (f.f->fmt != 15 ? x.b0 == 212 : x.b0 == 0) s.push_back(&x); f.sat = r.pick(s); }
}
