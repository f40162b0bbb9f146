// Builds synthetic xRIT products, from the format specifications: header
// records (CGMS LRIT/HRIT global specification, MSG mission specific
// implementation) and the fields of prologue and epilogue that reading a
// product depends on (MSG level 1.5 image data format).
#pragma once
#include "common.h"
#include <climits>

namespace xs {
using vf::Rng; using vf::Bytes; using vf::put_be; using vf::put_r4; using vf::put_r8;

static const size_t PRO_SIZE = 60134 + 700 + 326058 + 101 + 20815 + 17653;
static const size_t EPI_SIZE = 1 + 340 + 5680 + 371256 + 2916 + 132;
static const size_t PRO_ACQ = 60134, PRO_DESC = 60134 + 700 + 326058, PRO_RAD = PRO_DESC + 101, PRO_CAL = PRO_RAD + 72;

struct Cds { unsigned day = 17000; uint32_t ms = 0; unsigned us = 0, ns = 0; };

struct ChanInfo { int id; const char* name; };
static const ChanInfo CHANS[12] = { {1, "VIS006"}, {2, "VIS008"}, {3, "IR_016"}, {4, "IR_039"}, {5, "WV_062"}, {6, "WV_073"},
    {7, "IR_087"}, {8, "IR_097"}, {9, "IR_108"}, {10, "IR_120"}, {11, "IR_134"}, {12, "HRV"} };

// days since 1 January 1958 of a civil date (independent of the code under test)
inline long civil_days(int y, int m, int d) {      // days from 1970-01-01, Hinnant
    y -= m <= 2; long era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = y - era * 400;
    unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (long)doe - 719468;
}
inline void civil_from(long z, int& y, int& m, int& d) {
    z += 719468; long era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = z - era * 146097;
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = yoe + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp + (mp < 10 ? 3 : -9); y += m <= 2;
}
inline long cds_day(int y, int m, int d) { return civil_days(y, m, d) - civil_days(1958, 1, 1); }

struct Product {
    int scid = 322;                 // 321 MSG1 .. 324 MSG4
    int channel = 1;
    int bpp = 10;
    int cols = 3712, seglines = 464, nsegs = 8;
    int compr = 1;                  // 0 none (host order 16 bit), 1 lossless, 2 lossy
    int format = 1;                 // JPEG
    bool swap = true;               // east to west scan (CFAC < 0)
    double lon = 0;
    std::string lonfmt;             // projection name, empty for the usual one
    double slope[12], offset[12];
    int y = 2010, mo = 1, d = 19, hh = 12, mi = 0; uint32_t extra_ms = 10000;
    // HRV windows: south, north, east, west
    int lower[4] = {1, 8192, 1, 5568}, upper[4] = {8193, 11136, 1885, 7452};
    float step_vis = 3.0004033f, step_hrv = 1.0001344f;
    std::string dir, res = "H", pid1 = "MSG2", pid2 = "VIS006", timing = "201001191200";
    std::string num = "000", sat = "MSG2__";
    std::set<int> present;          // 1-based segment numbers written
    uint64_t seed = 1;
    int wide = 10;                  // significant bits of the samples
    std::map<int, std::vector<uint16_t>> fixed;   // segments with chosen contents

    bool hrv() const { return channel == 12; }
    int full() const { return hrv() ? 11136 : 3712; }

    // the sample stored at segment s (1-based), line l, column c (stored order)
    uint16_t sample(int s, int l, int c) const {
        auto f = fixed.find(s);
        if (f != fixed.end()) return f->second[(size_t)l * cols + c];
        uint64_t h = vf::mix(seed * 0x9e37 + ((uint64_t)s << 40) + ((uint64_t)l << 20) + c);
        return (uint16_t)(h & ((1u << wide) - 1));
    }
    // what the full-disk raster must hold at row/column, from the definition of
    // the grid: lines count from the south, columns from the east, both from 1
    bool covered(int row, int col, int& s, int& l, int& c) const {
        int line = full() - row;                 // 1-based from the south
        s = (line - 1) / seglines + 1; l = (line - 1) % seglines;
        if (s > nsegs) return false;
        int east = full() - col;                 // 1-based from the east
        if (hrv()) {
            int e;
            if (lower[0] && line >= lower[0] && line <= lower[1]) e = lower[2];
            else if (upper[0] && line >= upper[0] && line <= upper[1]) e = upper[2];
            else return false;
            c = east - e;
        } else c = east - 1;
        if (c < 0 || c >= cols) return false;
        if (!swap) c = cols - 1 - c;
        return true;
    }
    uint16_t raster(int row, int col) const {
        int s, l, c;
        if (!covered(row, col, s, l, c) || !present.count(s)) return 0;
        return sample(s, l, c);
    }
    std::string pad(std::string s, size_t n) const { s.resize(std::max(n, s.size()), '_'); return s; }
    std::string segname(int s) const { return res + "-" + num + "-" + sat + "-" + pad(pid1, 12) + "-" + pad(pid2, 9) + "-" + vf::fmt("%06d___", s) + "-" + timing + "-C_"; }
    std::string proname() const { return res + "-" + num + "-" + sat + "-" + pad(pid1, 12) + "-_________-PRO______-" + timing + "-__"; }
    std::string epiname() const { return res + "-" + num + "-" + sat + "-" + pad(pid1, 12) + "-_________-EPI______-" + timing + "-__"; }
    std::string shortname() const { return dir + "/" + res + ":" + pid1 + ":" + pid2 + ":" + timing; }
    std::string segpath(int s) const { return dir + "/" + segname(s); }

    Cds acq() const { Cds c; c.day = cds_day(y, mo, d); c.ms = (hh * 3600u + mi * 60u) * 1000u + extra_ms; c.us = 123; c.ns = 456; return c; }
};

inline std::string rec_image(int bpp, int cols, int lines, int compr) { Bytes b; b.u1(1); b.u2(9); b.u1(bpp); b.u2(cols); b.u2(lines); b.u1(compr); return b.b; }
inline std::string rec_navig(const std::string& proj, int cfac, int lfac, int coff, int loff) {
    Bytes b; b.u1(2); b.u2(51); std::string p = proj; p.resize(32, ' '); b.str(p); b.u4(cfac); b.u4(lfac); b.u4(coff); b.u4(loff); return b.b; }
inline std::string rec_annot(const std::string& text) { Bytes b; b.u1(4); b.u2(64); std::string t = text; t.resize(61, '_'); b.str(t); return b.b; }
inline std::string rec_time(unsigned day, uint32_t ms) { Bytes b; b.u1(5); b.u2(10); b.u1(0x40); b.u2(day); b.u4(ms); return b.b; }
inline std::string rec_key(unsigned num, uint64_t seed) { Bytes b; b.u1(7); b.u2(12); b.u1(num); b.u8(seed); return b.b; }
inline std::string rec_segid(int sc, int ch, int seq, int ps, int pe, int fmt) { Bytes b; b.u1(128); b.u2(13); b.u2(sc); b.u1(ch); b.u2(seq); b.u2(ps); b.u2(pe); b.u1(fmt); return b.b; }
inline std::string rec_quality(int lines, int first, unsigned day, uint32_t ms) {
    Bytes b; b.u1(129); b.u2(3 + lines * 13);
    for (int i = 0; i < lines; ++i) { b.u4(first + i); b.u2(day); b.u4(ms + i * 10); b.u1(1); b.u1(1); b.u1(0); }
    return b.b;
}
inline std::string rec_var(int type, const std::string& text) { Bytes b; b.u1(type); b.u2(3 + text.size()); b.str(text); return b.b; }
inline std::string file_of(int filetype, const std::string& recs, const std::string& data) {
    Bytes b; b.u1(0); b.u2(16); b.u1(filetype); b.u4(16 + recs.size()); b.u8((uint64_t)data.size() * 8); return b.b + recs + data;
}

inline std::string projname(const Product& p) { return p.lonfmt.empty() ? vf::fmt("GEOS(%+06.1f)", p.lon) : p.lonfmt; }

inline std::string segment_data(const Product& p, int s) {
    std::string r; size_t n = (size_t)p.cols * p.seglines; r.resize(n * 2); unsigned char* o = (unsigned char*)&r[0];
    for (int l = 0; l < p.seglines; ++l) for (int c = 0; c < p.cols; ++c, o += 2) {
        uint16_t v = p.sample(s, l, c);
        if (p.compr) { o[0] = v >> 8; o[1] = v; } else memcpy(o, &v, 2);
    }
    return r;
}
inline std::string segment_recs(const Product& p, int s) {
    Cds t = p.acq();
    // scaling factors of the two grids, negative for scans from east and south
    int cfac = p.hrv() ? -40927014 : -13642337; if (!p.swap) cfac = -cfac;
    int lfac = p.hrv() ? -40927014 : -13642337;
    int off = p.hrv() ? 5566 : 1856;
    std::string r = rec_image(p.bpp, p.cols, p.seglines, p.compr) + rec_navig(projname(p), cfac, lfac, off, off)
        + rec_annot(p.segname(s)) + rec_time(t.day, t.ms) + rec_segid(p.scid, p.channel, s, 1, p.nsegs, p.format);
    if (3 + 13 * p.seglines < 65536) r += rec_quality(p.seglines, (s - 1) * p.seglines + 1, t.day, t.ms);
    return r;
}
inline void put_cds10(std::string& s, size_t o, const Cds& c) { put_be(s, o, c.day, 2); put_be(s, o + 2, c.ms, 4); put_be(s, o + 6, c.us, 2); put_be(s, o + 8, c.ns, 2); }
inline std::string prologue_data(const Product& p) {
    std::string d(PRO_SIZE, 0);
    Rng r(p.seed ^ 0xabcdef);
    for (size_t i = 0; i < 60134; ++i) d[i] = 0;
    put_cds10(d, PRO_ACQ, p.acq());
    Cds e = p.acq(); e.ms += 720000; put_cds10(d, PRO_ACQ + 10, e); e.ms += 100000; put_cds10(d, PRO_ACQ + 20, e);
    d[PRO_DESC] = 1; put_r4(d, PRO_DESC + 1, p.lon);
    put_be(d, PRO_DESC + 5, 3712, 4); put_be(d, PRO_DESC + 9, 3712, 4); put_r4(d, PRO_DESC + 13, p.step_vis); put_r4(d, PRO_DESC + 17, p.step_vis); d[PRO_DESC + 21] = 2;
    put_be(d, PRO_DESC + 22, 11136, 4); put_be(d, PRO_DESC + 26, 11136, 4); put_r4(d, PRO_DESC + 30, p.step_hrv); put_r4(d, PRO_DESC + 34, p.step_hrv); d[PRO_DESC + 38] = 2;
    for (int i = 0; i < 12; ++i) { put_r8(d, PRO_CAL + 16 * i, p.slope[i]); put_r8(d, PRO_CAL + 16 * i + 8, p.offset[i]); }
    return d;
}
inline std::string epilogue_data(const Product& p) {
    std::string d(EPI_SIZE, 0);
    // actual coverage: the last 48 bytes of the 340 of the product statistics
    size_t o = 1 + 340 - 48;
    int vis[4] = {1, 3712, 1, 3712};
    for (int i = 0; i < 4; ++i) put_be(d, o + 4 * i, vis[i], 4);
    for (int i = 0; i < 4; ++i) put_be(d, o + 16 + 4 * i, p.lower[i], 4);
    for (int i = 0; i < 4; ++i) put_be(d, o + 32 + 4 * i, p.upper[i], 4);
    return d;
}
inline std::string prologue_file(const Product& p) { return file_of(128, rec_annot(p.proname()) + rec_time(p.acq().day, p.acq().ms), prologue_data(p)); }
inline std::string epilogue_file(const Product& p) { return file_of(129, rec_annot(p.epiname()) + rec_time(p.acq().day, p.acq().ms), epilogue_data(p)); }
inline std::string segment_file(const Product& p, int s) { return file_of(0, segment_recs(p, s), segment_data(p, s)); }

inline void write_product(const Product& p) {
    mkdir(p.dir.c_str(), 0755);
    vf::write_file(p.dir + "/" + p.proname(), prologue_file(p));
    vf::write_file(p.dir + "/" + p.epiname(), epilogue_file(p));
    for (int s : p.present) vf::write_file(p.segpath(s), segment_file(p, s));
}
inline void remove_product(const Product& p) {
    unlink((p.dir + "/" + p.proname()).c_str()); unlink((p.dir + "/" + p.epiname()).c_str());
    for (int s : p.present) unlink(p.segpath(s).c_str());
    rmdir(p.dir.c_str());
}

// Calibrations like the real ones: radiance per count, negative offset
inline void real_calibration(Product& p) {
    static const double sl[12] = { 0.02050, 0.02715, 0.02217, 0.00365, 0.00831, 0.03862, 0.12674, 0.10396, 0.20503, 0.22231, 0.15769, 0.02724 };
    for (int i = 0; i < 12; ++i) { p.slope[i] = sl[i]; p.offset[i] = -51 * sl[i]; }
}
// A product with a random layout. few: how many segments to write
inline Product random_product(Rng& r, const std::string& dir, int channel, int few) {
    Product p; p.dir = dir; p.channel = channel; p.seed = r.u64(); p.pid2 = CHANS[channel - 1].name;
    p.scid = 321 + r.below(4); p.pid1 = vf::fmt("MSG%d", p.scid - 320); p.sat = p.pid1 + "__";
    real_calibration(p);
    for (int i = 0; i < 12; ++i) { p.slope[i] *= r.real(0.8, 1.3); p.offset[i] = -p.slope[i] * r.range(40, 60); }
    p.swap = r.chance(0.8);
    static const double lons[] = { 0, 9.5, -3.4, 3.5, 41.5, -45.3, 0, 57.0 };
    p.lon = lons[r.below(8)];
    int ct = r.below(5); p.compr = ct == 0 ? 0 : 1 + (ct > 3); p.format = 1 + r.below(3);
    if (p.compr == 0) p.format = 1;
    p.y = 2004 + r.below(20); p.mo = 1 + r.below(12); p.d = 1 + r.below(28); p.hh = r.below(24); p.mi = 15 * r.below(4); p.extra_ms = r.below(59000);
    p.timing = vf::fmt("%04d%02d%02d%02d%02d", p.y, p.mo, p.d, p.hh, p.mi);
    std::vector<int> sl = channel == 12 ? std::vector<int>{464, 232, 116, 58, 29, 16, 87} : std::vector<int>{464, 232, 116, 58, 29, 16, 32};
    p.seglines = r.pick(sl); p.nsegs = p.full() / p.seglines;
    p.cols = channel == 12 ? 5568 : 3712;
    if (channel == 12) {
        bool rss = r.chance(0.25);
        if (rss) {
            p.lower[0] = 6961; p.lower[1] = 11136; p.lower[2] = r.range(1, 5569); p.lower[3] = p.lower[2] + 5567;
            for (int& v : p.upper) v = 0;
        } else {
            int split = r.chance(0.5) ? 64 * r.range(100, 140) : r.range(4000, 10000);
            p.lower[0] = 1; p.lower[1] = split; p.lower[2] = r.range(1, r.chance(0.3) ? 1 : 5569); p.lower[3] = p.lower[2] + 5567;
            p.upper[0] = split + 1; p.upper[1] = 11136; p.upper[2] = r.range(1, 5569); p.upper[3] = p.upper[2] + 5567;
            if (r.chance(0.15)) for (int& v : p.upper) v = 0;          // the upper window was not scanned
            else if (r.chance(0.1)) p.upper[1] -= r.range(1, 400);     // the scan ended early
        }
    }
    std::vector<int> want;
    int first = 1;
    if (channel == 12 && !p.upper[0]) first = (p.lower[0] - 1) / p.seglines + 1 + ((p.lower[0] - 1) % p.seglines ? 1 : 0);
    if (r.chance(0.5)) want.push_back(first);
    int last = p.nsegs;
    if (channel == 12) last = std::max(first, std::max(p.lower[1], p.upper[1]) / p.seglines);
    if (r.chance(0.5)) want.push_back(last);
    if (channel == 12 && p.upper[0]) { int b = (p.upper[0] - 1) / p.seglines + 1; if (r.chance(0.8)) want.push_back(b); }
    while ((int)want.size() < few) { int s = r.range(first, last); want.push_back(s); if (s < last && r.chance(0.3)) want.push_back(s + 1); }
    p.present.insert(want.begin(), want.end());
    return p;
}

// Published conversion from spectral radiance to brightness temperature
inline double bt(int ch, double rad) {
    static const double nu[8] = { 2569.094, 1598.566, 1362.142, 1149.083, 1034.345, 930.659, 839.661, 752.381 };
    static const double al[8] = { 0.9959, 0.9963, 0.9991, 0.9996, 0.9999, 0.9983, 0.9988, 0.9981 };
    static const double be[8] = { 3.471, 2.219, 0.485, 0.181, 0.060, 0.627, 0.397, 0.576 };
    const double c1 = 1.19104e-5, c2 = 1.43877;
    int i = ch - 4;
    return (c2 * nu[i] / log(c1 * nu[i] * nu[i] * nu[i] / rad + 1) - be[i]) / al[i];
}
inline double physical(const Product& p, int count) {      // NaN: no value
    double rad = count * p.slope[p.channel - 1] + p.offset[p.channel - 1];
    if (p.channel < 4 || p.channel == 12) return rad;
    if (rad <= 0) return NAN;
    double t = bt(p.channel, rad);
    return t > 0 ? t : NAN;
}
}
