// C01: every sample of an xRIT product at its full-disk position, zero elsewhere
#include "synth.h"
#include "gdalutil.h"
#include <msat/xrit/fileaccess.h>
#include <msat/xrit/dataaccess.h>
#include <msat/hrit/MSG_HRIT.h>
using namespace xs; using namespace vf;

static std::string describe(const Product& p) {
    std::string s = fmt("ch %d cols %d seglines %d swap %d compr %d format %d present", p.channel, p.cols, p.seglines, p.swap, p.compr, p.format);
    for (int i : p.present) s += fmt(" %d", i);
    if (p.hrv()) s += fmt(" lower %d-%d e%d upper %d-%d e%d", p.lower[0], p.lower[1], p.lower[2], p.upper[0], p.upper[1], p.upper[2]);
    return s;
}
static void seen(const Product& p) {
    obs("layout", fmt("ch%d sl%d swap%d compr%d fmt%d %s", p.channel, p.seglines, p.swap, p.compr, p.format, p.hrv() ? (p.upper[0] ? "two windows" : "one window") : "full"));
    obs("windows", p.hrv() ? fmt("%d/%d %d", p.lower[2], p.upper[2], p.lower[1]) : "full");
    std::string s; for (int i : p.present) s += fmt("%d,", i);
    obs("segments", fmt("%d:", p.seglines) + s);
}
// rows worth looking at: segment edges, window edges, image edges, random
static std::vector<int> rows_of(const Product& p, Rng& r, int extra) {
    std::set<int> rows; int F = p.full();
    auto add = [&](int line) { if (line >= 1 && line <= F) rows.insert(F - line); };
    for (int s : p.present) { int a = (s - 1) * p.seglines + 1, b = s * p.seglines; add(a); add(a - 1); add(a + 1); add(b); add(b + 1); add(b - 1); for (int i = 0; i < 3; ++i) add(r.range(a, b)); }
    if (p.hrv()) for (int v : { p.lower[0], p.lower[1], p.upper[0], p.upper[1] }) if (v) { add(v - 1); add(v); add(v + 1); }
    add(1); add(F);
    for (int i = 0; i < extra; ++i) add(r.range(1, F));
    std::vector<int> v(rows.begin(), rows.end());
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    return v;
}

static Product make(Rng& r, uint64_t idx, const char* tag, bool bigok) {
    int ch = 1 + (idx % 12); if (idx % 3 == 0) ch = 12;
    Product p = random_product(r, cfg().scratch + fmt("/%s%llu", tag, (unsigned long long)idx), ch, 2);
    if (!bigok && p.seglines > 120) { p.seglines = p.hrv() ? 58 : 58; p.nsegs = p.full() / p.seglines; std::set<int> q; int first = p.hrv() && !p.upper[0] ? (p.lower[0] + p.seglines - 2) / p.seglines + 1 : 1; for (int s : p.present) q.insert(std::max(first, std::min(p.nsegs, s))); p.present = q; }
    if (p.present.size() > 4) { while (p.present.size() > 4) { auto it = p.present.begin(); std::advance(it, r.below(p.present.size())); p.present.erase(it); } }
    return p;
}

// Line interface: row r of the full disk is line_start zeros followed by the line
static void da_case(uint64_t idx, Rng& r) {
    Product p = make(r, idx, "da", idx % 8 == 0);
    note(describe(p)); seen(p); write_product(p);
    msat::xrit::FileAccess fa(p.segpath(*p.present.rbegin()));
    msat::xrit::DataAccess da; MSG_data pro, epi; MSG_header head;
    da.scan(fa, pro, epi, head);
    VEXPECT((int)da.columns == p.cols && (int)da.seglines == p.seglines && (int)da.lines == p.seglines * p.nsegs && da.hrv == p.hrv(), "geometry", "columns %zu lines %zu seglines %zu for %s", da.columns, da.lines, da.seglines, describe(p).c_str());
    for (int row : rows_of(p, r, 6)) {
        std::vector<uint16_t> buf(p.cols + 2, 0x5a5a);
        size_t start = da.line_start(row);
        std::vector<uint16_t> line(p.cols); 
        da.line_read(row, line.data());
        int bad = -1; uint16_t got = 0, want = 0;
        if (start > (size_t)p.full() || start + p.cols > (size_t)p.full()) { 
            bool empty = true; for (uint16_t v : line) if (v) empty = false;
            if (!empty) viol("line-outside-grid", fmt("row %d starts at %zu: %s", row, start, describe(p).c_str()));
        } else for (int col = 0; col < p.full() && bad < 0; ++col) {
            want = p.raster(row, col);
            got = col < (int)start || col >= (int)start + p.cols ? 0 : line[col - start];
            if (got != want) bad = col;
        }
        VEXPECT(bad < 0, "line-placement", "row %d (start %zu) column %d: %d instead of %d; %s", row, start, bad, got, want, describe(p).c_str());
        int s, l, c; bool cov = p.covered(row, p.full() / 2, s, l, c);
        obs("line-kind", cov ? (p.present.count(s) ? fmt("ch%d seg %s line %s", p.channel, s == 1 ? "first" : s == p.nsegs ? "last" : "mid", l == 0 ? "first" : l == p.seglines - 1 ? "last" : "mid") : "missing") : "uncovered");
    }
    sample(describe(p));
    remove_product(p);
}

static void gdal_case(uint64_t idx, Rng& r) {
    Product p = make(r, idx, "gd", idx % 10 == 0);
    note(describe(p)); seen(p); write_product(p);
    vg::init();
    std::string name = r.chance(0.5) ? p.segpath(*p.present.begin()) : p.shortname();
    vg::DS ds = vg::open(name);
    if (!VEXPECT(ds != nullptr, "open-failed", "%s: %s", name.c_str(), CPLGetLastErrorMsg())) { remove_product(p); return; }
    int F = p.full();
    VEXPECT(ds->GetRasterXSize() == F && ds->GetRasterYSize() == F && ds->GetRasterCount() == 1, "raster-size", "%dx%d", ds->GetRasterXSize(), ds->GetRasterYSize());
    GDALRasterBand* rb = ds->GetRasterBand(1);
    bool lin = p.channel < 4 || p.hrv();
    std::map<int, float> conv;
    auto want = [&](int row, int col) -> double {
        int v = p.raster(row, col);
        if (lin) return v;
        auto i = conv.find(v); if (i != conv.end()) return i->second;
        int s, l, c; bool cov = p.covered(row, col, s, l, c) && p.present.count(s);
        (void)cov;
        double t = physical(p, v); if (std::isnan(t)) t = 0; conv[v] = (float)t; return t;
    };
    std::vector<int> rows = rows_of(p, r, 4);
    for (int k = 0; k < (int)rows.size(); ++k) {
        int x0 = 0, w = F, y0 = rows[k], h = 1;
        if (k % 3 == 1) { w = 1 + r.below(F); x0 = r.below(F - w + 1); h = 1 + r.below(5); if (y0 + h > F) y0 = F - h; }
        else if (k % 3 == 2) { w = 1 + r.below(40); x0 = r.chance(0.2) ? 0 : r.chance(0.2) ? F - w : r.below(F - w + 1); h = 1 + r.below(12); if (y0 + h > F) y0 = F - h; }
        obs("window", fmt("%s%s w%d h%d", x0 == 0 ? "W" : "", x0 + w == F ? "E" : "", w > 100 ? 100 : w, h));
        std::vector<float> buf((size_t)w * h, -7);
        CPLErr e = rb->RasterIO(GF_Read, x0, y0, w, h, buf.data(), w, h, GDT_Float32, 0, 0, nullptr);
        if (!VEXPECT(e == CE_None, "read-failed", "window %d,%d %dx%d of %s: %s", x0, y0, w, h, describe(p).c_str(), CPLGetLastErrorMsg())) continue;
        long bad = -1; double wv = 0;
        for (int y = 0; y < h && bad < 0; ++y) for (int x = 0; x < w; ++x) {
            wv = want(y0 + y, x0 + x);
            double g = buf[(size_t)y * w + x];
            if (lin ? g != wv : fabs(g - wv) > 0.02) { bad = (long)y * w + x; break; }
        }
        VEXPECT(bad < 0, "pixel-placement", "row %ld column %ld of window %d,%d %dx%d: %g instead of %g; %s", y0 + bad / w, x0 + bad % w, x0, y0, w, h, bad < 0 ? 0.0 : buf[bad], wv, describe(p).c_str());
    }
    sample(describe(p) + " opened as " + name);
    ds.reset();
    remove_product(p);
}
// The line interface on its own orders, whole product: exactly once
static void once_case(uint64_t idx, Rng& r) {
    Product p = make(r, idx, "on", false);
    // one non-zero unique sample per (segment,line): count how often each turns up
    p.compr = 1;
    while (p.present.size() > 2) p.present.erase(p.present.begin());
    for (int s : p.present) {
        std::vector<uint16_t> v((size_t)p.cols * p.seglines, 0);
        for (int l = 0; l < p.seglines; ++l) v[(size_t)l * p.cols + r.below(p.cols)] = 1 + l;
        p.fixed[s] = v;
    }
    note(describe(p)); write_product(p);
    msat::xrit::FileAccess fa(p.segpath(*p.present.begin()));
    msat::xrit::DataAccess da; MSG_data pro, epi; MSG_header head;
    da.scan(fa, pro, epi, head);
    std::map<uint16_t, int> count; std::vector<uint16_t> line(p.cols);
    size_t placed = 0;
    for (int row = 0; row < p.full(); ++row) {
        da.line_read(row, line.data()); 
        for (uint16_t v : line) if (v) { count[v]++; ++placed; }
    }
    size_t stored = 0; 
    for (int s : p.present) for (int l = 0; l < p.seglines; ++l) { int line = (s - 1) * p.seglines + l + 1; if (!p.hrv() || (p.lower[0] && line >= p.lower[0] && line <= p.lower[1]) || (p.upper[0] && line >= p.upper[0] && line <= p.upper[1])) ++stored; }
    VEXPECT(placed == stored, "exactly-once", "%zu stored samples turned up %zu times; %s", stored, placed, describe(p).c_str());
    obs("conservation", fmt("ch%d sl%d n%zu", p.channel, p.seglines, p.present.size()));
    remove_product(p);
}
int main(int argc, char** argv) {
    parse_args(argc, argv);
    bool th = cfg().thorough;
    add_group("line", th ? 6000 : 800, 4, 60, da_case);
    add_group("raster", th ? 5000 : 640, 4, 90, gdal_case);
    add_group("once", th ? 1500 : 160, 2, 60, once_case);
    return run_all();
}
