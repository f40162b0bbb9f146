// C02: what a read returns depends on the product and the request alone
#include "synth.h"
#include "gdalutil.h"
#include <msat/xrit/fileaccess.h>
#include <msat/xrit/dataaccess.h>
#include <msat/hrit/MSG_HRIT.h>
using namespace xs; using namespace vf;

static std::string describe(const Product& p) {
    std::string s = fmt("ch %d cols %d seglines %d swap %d compr %d present", p.channel, p.cols, p.seglines, p.swap, p.compr);
    for (int i : p.present) s += fmt(" %d", i);
    return s;
}
static Product make(Rng& r, const std::string& dir, int nseg, int k) {
    int ch = r.chance(0.25) ? 12 : 1 + r.below(11);
    Product p = random_product(r, dir, ch, 1);
    p.seglines = r.chance(0.5) ? 16 : 29; if (ch == 12 && p.seglines == 16) p.seglines = 29; if (ch == 12) p.seglines = r.chance(0.5) ? 29 : 16;
    p.nsegs = p.full() / p.seglines;
    p.timing = fmt("2010%02d%02d%02d%02d", 1 + k, 10 + k, 12, 15 * (k % 4));
    int base = ch == 12 ? std::max(1, (p.lower[0] + p.seglines - 2) / p.seglines + 1) : 1;
    int top = ch == 12 ? std::max(p.lower[1], p.upper[1]) / p.seglines : p.nsegs;
    p.present.clear();
    int s = r.range(base, std::max(base, top - nseg * 2));
    for (int i = 0; i < nseg && s <= top; ++i) { p.present.insert(s); s += r.chance(0.8) ? 1 : 2 + r.below(3); }
    return p;
}
// a row to ask for: mostly inside what is there
static int some_row(const Product& p, Rng& r) {
    if (r.chance(0.06)) return r.below(p.full());
    std::vector<int> v(p.present.begin(), p.present.end());
    int s = r.pick(v); if (r.chance(0.08)) s += r.chance(0.5) ? 1 : -1;
    int l = r.chance(0.3) ? (r.chance(0.5) ? 0 : p.seglines - 1) : (int)r.below(p.seglines);
    int line = (s - 1) * p.seglines + l + 1;
    return std::max(0, std::min(p.full() - 1, p.full() - line));
}
static int seg_of(const Product& p, int row) { return (p.full() - row - 1) / p.seglines + 1; }

struct Open {
    Product* p;
    std::unique_ptr<msat::xrit::FileAccess> fa; std::unique_ptr<msat::xrit::DataAccess> da; vg::DS ds;
};
static void open_da(Open& o) {
    o.fa.reset(new msat::xrit::FileAccess(o.p->segpath(*o.p->present.begin())));
    o.da.reset(new msat::xrit::DataAccess);
    MSG_data pro, epi; MSG_header head; o.da->scan(*o.fa, pro, epi, head);
}
// 0 right, 1 error reported, -1 wrong
static int read_da(Open& o, int row, std::string& what) {
    const Product& p = *o.p;
    std::vector<uint16_t> line(p.cols + 1, 0x7ffe);
    size_t start = o.da->line_start(row);
    try { o.da->line_read(row, line.data()); } catch (std::exception& e) { what = e.what(); return 1; }
    if (line[p.cols] != 0x7ffe) { what = "written past the line"; return -1; }
    for (int c = 0; c < p.cols; ++c) {
        int col = (int)start + c;
        uint16_t want = col < p.full() ? p.raster(row, col) : 0;
        int s, l, cc; if (p.hrv() && !(col < p.full() && p.covered(row, col, s, l, cc))) continue;    // outside the windows: placement is C01's
        if (line[c] != want) { what = fmt("row %d column %d: %d instead of %d", row, col, line[c], want); return -1; }
    }
    return 0;
}
static int read_gdal(Open& o, Rng& r, int row, std::string& what) {
    const Product& p = *o.p; int F = p.full();
    int w = r.chance(0.3) ? F : 1 + r.below(500), h = 1 + r.below(r.chance(0.1) ? 3 * p.seglines : 6);
    int x0 = r.below(F - w + 1), y0 = std::min(row, F - h);
    std::vector<float> buf((size_t)w * h, -9);
    if (o.ds->GetRasterBand(1)->RasterIO(GF_Read, x0, y0, w, h, buf.data(), w, h, GDT_Float32, 0, 0, nullptr) != CE_None) { what = CPLGetLastErrorMsg(); return 1; }
    bool lin = p.channel < 4 || p.hrv();
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
        double want = p.raster(y0 + y, x0 + x); if (!lin) { want = physical(p, (int)want); if (std::isnan(want)) want = 0; }
        double g = buf[(size_t)y * w + x];
        if (lin ? g != want : fabs(g - want) > 0.02) { what = fmt("window %d,%d %dx%d, row %d column %d: %g instead of %g", x0, y0, w, h, y0 + y, x0 + x, g, want); return -1; }
    }
    return 0;
}

static void history(uint64_t idx, Rng& r) {
    vg::init();
    GDALSetCacheMax64(200000 + r.below(3) * 4000000);
    int np = 1 + r.below(3); std::vector<Product> ps; std::vector<Open> os(np);
    for (int k = 0; k < np; ++k) { ps.push_back(make(r, cfg().scratch + fmt("/h%llu_%d", (unsigned long long)idx, k), 2 + r.below(7), k)); }
    bool same = np > 1 && r.chance(0.4);
    if (same) ps[1] = ps[0];             // the same product opened twice
    std::string d; for (auto& p : ps) d += describe(p) + "; ";
    note(d);
    for (auto& p : ps) write_product(p);
    for (int k = 0; k < np; ++k) os[k].p = &ps[k];
    long long base = heap(); long long segbytes = 0; for (auto& p : ps) segbytes = std::max(segbytes, (long long)p.cols * p.seglines * 2);
    long long per_open = 0; std::string trail;
    for (int step = 0; step < 60; ++step) {
        shm()->sub = step;
        Open& o = os[r.below(np)]; int op = r.below(10); std::string what; int res = 0; const char* kind;
        int row = some_row(*o.p, r);
        if (op < 1) { kind = "reopen"; if (r.chance(0.5)) { o.da.reset(); o.fa.reset(); } else o.ds.reset(); continue; }
        else if (op < 6) { kind = "line"; if (!o.da) open_da(o); int rep = 1 + r.below(3); for (int i = 0; i < rep && res == 0; ++i) res = read_da(o, row, what);
            VEXPECT(o.da->segcache.size() <= 2, "cache-unbounded", "%zu segments in memory", o.da->segcache.size()); }
        else { kind = "window"; if (!o.ds) o.ds = vg::open(r.chance(0.5) ? o.p->shortname() : o.p->segpath(*o.p->present.rbegin()));
            if (!VEXPECT(o.ds != nullptr, "open-failed", "%s", CPLGetLastErrorMsg())) break;
            res = read_gdal(o, r, row, what); }
        trail += fmt(" %ld:%s@%d", (long)(&o - &os[0]), kind, seg_of(*o.p, row));
        VEXPECT(res == 0, std::string(res > 0 ? "read-failed" : "history-dependent-") + kind, "step %d %s: %s; %s", step, kind, what.c_str(), d.c_str());
        obs("transition", fmt("%s x%d %s", kind, np, same ? "same" : "own"));
        (void)per_open;
        if (step % 10 == 9) {   // every segment a fresh opening would hold, and nothing that grows
            int opens = 0; for (auto& x : os) opens += (x.da ? 1 : 0) + (x.ds ? 1 : 0);
            long long held = heap() - base, cap = opens * (2 * segbytes + 3000000) + GDALGetCacheMax64() + 4000000;
            VEXPECT(held <= cap, "memory-growth", "%lld bytes held with %d open, at most %lld needed", held, opens, cap);
        }
    }
    obs("history", trail.substr(0, 150)); sample(d + trail.substr(0, 300));
    for (auto& o : os) { o.da.reset(); o.fa.reset(); o.ds.reset(); }
    for (auto& p : ps) remove_product(p);
}
// Segments that go bad, and come back, while the product is open
static void faults(uint64_t idx, Rng& r) {
    vg::init(); GDALSetCacheMax64(100000);
    Product p = make(r, cfg().scratch + fmt("/f%llu", (unsigned long long)idx), 3 + r.below(4), 0);
    note(describe(p)); write_product(p);
    Open o; o.p = &p; open_da(o); o.ds = vg::open(p.shortname());
    if (!VEXPECT(o.ds != nullptr, "open-failed", "%s", CPLGetLastErrorMsg())) { remove_product(p); return; }
    std::map<int, std::string> bad; std::vector<int> segs(p.present.begin(), p.present.end()); std::string trail;
    for (int step = 0; step < 70; ++step) {
        shm()->sub = step;
        if (step > 4 && r.chance(0.15)) {
            int s = r.pick(segs);
            if (bad.count(s)) { if (bad[s] == "directory") rmdir(p.segpath(s).c_str()); write_file(p.segpath(s), segment_file(p, s)); bad.erase(s); trail += fmt(" mend%d", s); }
            else {
                std::string f = segment_file(p, s), kind; int k = r.below(8);
                if (k == 0) { unlink(p.segpath(s).c_str()); kind = "removed"; }
                else if (k == 1) { write_file(p.segpath(s), ""); kind = "emptied"; }
                else if (k == 2) { write_file(p.segpath(s), f.substr(0, r.below(f.size()))); kind = "cut"; }
                else if (k == 3) { write_file(p.segpath(s), f.substr(0, 200)); kind = "header only"; }
                else if (k == 4) { unlink(p.segpath(s).c_str()); mkdir(p.segpath(s).c_str(), 0755); kind = "directory"; }
                else if (k == 5) { Product q = p; q.seglines = p.seglines / 2; write_file(p.segpath(s), segment_file(q, s)); kind = "shorter segment"; }
                else if (k == 6) { Product q = p; q.cols = p.cols / 2; write_file(p.segpath(s), segment_file(q, s)); kind = "narrower segment"; }
                else { write_file(p.segpath(s), prologue_file(p)); kind = "prologue instead"; }
                bad[s] = kind; trail += fmt(" %s%d", kind.c_str(), s); obs("fault", kind);
            }
            continue;
        }
        int row = some_row(p, r), s = seg_of(p, row); std::string what; bool line = r.chance(0.6);
        int res = line ? read_da(o, row, what) : read_gdal(o, r, row, what);
        const char* kind = line ? "line" : "window";
        trail += fmt(" %s%d=%d", kind, s, res);
        if (res < 0) {
            // zeros are a permitted answer for the lines a damaged segment covers
            bool zeros = false;
            if (bad.count(s) && line) { std::vector<uint16_t> b(p.cols); try { o.da->line_read(row, b.data()); zeros = true; for (uint16_t v : b) if (v) zeros = false; } catch (std::exception&) {} }
            VEXPECT(zeros, std::string("wrong-after-damage-") + kind, "%s (%s%s); %s;%s", what.c_str(), bad.count(s) ? "segment is " : "sound segment", bad.count(s) ? bad[s].c_str() : "", describe(p).c_str(), trail.c_str());
        } else if (res > 0 && line) {
            VEXPECT(bad.count(s), "sound-line-refused", "row %d of segment %d: %s;%s", row, s, what.c_str(), trail.c_str());
        } else if (res > 0) {
            VEXPECT(!bad.empty(), "sound-window-refused", "row %d of segment %d: %s;%s", row, s, what.c_str(), trail.c_str());
        } else evals(1);
        obs("after-fault", fmt("%s %s %d", kind, bad.count(s) ? bad[s].c_str() : bad.empty() ? "none" : "elsewhere", res));
        VEXPECT(o.da->segcache.size() <= 2, "cache-unbounded", "%zu segments in memory", o.da->segcache.size());
    }
    sample(describe(p) + trail.substr(0, 400));
    o.da.reset(); o.fa.reset(); o.ds.reset();
    for (auto& b : bad) if (b.second == "directory") rmdir(p.segpath(b.first).c_str());
    remove_product(p);
}
// Opening, reading and closing again and again holds on to nothing
static void release(uint64_t idx, Rng& r) {
    vg::init(); GDALSetCacheMax64(5000000);
    Product p = make(r, cfg().scratch + fmt("/r%llu", (unsigned long long)idx), 3, 0);
    int mode = idx % 3;
    note(describe(p)); write_product(p);
    // mode 1: one segment is damaged from the start of reading; mode 2: opening fails half way
    if (mode == 2) write_file(p.dir + "/" + p.epiname(), epilogue_file(p).substr(0, 2000));
    long long h0 = 0; int f0 = 0; const int N = 16, W = 5; uint64_t seed = r.u64();
    for (int i = 0; i < N; ++i) {
        if (i == W) { h0 = heap(); f0 = count_fds(); }
        Rng q(seed);
        {
            Open o; o.p = &p; std::string w;
            try { open_da(o); } catch (std::exception&) {}
            o.ds = vg::open(p.shortname());
            if (mode != 2 && !VEXPECT(o.ds != nullptr, "open-failed", "%s", CPLGetLastErrorMsg())) break;
            if (mode == 1) write_file(p.segpath(*p.present.begin()), segment_file(p, *p.present.begin()).substr(0, 300));
            for (int k = 0; mode != 2 && k < 8; ++k) { int row = some_row(p, q); read_da(o, row, w); read_gdal(o, q, row, w); }
        }
        if (mode == 1) write_file(p.segpath(*p.present.begin()), segment_file(p, *p.present.begin()));
        CPLErrorReset();
    }
    long long grown = heap() - h0; int fds = count_fds() - f0;
    VEXPECT(grown < 20000 && fds == 0, "not-released", "%lld bytes and %d descriptors more after %d further rounds (mode %d); %s", grown, fds, N - W, mode, describe(p).c_str());
    obs("release", fmt("mode %d ch%d", mode, p.channel));
    remove_product(p);
}
int main(int argc, char** argv) {
    parse_args(argc, argv); bool th = cfg().thorough;
    add_group("history", th ? 4000 : 480, 4, 90, history);
    add_group("faults", th ? 4000 : 480, 4, 90, faults);
    add_group("release", th ? 600 : 72, 3, 90, release);
    return run_all();
}
