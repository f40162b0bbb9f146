// C03: what count the raster shows means what the product's own calibration says
#include "synth.h"
#include "gdalutil.h"
#include <msat/gdal/const.h>
#include <msat/hrit/MSG_HRIT.h>
using namespace xs; using namespace vf;

static const int WMO[4] = { 55, 56, 57, 70 };     // WMO common code C-5: Meteosat 8, 9, 10, 11
static const char* FLAG(const Product& p) { return CHANS[p.channel - 1].name; }

static Product make(Rng& r, uint64_t idx, const char* tag) {
    Product p; p.channel = 1 + idx % 12; p.dir = cfg().scratch + fmt("/%s%llu", tag, (unsigned long long)idx); p.pid2 = FLAG(p);
    p.scid = 321 + r.below(4); p.pid1 = fmt("MSG%d", p.scid - 320); p.sat = p.pid1 + "__"; p.seed = r.u64();
    real_calibration(p);
    int kind = r.below(4);
    for (int i = 0; i < 12; ++i) {
        if (kind == 0) continue;
        p.slope[i] *= kind == 3 ? exp(r.real(-2, 2)) : r.real(0.7, 1.4);
        p.offset[i] = kind == 2 ? r.real(-2, 2) * p.slope[i] * 60 : -p.slope[i] * r.range(0, 80);
    }
    if (r.chance(0.1)) for (int i = 0; i < 12; ++i) p.offset[i] = 0;
    p.bpp = r.chance(0.6) ? 10 : 8 + r.below(6);
    p.seglines = p.channel == 12 ? 8 : 4; p.nsegs = p.full() / p.seglines; p.cols = p.channel == 12 ? 5568 : 3712;
    int s = 1 + r.below(p.nsegs); p.present.insert(s);
    if (p.channel == 12) { int half = p.nsegs / 2; p.lower[1] = half * p.seglines; p.upper[0] = p.lower[1] + 1; p.lower[2] = p.upper[2] = r.range(1, 5569); p.lower[3] = p.upper[3] = p.lower[2] + 5567; }
    std::vector<uint16_t> v((size_t)p.cols * p.seglines); uint32_t n = 1u << p.bpp, at = r.below(n);
    for (auto& x : v) { x = at % n; at += 1; }
    p.fixed[s] = v;
    p.compr = r.below(3); p.swap = r.chance(0.8);
    static const int days[] = { 1, 31, 28, 29, 15 };
    p.y = 2003 + r.below(25); p.mo = 1 + r.below(12); p.d = days[r.below(5)]; if (p.d > 28 && p.mo == 2) p.d = p.y % 4 ? 28 : 29; if (p.d == 31 && (p.mo == 4 || p.mo == 6 || p.mo == 9 || p.mo == 11)) p.d = 30;
    p.hh = r.below(24); p.mi = r.below(60); p.extra_ms = r.chance(0.3) ? 59999 : r.below(60000);
    p.timing = fmt("%04d%02d%02d%02d%02d", p.y, p.mo, p.d, p.hh, p.mi);
    return p;
}

static void raster(uint64_t idx, Rng& r) {
    vg::init();
    Product p = make(r, idx, "v"); note(fmt("ch%d slope %.9g offset %.9g bpp %d", p.channel, p.slope[p.channel - 1], p.offset[p.channel - 1], p.bpp));
    write_product(p);
    vg::DS ds = vg::open(p.segpath(*p.present.begin()));
    if (!VEXPECT(ds != nullptr, "open-failed", "%s", CPLGetLastErrorMsg())) { remove_product(p); return; }
    GDALRasterBand* rb = ds->GetRasterBand(1); int ok1 = 0, ok2 = 0, ok3 = 0;
    double scale = rb->GetScale(&ok1), off = rb->GetOffset(&ok2), nod = rb->GetNoDataValue(&ok3);
    VEXPECT(ok1 && ok2 && ok3, "no-scaling", "scale %d offset %d nodata %d", ok1, ok2, ok3);
    int F = p.full(), s = *p.present.begin(); bool lin = p.channel < 4 || p.hrv();
    std::set<int> seen; int bad = 0; long novalue = 0;
    for (int l = 0; l < p.seglines; ++l) {
        int row = F - ((s - 1) * p.seglines + l + 1);
        std::vector<double> buf(F);
        if (rb->RasterIO(GF_Read, 0, row, F, 1, buf.data(), F, 1, GDT_Float64, 0, 0, nullptr) != CE_None) { viol("read-failed", CPLGetLastErrorMsg()); break; }
        for (int col = 0; col < F; ++col) {
            int ss, ll, cc; if (!p.covered(row, col, ss, ll, cc)) continue;
            int count = p.sample(ss, ll, cc); double want = physical(p, count), raw = buf[col], got = raw * scale + off; seen.insert(count);
            evals(1);
            if (std::isnan(want)) {
                ++novalue;
                if (raw != nod && ++bad <= 2) viol("no-physical-value", fmt("count %d has no brightness temperature, and reads %.9g where no-data is %g (slope %.9g offset %.9g)", count, raw, nod, p.slope[p.channel - 1], p.offset[p.channel - 1]));
            } else if (!lin && raw == nod) {
                if (++bad <= 2) viol("value-lost", fmt("channel %d count %d: no-data instead of %.6f", p.channel, count, want));
            } else {
                double tol = lin ? 1e-9 * (fabs(want) + fabs(p.offset[p.channel - 1])) : 1e-3;
                if (!(fabs(got - want) <= tol) && ++bad <= 2) viol(lin ? "radiance" : "brightness-temperature", fmt("channel %d (%s) count %d: %.9g instead of %.9g (slope %.9g offset %.9g, raster value %.9g scale %.9g offset %.9g)", p.channel, FLAG(p), count, got, want, p.slope[p.channel - 1], p.offset[p.channel - 1], raw, scale, off));
            }
        }
    }
    VEXPECT((int)seen.size() == 1 << p.bpp || bad, "counts-not-shown", "%zu of %d counts seen", seen.size(), 1 << p.bpp);
    obs("counts", fmt("ch%d bpp%d%s", p.channel, p.bpp, novalue ? " with counts of no value" : ""));
    // metadata
    auto md = [&](GDALMajorObject* o, const char* k) { const char* v = o->GetMetadataItem(k, MD_DOMAIN_MSAT); return std::string(v ? v : "(none)"); };
    std::string t = fmt("%04d-%02d-%02d %02d:%02d:00", p.y, p.mo, p.d, p.hh, p.mi);
    VEXPECT(md(ds.get(), MD_MSAT_DATETIME) == t, "datetime", "%s instead of %s", md(ds.get(), MD_MSAT_DATETIME).c_str(), t.c_str());
    VEXPECT(md(ds.get(), MD_MSAT_SPACECRAFT_ID) == std::to_string(WMO[p.scid - 321]), "spacecraft-id", "%s for spacecraft %d", md(ds.get(), MD_MSAT_SPACECRAFT_ID).c_str(), p.scid);
    VEXPECT(md(ds.get(), MD_MSAT_SPACECRAFT) == fmt("MSG%d", p.scid - 320), "spacecraft", "%s for spacecraft %d", md(ds.get(), MD_MSAT_SPACECRAFT).c_str(), p.scid);
    VEXPECT(md(rb, MD_MSAT_CHANNEL_ID) == std::to_string(p.channel) && md(rb, MD_MSAT_CHANNEL) == FLAG(p) && std::string(rb->GetDescription()) == FLAG(p), "channel", "%s %s for channel %d", md(rb, MD_MSAT_CHANNEL_ID).c_str(), md(rb, MD_MSAT_CHANNEL).c_str(), p.channel);
    VEXPECT(std::string(rb->GetUnitType()) == (lin ? "mW m^-2 sr^-1 (cm^-1)^-1" : "K"), "unit", "%s for channel %d", rb->GetUnitType(), p.channel);
    obs("metadata", t + fmt(" sc%d ch%d", p.scid, p.channel));
    sample(fmt("ch%d sc%d slope %.6g offset %.6g bpp %d %s", p.channel, p.scid, p.slope[p.channel - 1], p.offset[p.channel - 1], p.bpp, t.c_str()));
    ds.reset(); remove_product(p);
}
// the same through the prologue structure
static void structure(uint64_t idx, Rng& r) {
    Product p = make(r, idx, "s"); std::string f = prologue_file(p);
    std::string path = cfg().scratch + fmt("/p%llu", (unsigned long long)idx); write_file(path, f);
    std::ifstream in(path.c_str(), std::ios::binary); MSG_header h; h.read_from(in); MSG_data d; d.read_from(in, h);
    if (!VEXPECT(d.prologue, "no-prologue", "none")) return;
    for (int ch = 1; ch <= 12; ++ch) {
        p.channel = ch; bool lin = ch < 4 || ch == 12; double sl = -1, of = -1; bool l = !lin;
        d.prologue->radiometric_proc.get_slope_offset(ch, sl, of, l);
        VEXPECT(l == lin, "linear", "channel %d", ch);
        if (lin) VEXPECT(sl == p.slope[ch - 1] && of == p.offset[ch - 1], "slope-offset", "channel %d: %.9g %.9g instead of %.9g %.9g", ch, sl, of, p.slope[ch - 1], p.offset[ch - 1]);
        int bpp = 8 + r.below(5); float* c = d.prologue->radiometric_proc.get_calibration(ch, bpp);
        for (int i = 0; i < 1 << bpp; ++i) {
            double want = physical(p, i); evals(1);
            if (std::isnan(want)) { if (c[i] > 0) viol("table-no-value", fmt("channel %d count %d: %g where there is no value", ch, i, c[i])); }
            else if (!(fabs(c[i] - want) <= (lin ? 1e-6 * (fabs(want) + fabs(p.offset[ch - 1])) + 1e-9 : 1e-3))) viol("table", fmt("channel %d count %d: %.9g instead of %.9g", ch, i, c[i], want));
        }
        delete[] c;
        obs("table", fmt("ch%d bpp%d", ch, bpp));
    }
    unlink(path.c_str());
}
int main(int argc, char** argv) {
    parse_args(argc, argv); bool th = cfg().thorough;
    add_group("raster", th ? 8000 : 1000, 6, 60, raster);
    add_group("structure", th ? 2000 : 240, 6, 60, structure);
    return run_all();
}
