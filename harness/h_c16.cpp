// C16: derived products refuse sources that do not belong together
#include "synth.h"
#include "vgmem.h"
#include "badxrit.h"
#include "gdal/reflectance/reflectance.h"
#include "gdal/reflectance/sat_za.h"
#include "gdal/reflectance/cos_sol_za.h"
#include "gdal/reflectance/jday.h"
using namespace xs; using namespace vf; namespace U = msat::utils;

// a source that can lack anything, and counts how often it is destroyed
struct Spec { int w = 20, h = 10; double gt[6] = { -1000, 100, 0, 1000, 0, -100 }; bool has_gt = true, has_srs = true, has_time = true; double lon = 0; int srs = 0; std::string time = "2010-01-19 12:00:00"; struct B { std::string id; bool md = true, scale = true, offset = true; int fails = -1; double base = 50; }; std::vector<B> bands; std::string why; };
static std::map<int, int> destroyed; static int reads = 0;
struct FakeBand : GDALRasterBand { Spec::B b; FakeBand(GDALDataset* d, int n, const Spec::B& b) : b(b) { poDS = d; nBand = n; eDataType = GDT_Float64; nBlockXSize = d->GetRasterXSize(); nBlockYSize = 1; if (b.md) SetMetadataItem("NOTE", "here"); if (!b.id.empty()) SetMetadataItem(MD_MSAT_CHANNEL_ID, b.id.c_str(), MD_DOMAIN_MSAT); }
    CPLErr IReadBlock(int, int y, void* o) override { ++reads; if (y == b.fails) { CPLError(CE_Failure, CPLE_FileIO, "damaged"); return CE_Failure; } for (int i = 0; i < nBlockXSize; ++i) ((double*)o)[i] = b.base + i; return CE_None; }
    double GetScale(int* ok) override { if (ok) *ok = b.scale; return b.scale ? 0.5 : 1; } double GetOffset(int* ok) override { if (ok) *ok = b.offset; return b.offset ? 150 : 0; } };
struct Fake : GDALDataset { Spec s; int id; OGRSpatialReference srs;
    Fake(const Spec& s, int id) : s(s), id(id) { nRasterXSize = s.w; nRasterYSize = s.h; if (s.srs == 0) srs = vg::geos(s.lon); else if (s.srs == 1) srs.SetWellKnownGeogCS("WGS84"); else srs.SetUTM(32); srs.SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER); SetMetadataItem("OTHER", "x"); if (s.has_time) SetMetadataItem(MD_MSAT_DATETIME, s.time.c_str(), MD_DOMAIN_MSAT); for (size_t i = 0; i < s.bands.size(); ++i) SetBand(i + 1, new FakeBand(this, i + 1, s.bands[i])); }
    ~Fake() { ++destroyed[id]; } const OGRSpatialReference* GetSpatialRef() const override { return s.has_srs ? &srs : nullptr; } CPLErr GetGeoTransform(double* g) override { memcpy(g, s.gt, sizeof s.gt); return s.has_gt ? CE_None : CE_Failure; } };
static Spec::B band(int ch) { Spec::B b; b.id = fmt("%d", ch); b.base = 100 + ch; return b; }
// differences that make a source one of another image, or of none
enum { D_NOSRS, D_NOGT, D_NOTIME, D_ALONE, D_LON = D_ALONE, D_SRS, D_GT, D_TIME, D_W, D_H, D_END };
static const char* DN[] = { "no projection", "no georeference", "no time", "another longitude", "another projection", "another georeference", "another time", "another width", "another height" };
static void differ(Spec& s, int d, Rng& r) {
    s.why = DN[d]; switch (d) { case D_NOSRS: s.has_srs = false; break; case D_NOGT: s.has_gt = false; break; case D_NOTIME: s.has_time = false; break; case D_LON: s.srs = 0; s.lon += r.pick(std::vector<double>{ 9.5, -3.4, 0.5 }); break; case D_SRS: s.srs = (s.srs + 1 + r.below(2)) % 3; break; case D_GT: s.gt[r.below(6)] += r.pick(std::vector<double>{ 1, -0.5, 0.01, 100 }); break;
        case D_TIME: { static const std::vector<std::string> T = { "2010-01-19 12:15:00", "2010-01-20 12:00:00", "2011-01-19 12:00:00", "2010-02-19 12:00:00", "2010-01-19 13:00:00" }; std::string was = s.time; do s.time = r.pick(T); while (s.time == was); break; } case D_W: s.w += r.chance(0.5) ? 1 : -1; break; case D_H: s.h += r.chance(0.5) ? 1 : -1; break; } }
static int serial = 0;
// any history of sources
static void histories(uint64_t idx, Rng& r) {
    vg::init(); bool three = idx % 2; int target = three ? 4 : r.pick(std::vector<int>{ 1, 2, 3, 12, 1, 2, 3, 12, 5, 6, 9, 11, 0, 13, -1, 100 }); static const int T3[] = { 4, 9, 11 }; std::vector<int> need; if (three) need = { 4, 9, 11 }; else need = { target }; bool supported = three || target == 1 || target == 2 || target == 3 || target == 12; if (!supported) need = { 1 };
    long long grow = 1LL << 40; std::string log; uint64_t seed = r.u64();
    for (int again = 0; again < 5; ++again) {      // the same history, to see what it leaves behind
        Rng q(seed); log.clear(); log.reserve(4000); long long h0 = heap(); { std::set<int> owned, all; std::map<int, Fake*> live; bool bad = false; {
        std::unique_ptr<U::ReflectanceDataset> d(new U::ReflectanceDataset(target)); bool first = true; Spec ref; ref.w = 1 + q.below(30); ref.h = 1 + q.below(20); std::set<int> got; std::map<int, Spec::B> have; std::map<int, std::vector<Spec::B>> cand; int n = 1 + q.below(6); std::vector<int> todo = need; if (q.chance(0.25) && !todo.empty()) todo.erase(todo.begin() + q.below(todo.size())); for (size_t i = todo.size(); i > 1; --i) std::swap(todo[i - 1], todo[q.below(i)]);
        bool together = three && q.chance(0.2); size_t at = 0; bool stop = false;
        for (int k = 0; k < n + (int)todo.size() && !stop; ++k) {
            Spec s = ref; s.bands.clear(); int kind = q.below(10); bool mine = q.chance(0.5); if (kind < 5 && at < todo.size()) { if (together) { for (int c : todo) s.bands.push_back(band(c)); at = todo.size(); } else s.bands.push_back(band(todo[at++])); for (auto& b : s.bands) { b.scale = !q.chance(0.04); b.offset = !q.chance(0.04); if (q.chance(0.06)) b.fails = q.below(ref.h); } }
            else if (kind < 7) { s.bands.push_back(band(q.pick(need))); differ(s, q.below(D_END), q); } else if (kind == 7) { Spec::B b; b.id = q.chance(0.5) ? "" : q.pick(std::vector<std::string>{ "0", "13", "-1", "junk", "4294967297", "99999999999999999999" }); s.bands.push_back(b); if (q.chance(0.5)) differ(s, q.below(D_END), q); } else if (kind == 8) { int c = 1 + q.below(12); if (std::find(need.begin(), need.end(), c) != need.end()) continue; s.bands.push_back(band(c)); } else if (q.chance(0.5)) s.bands.clear(); else continue;
            if (s.w < 1 || s.h < 1) continue;
            int id = ++serial; Fake* f = new Fake(s, id); all.insert(id); live[id] = f; if (mine) owned.insert(id); bool uses = false; for (auto& b : s.bands) { long c = strtol(b.id.c_str(), nullptr, 10); if (c >= 1 && c <= 12) uses = true; }
            bool incomplete = !s.has_srs || !s.has_gt || !s.has_time, differs = !s.why.empty(); bool refuse = uses && (incomplete || (!first && differs)), threw = false; std::string what; try { d->add_source(f, mine); } catch (std::exception& e) { threw = true; what = e.what(); }
            std::string desc; for (auto& b : s.bands) desc += "channel " + b.id + " "; log += fmt("[%s%s%s%s] ", desc.c_str(), s.why.c_str(), mine ? " given away" : "", threw ? " refused" : ""); obs("source", fmt("%s %s %s", first ? "first" : "later", uses ? "used" : "unused", s.why.c_str())); evals(1);
            if (uses && first && !incomplete && differs) { ref = s; ref.bands.clear(); ref.why.clear(); }
            if (threw != refuse) { viol(refuse ? "accepted" : "refused", fmt("%s: the last one is %s (%s)", log.c_str(), threw ? "refused" : "accepted", what.c_str())); bad = true; break; }
            if (threw && what.empty()) viol("no-reason", log); if (!threw && uses) { first = false; for (auto& b : s.bands) { long c = strtol(b.id.c_str(), nullptr, 10); if (c >= 1 && c <= 12) { have[c] = b; cand[c].push_back(b); } } }
            if (threw && q.chance(0.3)) stop = true;
        }
        if (!bad && !stop) {
            bool complete = supported; for (int c : need) if (!have.count(c)) complete = false; else if (!have[c].scale || !have[c].offset) complete = false; bool multiple = false; for (int c : need) if (cand[c].size() > 1) multiple = true;
            bool threw = false; std::string what; try { d->init_rasterband(); } catch (std::exception& e) { threw = true; what = e.what(); } log += threw ? "-> refused" : "-> made"; obs("made", fmt("%d %s%s", target, threw ? "refused" : "made", together ? " together" : "")); evals(1);
            if (!multiple && threw == complete) { viol(complete ? "result-refused" : "result-made", fmt("channel %d: %s (%s)", target, log.c_str(), what.c_str())); bad = true; }
            if (!bad && !threw) { VEXPECT(d->GetRasterXSize() == ref.w && d->GetRasterYSize() == ref.h, "result-size", "%s: %dx%d, not %dx%d", log.c_str(), d->GetRasterXSize(), d->GetRasterYSize(), ref.w, ref.h); double g[6]; d->GetGeoTransform(g); VEXPECT(!memcmp(g, ref.gt, sizeof g), "result-georeference", "%s: georeference of another source", log.c_str()); const char* t = d->GetMetadataItem(MD_MSAT_DATETIME, MD_DOMAIN_MSAT); VEXPECT(t && ref.time == t, "result-time", "%s: time %s, not %s", log.c_str(), t ? t : "none", ref.time.c_str());
                GDALRasterBand* b = d->GetRasterBand(1); for (int y = 0; y < ref.h; ++y) { std::vector<double> v(ref.w, -77); CPLErr e = b->RasterIO(GF_Read, 0, y, ref.w, 1, v.data(), ref.w, 1, GDT_Float64, 0, 0, nullptr); bool fail = false; if (multiple) continue; for (int c : need) if (have[c].fails == y) fail = true; VEXPECT((e != CE_None) == fail, "result-read", "%s: line %d is %s", log.c_str(), y, e == CE_None ? "read, and its source cannot be" : "not read"); if (e == CE_None && !fail) for (double x : v) VEXPECT(x >= 0 && x <= 100, "result-range", "%s: %g", log.c_str(), x); } }
        }
        }   // the derived dataset goes away
        for (int id : all) { int want = owned.count(id) ? 1 : 0; VEXPECT(destroyed[id] == want, want ? "source-leaked" : "source-destroyed", "%s: source %d was destroyed %d times, not %d", log.c_str(), id - *all.begin() + 1, destroyed[id], want); if (!want && !destroyed[id]) delete live[id]; } }
        destroyed.clear(); grow = std::min(grow, heap() - h0); if (again == 0) note(log);
    }
    VEXPECT(grow <= 0, "leak", "%s: %lld bytes each time", log.c_str(), grow); if (idx < 6) sample(fmt("channel %d: %s", target, log.c_str())); (void)T3;
}
// rasters of angles and days: of one source
static void prototypes(uint64_t idx, Rng& r) {
    vg::init(); int k = idx % 3; Spec s; s.bands.push_back(band(1 + r.below(12))); int d = r.below(8); std::string why = "fine"; if (d < D_ALONE) { differ(s, d, r); why = s.why; } else if (d == 3) { static const std::vector<std::string> T = { "", "yesterday", "2010", "2010-01-19", "2010-01-19 12", "2010-01-19T12:00:00", "12:00:00", "2010-01-19 12:00" }; s.time = r.pick(T); why = "time " + s.time; } else if (d == 4) { s.bands.clear(); why = "no bands"; } else if (d == 5) { s.bands[0].md = false; s.bands[0].id = ""; why = "band without metadata"; } else if (d == 6) s.srs = 1;
    bool want = d == 6 || d == 7; bool days = k == 2; long long grow = 1LL << 40; const char* N[] = { "sun", "satellite", "day" }; note(fmt("%s of a source with %s", N[k], why.c_str()));
    for (int again = 0; again < 4; ++again) { long long h0 = heap(); int id = ++serial; { std::unique_ptr<Fake> f(new Fake(s, id)); GDALDataset* o = nullptr; std::string what; try { if (k == 0) o = new U::CosSolZADataset(f.get()); else if (k == 1) o = new U::SatZADataset(f.get()); else o = new U::JDayDataset(f.get()); } catch (std::exception& e) { what = e.what(); }
            // the satellite's angle needs no time
            bool ok = want || (d == 3 && k == 1); if (d == 3 && k == 1 && !o) ok = false; VEXPECT((o != nullptr) == ok, ok ? "prototype-refused" : "prototype-accepted", "%s of a source with %s: %s", N[k], why.c_str(), o ? "made" : what.c_str());
            if (o && s.bands.size()) { std::vector<double> v((size_t)s.w * s.h); VEXPECT(o->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, s.w, s.h, v.data(), s.w, s.h, GDT_Float64, 0, 0, nullptr) == CE_None, "prototype-read", "%s", CPLGetLastErrorMsg()); } delete o; } VEXPECT(destroyed[id] == 1, "source-destroyed", "the source was destroyed %d times", destroyed[id]); destroyed.clear(); grow = std::min(grow, heap() - h0); }
    VEXPECT(grow <= 0, "leak", "%s of a source with %s: %lld bytes each time", N[k], why.c_str(), grow); obs("prototype", fmt("%s %s", N[k], why.c_str())); evals(1); (void)days;
}
// products whose channels are not of the same image, opened by name
static void products(uint64_t idx, Rng& r) {
    vg::init(); int kind = idx % 8; int ch = kind < 5 ? 4 : kind == 5 ? r.pick(std::vector<int>{ 5, 6, 7, 8, 9, 10, 11 }) : r.pick(std::vector<int>{ 1, 2, 3, 12 }); Product p = random_product(r, "prod", ch, 1); p.seglines = p.hrv() ? 29 : 16; p.nsegs = p.full() / p.seglines; for (int k = 1; k < 4; ++k) if (p.hrv()) { p.lower[3] = p.lower[2] + 5567; p.upper[3] = p.upper[2] + 5567; } p.present = { 1 + (int)r.below(p.nsegs) }; std::vector<Product> all = { p };
    std::string why = "fine"; bool good = true; std::string name = p.shortname(), opt; auto with = [&](const char* suffix) { std::string n = name; n.insert(n.rfind(':'), suffix); return n; };
    if (ch == 4) for (int c : { 9, 11 }) { Product q = p; q.channel = c; q.pid2 = CHANS[c - 1].name; q.seed = r.u64(); all.push_back(q); }
    int hurt = 1 + r.below(2); std::string ask = with("r");
    if (kind == 1) { why = "a missing channel"; hurt = r.below(3); good = false; } else if (kind == 2) { why = "a damaged channel"; good = false; hurt = r.below(3); } else if (kind == 3) { why = "a channel of another longitude"; all[hurt].lon += 9.5; good = false; } else if (kind == 4) { why = "3.9 by option"; opt = "MSAT_COMPUTE=reflectance"; ask = name; good = false; } else if (kind == 5) { why = "a channel without reflectance"; good = false; if (r.chance(0.5)) { opt = "MSAT_COMPUTE=reflectance"; ask = name; } } else if (kind == 6) { why = "an unknown option"; good = false; ask = name; opt = "MSAT_COMPUTE=" + r.pick(std::vector<std::string>{ "", "reflectence", "REFLECTANCE", "sat_za ", "jday,jday", "x" }); } else if (kind == 7) { if (r.chance(0.5)) { opt = "MSAT_COMPUTE=reflectance"; ask = name; } }
    for (size_t i = 0; i < all.size(); ++i) if (!(kind == 1 && (int)i == hurt)) write_product(all[i]);
    if (kind == 2) { std::string f = all[hurt].segpath(*p.present.begin()), b = read_file(f); write_file(f, r.chance(0.5) ? b.substr(0, r.below(100)) : std::string(r.below(300), 'x')); }
    note(fmt("%s: %s %s", why.c_str(), ask.c_str(), opt.c_str())); long long grow = 1LL << 40; int fds = count_fds(), more = 1 << 20; vg::open(ask, opt.empty() ? nullptr : opt.c_str()); fds = count_fds();
    for (int again = 0; again < 4; ++again) { long long h0 = heap(); { CPLErrorReset(); vg::DS d = vg::open(ask, opt.empty() ? nullptr : opt.c_str()); bool err = CPLGetLastErrorType() >= CE_Failure; VEXPECT((d != nullptr) == good, good ? "product-refused" : "product-made", "%s: %s %s: %s", why.c_str(), ask.c_str(), opt.c_str(), d ? "opened" : CPLGetLastErrorMsg()); VEXPECT(d || err, "product-silent", "%s: %s %s: refused without an error", why.c_str(), ask.c_str(), opt.c_str()); CPLErrorReset(); if (d && good && again == 0) { std::vector<double> v(p.full()); VEXPECT(d->GetRasterBand(1)->RasterIO(GF_Read, 0, p.full() / 2, p.full(), 1, v.data(), p.full(), 1, GDT_Float64, 0, 0, nullptr) == CE_None, "product-read", "%s", CPLGetLastErrorMsg()); } } CPLErrorReset(); GDALFlushCacheBlock(); grow = std::min(grow, heap() - h0); more = std::min(more, count_fds() - fds); }
    VEXPECT(grow <= 0, "leak", "%s: %s %s: %lld bytes each time", why.c_str(), ask.c_str(), opt.c_str(), grow); VEXPECT(more <= 0, "files-left-open", "%s: %s", why.c_str(), ask.c_str()); obs("product", fmt("%s channel %d %s", why.c_str(), ch, opt.c_str())); evals(1); if (idx < 8) sample(fmt("%s: %s %s", why.c_str(), ask.c_str(), opt.c_str()));
    for (auto& q : all) for (int s : q.present) unlink(q.segpath(s).c_str()); remove_product(p);
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough;
    add_group("histories", t ? 200000 : 8000, 200, 60, histories); add_group("prototypes", t ? 3000 : 300, 30, 30, prototypes); add_group("products", t ? 2000 : 160, 8, 60, products);
    return run_all();
}
