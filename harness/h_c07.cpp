// C07: damaged or hostile xRIT files are refused without harm
#include "badxrit.h"
#include "gdalutil.h"
#include <msat/hrit/MSG_HRIT.h>
#include <msat/xrit/fileaccess.h>
#include <msat/xrit/dataaccess.h>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
using namespace bx;
extern unsigned char vf_fill;
static void __attribute__((noinline)) smear(int v) { volatile char b[98304]; memset((void*)b, v, sizeof b); }

// what reading the file gives: the dump or the complaint
static std::string outcome(const std::string& path) {
    std::ostringstream o;
    try {
        std::ifstream in(path.c_str(), std::ios::binary); MSG_header h; h.read_from(in); o << h; MSG_data d; d.read_from(in, h); o << d;
        if (d.image) { uint64_t s = 0; for (size_t i = 0; i < d.image->len; ++i) s = s * 31 + d.image->data[i]; o << "samples " << s; }
        return "ok " + o.str();
    } catch (std::exception& e) { return std::string("refused ") + e.what(); }
    catch (...) { viol("foreign-exception", "an exception that is no std::exception"); return "other"; }
}
static void lone(uint64_t, Rng& r) {
    for (int k = 0; k < 30; ++k) {
        std::string kind, what; std::string f = good(r, kind); if (r.chance(0.95)) for (int i = r.chance(0.6) ? 1 : 1 + r.below(4); i-- > 0;) f = damage(r, f, what); else what = "none";
        note(kind + " " + what + fmt(" step %d", k)); std::string path = "lone"; write_file(path, f); int fd = count_fds();
        vf_fill = 0xAA; smear(0xAA); std::string a = outcome(path); vf_fill = 0; smear(0); std::string b = outcome(path);
        VEXPECT(a == b, "uninitialised:" + kind, "%s damaged by %s: what reading gives depends on unwritten memory: '%.200s' / '%.200s'", kind.c_str(), what.c_str(), a.c_str(), b.c_str());
        VEXPECT(count_fds() == fd, "descriptors", "%d descriptors, %d before", count_fds(), fd);
        obs("read", kind + " " + (a[0] == 'o' ? "read" : a)); obs("damage", kind + " " + what.substr(0, 40));
        if (what == "none") VEXPECT(a[0] == 'o', "valid-refused:" + kind, "a well-formed %s is refused: %s", kind.c_str(), a.c_str());
        if (k == 0) sample(kind + ", " + what + ": " + a.substr(0, 120));
    }
}
// a product with one or two damaged files, opened the ways there are
static void use(GDALDataset* d, Rng& r, std::string& log) {
    GDALRasterBand* b = d->GetRasterBand(1); int w = d->GetRasterXSize(), h = d->GetRasterYSize(); if (!b) return; double gt[6]; d->GetGeoTransform(gt); d->GetSpatialRef(); b->GetMetadata(); d->GetMetadata("msat"); b->GetOffset(); b->GetScale(); b->GetNoDataValue(); b->GetUnitType();
    std::vector<double> v(w); uint64_t s = 0; int bad = 0;
    for (int i = 0; i < 12; ++i) { int y = i < 2 ? (i ? h - 1 : 0) : r.below(h), x = r.chance(0.5) ? 0 : r.below(w), n = x ? 1 + r.below(w - x) : w;
        CPLErr e = b->RasterIO(GF_Read, x, y, n, 1, v.data(), n, 1, GDT_Float64, 0, 0, nullptr); if (e != CE_None) ++bad; else for (int c = 0; c < n; c += 7) { uint64_t q; memcpy(&q, &v[c], 8); s = s * 31 + q; } }
    log = fmt("%dx%d %d bad %llx", w, h, bad, (unsigned long long)s);
}
static void product(uint64_t, Rng& r) {
    vg::init();
    for (int k = 0; k < 3; ++k) {
        int ch = r.chance(0.25) ? 12 : 1 + r.below(11); Product p = random_product(r, "prod", ch, 2); p.seglines = ch == 12 ? 29 : 16; p.nsegs = p.full() / p.seglines; p.compr = r.below(3); p.present.clear(); int s0 = 1 + r.below(p.nsegs - 2); p.present = { s0, s0 + 1 };
        write_product(p); std::string what, where; int hits = r.chance(0.7) ? 1 : 2;
        while (hits-- > 0) { std::string path; switch (r.below(4)) { case 0: path = p.dir + "/" + p.proname(); where += "pro "; break; case 1: path = p.dir + "/" + p.epiname(); where += "epi "; break; default: path = p.segpath(r.chance(0.5) ? s0 : s0 + 1); where += "seg "; }
            std::string f = read_file(path);
            // often the very fields the geometry comes from
            if (r.chance(0.35) && path.find("EPI") != std::string::npos) { size_t h = get_be(f, 4, 4); size_t o = h + 341 - 48; for (int i = 1 + r.below(4); i-- > 0;) put_be(f, o + 4 * r.below(12), hostile(r, 4, 3712), 4); what += "+coverage"; }
            else if (r.chance(0.3) && path.find("PRO") != std::string::npos) { size_t h = get_be(f, 4, 4); for (int i = 1 + r.below(3); i-- > 0;) put_be(f, h + PRO_DESC + r.below(97), r.u64(), 4); what += "+description"; }
            else for (int i = 1 + r.below(2); i-- > 0;) f = damage(r, f, what);
            if (r.chance(0.04)) { unlink(path.c_str()); what += "+gone"; } else if (r.chance(0.04)) { unlink(path.c_str()); mkdir(path.c_str(), 0755); what += "+directory"; } else { struct stat st; if (stat(path.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) continue; write_file(path, f); } }
        note(fmt("channel %d %s%s", ch, where.c_str(), what.c_str())); int fd = 0; std::string log[2]; Rng rr(r.u64());
        for (int pass = 0; pass < 2; ++pass) { vf_fill = pass ? 0 : 0xAA; smear(vf_fill); Rng q = rr; try { static const std::vector<const char*> OPT = { nullptr, nullptr, nullptr, "MSAT_COMPUTE=reflectance", "MSAT_COMPUTE=jday", "MSAT_COMPUTE=sat_za", "MSAT_COMPUTE=cos_sol_za" }; const char* opt = q.pick(OPT); vg::DS d = vg::open(q.chance(0.5) ? p.shortname() : p.segpath(s0), opt); log[pass] = "refused"; if (d) use(d.get(), q, log[pass]); } catch (std::exception& e) { viol("gdal-exception", std::string("an exception leaves the GDAL driver: ") + e.what()); } catch (...) { viol("gdal-exception", "an exception leaves the GDAL driver"); }
            if (!pass) fd = count_fds();      // PROJ keeps its database open from the first use on
            VEXPECT(count_fds() == fd, "descriptors", "%s%s: %d descriptors, %d before", where.c_str(), what.c_str(), count_fds(), fd); }
        VEXPECT(log[0] == log[1], "uninitialised:product", "%s%s: %s / %s", where.c_str(), what.c_str(), log[0].c_str(), log[1].c_str());
        try { msat::xrit::FileAccess fa(p.segpath(s0)); msat::xrit::DataAccess da; MSG_data pro, epi; MSG_header head; da.scan(fa, pro, epi, head); size_t n = da.columns; if (n && n < 20000) { std::vector<uint16_t> line(n + 1, 0x5a5a); for (int i = 0; i < 8; ++i) { size_t y = r.below(da.lines + 2); try { da.line_start(y); da.line_read(y, line.data()); } catch (std::exception&) { } VEXPECT(line[n] == 0x5a5a, "line-overrun", "%s%s: line_read wrote past the %zu columns it declares", where.c_str(), what.c_str(), n); } } obs("scan", "ok"); } catch (std::exception& e) { obs("scan", e.what()); } catch (...) { viol("foreign-exception", "scan throws something that is no std::exception"); }
        obs("product", where + (log[0] == "refused" ? "refused" : "opened")); obs("damage", where + what.substr(0, 40)); if (k == 0) sample(where + what + ": " + log[0]);
        if (system("rm -rf prod")) _exit(96);
    }
}
// files of random bytes, and the sections straight from random bytes
static void noise(uint64_t, Rng& r) {
    for (int k = 0; k < 40; ++k) { std::string f; size_t n = r.chance(0.3) ? r.below(20) : r.below(2000); for (size_t i = 0; i < n; ++i) f += (char)(r.chance(0.4) ? r.below(8) : r.below(256)); if (n > 16 && r.chance(0.7)) { f[0] = 0; put_be(f, 1, 16, 2); put_be(f, 4, r.chance(0.5) ? n : r.below(n), 4); }
        write_file("noise", f); vf_fill = 0xAA; smear(0xAA); std::string a = outcome("noise"); vf_fill = 0; smear(0); std::string b = outcome("noise"); VEXPECT(a == b, "uninitialised:noise", "'%.200s' / '%.200s'", a.c_str(), b.c_str()); obs("noise", a); }
    std::string none = outcome("does-not-exist"); VEXPECT(none[0] == 'r', "missing-file", "reading a missing file succeeds"); std::string dir = outcome("."); VEXPECT(dir[0] == 'r', "directory", "reading a directory succeeds");
}

int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough;
    add_group("lone", t ? 12000 : 400, 4, 40, lone); add_group("product", t ? 4000 : 160, 4, 60, product); add_group("noise", t ? 2000 : 80, 4, 40, noise);
    return run_all();
}
