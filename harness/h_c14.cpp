// C14: damaged or hostile GRIB files, and files that cannot be written, are refused without harm
#include "vgmem.h"
#include <eccodes.h>
#include <dirent.h>
#include <set>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <csignal>
using namespace vf;
extern unsigned char vf_fill;
static void __attribute__((noinline)) smear(int v) { volatile char b[98304]; memset((void*)b, v, sizeof b); }
static const char* TPL[3] = { "msat/wmo", "msat/ecmwf", "msat/msat" };
static vg::DS encode(const char* file, GDALDataset* src, const char* tpl) {
    char** o = CSLAddString(nullptr, fmt("TEMPLATE=%s", tpl).c_str()); CPLErrorReset(); vg::DS g(GetGDALDriverManager()->GetDriverByName("MsatGRIB")->CreateCopy(file, src, TRUE, o, nullptr, nullptr)); CSLDestroy(o); return g;
}
static vg::Mem image(Rng& r) {
    static const int SEV[4] = { 55, 56, 57, 70 }; vg::Mem m; m.hrv = r.chance(0.2); int full = m.hrv ? 11136 : 3712; m.w = 1 + r.below(r.chance(0.1) ? 200 : 24); m.h = 1 + r.below(24); m.x0 = r.below(full - m.w + 1); m.y0 = r.below(full - m.h + 1); m.sat = fmt("%d", SEV[r.below(4)]); m.chan = fmt("%d", m.hrv ? 12 : 1 + (int)r.below(11)); m.lon = r.chance(0.5) ? 0 : r.range(-179, 179);
    bool miss = r.chance(0.5), flat = r.chance(0.15); for (int i = 0; i < m.w * m.h; ++i) m.v.push_back(miss && i && r.chance(0.2) ? 0 : flat ? 7 : r.real(1, 300)); return m;
}
// other GRIB messages than those this library writes
static std::string sample_message(Rng& r) {
    static const std::vector<const char*> S = { "GRIB1", "GRIB2", "regular_ll_sfc_grib1", "regular_ll_sfc_grib2", "polar_stereographic_sfc_grib1", "polar_stereographic_sfc_grib2", "sh_ml_grib1", "sh_ml_grib2", "reduced_gg_pl_32_grib1", "reduced_gg_pl_32_grib2", "budg", "diag" };
    codes_handle* h = codes_grib_handle_new_from_samples(nullptr, r.pick(S)); if (!h) return ""; const void* b; size_t n; std::string s; if (!codes_get_message(h, &b, &n)) s.assign((const char*)b, n); codes_handle_delete(h); return s;
}
static std::string good(Rng& r, std::string& kind) {
    if (r.chance(0.12)) { std::string s = sample_message(r); if (!s.empty() && s.size() < 400000) { kind = "other"; return s; } }
    vg::Mem m = image(r); int t = r.below(3); kind = TPL[t]; vg::DS s = vg::mem(m); unlink("good.grib"); { vg::DS g = encode("good.grib", s.get(), TPL[t]); if (!g) viol("valid-refused", kind + CPLGetLastErrorMsg()); } std::string f = read_file("good.grib"); unlink("good.grib"); return f;
}
static size_t section(const std::string& f, int n) {      // offset of a section of edition 2 or 1
    if (f.size() < 16) return 0; if (f[7] == 2) { size_t o = 16; while (o + 5 < f.size()) { if ((unsigned char)f[o + 4] == n) return o; size_t l = get_be(f, o, 4); if (l < 5) break; o += l; } return 16; }
    size_t o = 8; for (int i = 1; i < n && o + 3 < f.size(); ++i) o += get_be(f, o, 3); return o < f.size() ? o : 8;
}
static uint64_t hostile(Rng& r, int n) { uint64_t top = n >= 8 ? ~0ull : (1ull << (8 * n)) - 1; switch (r.below(7)) { case 0: return 0; case 1: return top; case 2: return top >> 1; case 3: return (top >> 1) + 1; case 4: return r.below(300); case 5: return 1; default: return r.u64() & top; } }
static std::string damage(Rng& r, std::string f, std::string& what) {
    static const char* W[13] = { "truncated", "bytes", "length", "section length", "grid numbers", "packing numbers", "edition", "extended", "front", "zeroed", "twice", "bits", "grid size" }; int k = r.below(13); what += std::string(what.empty() ? "" : "+") + W[k]; if (f.empty()) return f;
    switch (k) {
        case 0: f.resize(r.chance(0.5) ? r.below(f.size()) : std::min(f.size(), (size_t)r.below(220))); break;
        case 1: for (int i = 1 + r.below(6); i-- > 0;) f[r.below(std::min(f.size(), (size_t)300))] = (char)r.below(256); break;
        case 2: if (f.size() > 16) { if (f[7] == 2) put_be(f, 8, hostile(r, 8), 8); else put_be(f, 4, hostile(r, 3), 3); } break;
        case 3: { int e2 = f.size() > 7 && f[7] == 2; size_t o = section(f, e2 ? 1 + r.below(7) : 1 + r.below(4)); put_be(f, o, hostile(r, e2 ? 4 : 3), e2 ? 4 : 3); break; }
        case 4: { int e2 = f.size() > 7 && f[7] == 2; size_t o = section(f, e2 ? 3 : 2); int n = r.chance(0.5) ? 4 : 2; for (int i = 1 + r.below(3); i-- > 0;) put_be(f, o + 5 + r.below(e2 ? 74 : 40), hostile(r, n), n); break; }
        case 5: { int e2 = f.size() > 7 && f[7] == 2; size_t o = section(f, e2 ? (r.chance(0.6) ? 5 : r.chance(0.5) ? 6 : 7) : 3 + r.below(2)); int n = 1 + r.below(4); put_be(f, o + (e2 ? 5 : 3) + r.below(16), hostile(r, n), n); break; }
        case 6: if (f.size() > 7) f[7] = (char)r.below(5); break;
        case 7: for (int i = r.below(300); i-- > 0;) f += (char)r.below(256); break;
        case 8: f.insert(0, std::string(r.below(40), (char)r.below(256))); break;
        case 9: { size_t o = r.below(f.size()), n = r.below(60); for (size_t i = o; i < std::min(f.size(), o + n); ++i) f[i] = 0; break; }
        case 10: f += f.substr(r.below(std::min(f.size(), (size_t)8))); break;
        case 12: { int e2 = f.size() > 7 && f[7] == 2; size_t o = section(f, e2 ? 3 : 2) + (e2 ? 30 : 6), n = e2 ? 4 : 2; if (o + 2 * n > f.size()) break; uint64_t x = get_be(f, o, n), y = get_be(f, o + n, n); switch (r.below(5)) { case 0: put_be(f, o, y, n); put_be(f, o + n, x + r.below(2), n); break; case 1: put_be(f, o + n, y + 1 + r.below(30), n); break; case 2: put_be(f, o, x + 1 + r.below(30), n); break; case 3: put_be(f, o + n, r.below(y + 1), n); break; default: put_be(f, o, r.below(x + 1), n); } break; }
        default: for (int i = 1 + r.below(4); i-- > 0;) f[r.below(f.size())] ^= 1 << r.below(8); break;
    }
    return f;
}
static std::set<std::string> listing(const char* dir) { std::set<std::string> s; DIR* d = opendir(dir); if (!d) return s; while (struct dirent* e = readdir(d)) s.insert(e->d_name); closedir(d); return s; }
// what opening and reading gives
static std::string outcome(const char* path, Rng r) {
    CPLErrorReset();
    try {
        vg::DS d = vg::open(path); if (!d) return CPLGetLastErrorType() == CE_None ? "not-grib" : "refused";
        GDALRasterBand* b = d->GetRasterBand(1); int w = d->GetRasterXSize(), h = d->GetRasterYSize(); std::string o = fmt("opened %dx%d ", w, h); if (!b) { viol("no-band", "a dataset without a band"); return o; }
        if (strcmp(d->GetDriver()->GetDescription(), "MsatGRIB")) return "elsewhere";
        VEXPECT(w > 0 && h > 0 && d->GetRasterCount() == 1, "shape", "%dx%d", w, h); double gt[6] = {}; CPLErr e = d->GetGeoTransform(gt); o += e == CE_None ? fmt("%g %g %g %g ", gt[0], gt[1], gt[3], gt[5]) : "no-transform "; const OGRSpatialReference* sr = d->GetSpatialRef(); if (sr) o += fmt("%g ", sr->GetProjParm(SRS_PP_CENTRAL_MERIDIAN, 999));
        for (const char* k : { MD_MSAT_DATETIME, MD_MSAT_SPACECRAFT, MD_MSAT_SPACECRAFT_ID }) { const char* s = d->GetMetadataItem(k, MD_DOMAIN_MSAT); o += s ? s : "(none)"; o += " "; } for (const char* k : { MD_MSAT_CHANNEL, MD_MSAT_CHANNEL_ID }) { const char* s = b->GetMetadataItem(k, MD_DOMAIN_MSAT); o += s ? s : "(none)"; o += " "; } o += fmt("%s %s %g ", b->GetDescription(), b->GetUnitType(), b->GetNoDataValue());
        if ((double)w * h > 4e6) return o + "big";
        std::vector<double> v((size_t)w * h + 8, 7e9); CPLErrorReset(); e = b->RasterIO(GF_Read, 0, 0, w, h, v.data(), w, h, GDT_Float64, 0, 0, nullptr); if (e != CE_None) { VEXPECT(CPLGetLastErrorType() >= CE_Failure, "silent", "a read fails without a message"); return o + "unreadable"; }
        for (size_t i = (size_t)w * h; i < v.size(); ++i) VEXPECT(v[i] == 7e9, "overrun", "%dx%d: written past the end", w, h);
        uint64_t s = 0; for (size_t i = 0; i < (size_t)w * h; ++i) { uint64_t q; memcpy(&q, &v[i], 8); s = s * 31 + q; } int x = r.below(w), y = r.below(h); double one = 0; if (b->RasterIO(GF_Read, x, y, 1, 1, &one, 1, 1, GDT_Float64, 0, 0, nullptr) == CE_None) VEXPECT(memcmp(&one, &v[(size_t)y * w + x], 8) == 0 || one == v[(size_t)y * w + x], "window", "%g and %g", one, v[(size_t)y * w + x]);
        evals((size_t)w * h); return o + fmt("read %llx", (unsigned long long)s);
    } catch (std::exception& e) { viol("exception", std::string("opening or reading throws ") + e.what()); return "thrown"; } catch (...) { viol("exception", "opening or reading throws"); return "thrown"; }
}
// whether ecCodes on its own gets through the file: what kills it is not this library's doing
static bool survivable(const char* path) {
    fflush(nullptr); pid_t pid = fork(); if (pid < 0) return false;
    if (pid == 0) {
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); alarm(20); FILE* fp = fopen(path, "rb"); int e; codes_handle* h = fp ? codes_handle_new_from_file(nullptr, fp, PRODUCT_GRIB, &e) : nullptr; if (!h) _exit(0);
        long l, xs = 0, ys = 0; double d; for (const char* k : { "numberOfPointsAlongXAxis", "numberOfPointsAlongYAxis", "editionNumber", "centuryOfReferenceTimeOfData", "yearOfCentury", "year", "month", "day", "hour", "minute", "second", "satelliteNumber", "satelliteIdentifier", "indicatorOfTypeOfLevel", "channelNumber", "level", "bitmapPresent", "scaleFactorOfCentralWaveNumber", "scaledValueOfCentralWaveNumber", "xCoordinateOfSubSatellitePoint", "XpInGridLengths", "yCoordinateOfSubSatellitePoint", "YpInGridLengths", "Xo", "Yo", "geography.xo", "geography.yo", "geography.dx", "geography.dy" }) codes_get_long(h, k, &l);
        for (const char* k : { "longitudeOfSubSatellitePointInDegrees", "geography.lop" }) codes_get_double(h, k, &d); codes_get_long(h, "numberOfPointsAlongXAxis", &xs); codes_get_long(h, "numberOfPointsAlongYAxis", &ys);
        for (double m : { -1.7976931348623157e308, 0.0, -1.02691 }) { codes_set_double(h, "missingValue", m); size_t n = xs > 0 && ys > 0 && xs < (1 << 24) / ys ? xs * ys : 0; std::vector<double> v(n + 1); if (n) codes_get_double_array(h, "values", v.data(), &n); } codes_handle_delete(h); _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0) {} return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static bool trace_touched() { static struct stat first; static int had = stat("/tmp/trace-gribapi", &first); struct stat now; int has = stat("/tmp/trace-gribapi", &now); return has != had || (has == 0 && (now.st_size != first.st_size || now.st_mtime != first.st_mtime)); }
static void damaged(uint64_t, Rng& r) {
    vg::init();
    for (int k = 0; k < 12; ++k) {
        std::string kind, what, f = good(r, kind); if (r.chance(0.96)) for (int i = r.chance(0.6) ? 1 : 1 + r.below(3); i-- > 0;) f = damage(r, f, what); else what = "none";
        note(kind + " " + what + fmt(" step %d", k)); write_file("in.grib", f); Rng q(r.u64()); if (what != "none" && !survivable("in.grib")) { obs("ecCodes itself", what.substr(0, 40)); evals(1); unlink("in.grib"); continue; } outcome("in.grib", q); auto before = listing("."); int fd = count_fds();
        vf_fill = 0xAA; smear(0xAA); std::string a = outcome("in.grib", q); vf_fill = 0; smear(0); std::string b = outcome("in.grib", q);
        // ecCodes may itself deliver what lies behind the message
        if (a != b && a.find(" read ") != std::string::npos) {
            std::string msg; FILE* fp = fopen("in.grib", "rb"); int e; codes_handle* h = fp ? codes_handle_new_from_file(nullptr, fp, PRODUCT_GRIB, &e) : nullptr; const void* p; size_t n; if (h && !codes_get_message(h, &p, &n)) msg.assign((const char*)p, n); if (h) codes_handle_delete(h); if (fp) fclose(fp);
            std::set<std::string> seen; for (int fill : { 0, 0xff, 0x5a }) { std::string buf = msg + std::string(2000000, (char)fill), all; if ((h = codes_handle_new_from_message(nullptr, buf.data(), msg.size()))) { if (!codes_get_size(h, "values", &n) && n < 4000000) { std::vector<double> v(n + 1); if (!codes_get_double_array(h, "values", v.data(), &n)) all.assign((const char*)v.data(), n * 8); } codes_handle_delete(h); } seen.insert(all); }
            if (seen.size() > 1) { obs("ecCodes itself", "reads past its message"); unlink("in.grib"); continue; }
        }
        VEXPECT(a == b, "uninitialised", "%s, %s: what reading gives depends on unwritten memory: '%.200s' / '%.200s'", kind.c_str(), what.c_str(), a.c_str(), b.c_str()); VEXPECT(count_fds() == fd, "descriptors", "%s, %s: %d descriptors, %d before (%s)", kind.c_str(), what.c_str(), count_fds(), fd, a.c_str()); VEXPECT(listing(".") == before, "stray-file", "%s, %s: a file was created or removed", kind.c_str(), what.c_str()); VEXPECT(read_file("in.grib") == f, "input-changed", "%s, %s", kind.c_str(), what.c_str());
        // as many values as the grid has points
        if (a.find(" read ") != std::string::npos) { FILE* fp = fopen("in.grib", "rb"); int e; codes_handle* h = fp ? codes_handle_new_from_file(nullptr, fp, PRODUCT_GRIB, &e) : nullptr; int w = 0, hh = 0; sscanf(a.c_str(), "opened %dx%d", &w, &hh); size_t n = 0; if (h && !codes_get_size(h, "values", &n)) { std::vector<double> v(n + 1); size_t got = n; if (!codes_get_double_array(h, "values", v.data(), &got)) { VEXPECT(got == (size_t)w * hh, "count", "%s, %s: %zu values are read as %dx%d", kind.c_str(), what.c_str(), got, w, hh); obs("counts", "as many"); } } if (h) codes_handle_delete(h); if (fp) fclose(fp); }
        if (what == "none") VEXPECT(kind == "other" || a.find("read") != std::string::npos, "valid-refused", "%s: %s", kind.c_str(), a.c_str());
        // memory: the same file again and again
        long long g = 1 << 30; for (int i = 0; i < 4; ++i) { long long h0 = heap(); outcome("in.grib", q); g = std::min(g, heap() - h0); }
        if (g > 0) { long long lib = 1 << 30; for (int i = 0; i < 4; ++i) { long long h0 = heap(); FILE* fp = fopen("in.grib", "rb"); int e; codes_handle* h = codes_handle_new_from_file(nullptr, fp, PRODUCT_GRIB, &e); if (h) { size_t n = 0; long l; double dv; for (const char* key : { "numberOfPointsAlongXAxis", "editionNumber", "year", "month", "satelliteNumber", "channelNumber", "bitmapPresent" }) codes_get_long(h, key, &l); codes_get_double(h, "longitudeOfSubSatellitePointInDegrees", &dv); if (!codes_get_size(h, "values", &n) && n && n < 4000000) { std::vector<double> v(n); codes_get_double_array(h, "values", v.data(), &n); } codes_handle_delete(h); } fclose(fp); lib = std::min(lib, heap() - h0); } VEXPECT(g <= lib + 64, "memory", "%s, %s: %lld bytes more each time the file is opened (%s); %lld inside ecCodes", kind.c_str(), what.c_str(), g, a.c_str(), lib); obs("leak inside ecCodes", lib > 0 ? "some" : "none"); }
        // and into another file
        if (a.find("read") != std::string::npos && r.chance(0.3)) { vg::DS d = vg::open("in.grib"); unlink("out.grib"); if (d) { try { vg::DS o = encode("out.grib", d.get(), TPL[r.below(3)]); VEXPECT(o || CPLGetLastErrorType() >= CE_Failure, "silent-write", "refused without a message"); obs("re-encoded", o ? "written" : "refused"); } catch (...) { viol("exception", "encoding throws"); } } unlink("out.grib"); }
        std::string c = a.substr(0, a.find(' ')); if (a.find("unread") != std::string::npos) c = "unreadable"; else if (a.find("big") != std::string::npos) c = "big"; obs("read", kind + " " + c); obs("damage", kind + " " + what.substr(0, 40)); if (k == 0) sample(kind + ", " + what + ": " + a.substr(0, 160));
        unlink("in.grib");
    }
}
static void noise(uint64_t, Rng& r) {
    vg::init(); for (int k = 0; k < 30; ++k) { std::string f = r.chance(0.8) ? "GRIB" : "xGRIB"; size_t n = r.chance(0.4) ? r.below(24) : r.below(1500); for (size_t i = 0; i < n; ++i) f += (char)(r.chance(0.5) ? r.below(6) : r.below(256)); if (r.chance(0.5) && f.size() > 16) { f[7] = r.chance(0.5) ? 1 : 2; if (f[7] == 2) put_be(f, 8, f.size(), 8); else put_be(f, 4, f.size(), 3); f.replace(f.size() - 4, 4, "7777"); } note(fmt("noise step %d", k)); write_file("noise", f); Rng q(r.u64()); if (!survivable("noise")) { obs("ecCodes itself", "noise"); unlink("noise"); continue; } outcome("noise", q); int fd = count_fds(); std::string a = outcome("noise", q); VEXPECT(count_fds() == fd, "descriptors", "noise"); obs("noise", a.substr(0, 8)); unlink("noise"); }
    VEXPECT(outcome("does-not-exist", r) != "opened", "missing", "a missing file opens"); outcome(".", r);
}
// writes that fail, and no descriptors left
static void failing(uint64_t idx, Rng& r) {
    trace_touched(); vg::init(); signal(SIGXFSZ, SIG_IGN); vg::Mem m = image(r); m.w = 30; m.h = 30; m.v.clear(); int full = m.hrv ? 11136 : 3712; m.x0 = std::min(m.x0, full - 30); m.y0 = std::min(m.y0, full - 30); for (int i = 0; i < 900; ++i) m.v.push_back(r.real(1, 300)); const char* tpl = TPL[idx % 3]; vg::DS s = vg::mem(m); mkdir("dir", 0755); { vg::DS w = encode("warm.grib", s.get(), tpl); VEXPECT(w != nullptr, "valid-refused", "%s: %s", tpl, CPLGetLastErrorMsg()); } std::string whole = read_file("warm.grib"); 
    for (int k = 0; k < 14; ++k) {
        int fd = count_fds(); struct rlimit old, lim; std::string where = "out.grib", kind; unlink("out.grib"); getrlimit(RLIMIT_FSIZE, &old); lim = old; int nfd = -1; struct rlimit oldn, limn; getrlimit(RLIMIT_NOFILE, &oldn);
        switch (k % 7) { case 0: kind = "no space"; lim.rlim_cur = r.below(whole.size()); break; case 1: kind = "no directory"; where = "absent/out.grib"; break; case 2: kind = "is a directory"; where = "dir"; break; case 3: kind = "last byte"; lim.rlim_cur = whole.size() - 1; break; case 4: kind = "no space at all"; lim.rlim_cur = 0; break; case 5: kind = "no descriptors"; nfd = 1; break; default: kind = "room"; lim.rlim_cur = whole.size(); break; }
        note(kind); setrlimit(RLIMIT_FSIZE, &lim); std::vector<int> hold; if (nfd >= 0) { limn = oldn; limn.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &limn); int d; while ((d = dup(2)) >= 0) hold.push_back(d); }
        vg::DS o; try { o = encode(where.c_str(), s.get(), tpl); } catch (...) { viol("exception", kind + ": throws"); } bool ok = o != nullptr; std::string msg = CPLGetLastErrorMsg(); bool said = CPLGetLastErrorType() >= CE_Failure; for (int d : hold) close(d); setrlimit(RLIMIT_NOFILE, &oldn); setrlimit(RLIMIT_FSIZE, &old); o.reset();
        if (kind == "room") VEXPECT(ok && read_file("out.grib") == whole, "room", "%s: not written though there is just enough room: %s", tpl, msg.c_str()); else VEXPECT(!ok && said, "failed-write-unreported", "%s, %s: %s", tpl, kind.c_str(), ok ? "success" : "no message"); VEXPECT(count_fds() == fd, "descriptors", "%s: %d, %d before", kind.c_str(), count_fds(), fd); obs("write", std::string(tpl) + " " + kind + (ok ? " written" : " refused"));
    }
    // opening without descriptors
    { struct rlimit oldn, limn; getrlimit(RLIMIT_NOFILE, &oldn); for (int room = 0; room < 4; ++room) { int fd = count_fds(); limn = oldn; limn.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &limn); std::vector<int> hold; int d; while ((d = dup(2)) >= 0) hold.push_back(d); for (int i = 0; i < room && !hold.empty(); ++i) { close(hold.back()); hold.pop_back(); } std::string a = outcome("warm.grib", r); for (int d : hold) close(d); setrlimit(RLIMIT_NOFILE, &oldn); VEXPECT(count_fds() == fd, "descriptors", "opening with %d descriptors", room); obs("few descriptors", fmt("%d %s", room, a.substr(0, 7).c_str())); } }
    VEXPECT(!trace_touched(), "stray-file", "/tmp/trace-gribapi was written"); s.reset(); unlink("warm.grib"); unlink("out.grib"); rmdir("dir");
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough;
    add_group("damaged", t ? 24000 : 640, 8, 60, damaged); add_group("noise", t ? 2000 : 80, 4, 60, noise); add_group("failing", t ? 300 : 24, 3, 60, failing);
    return run_all();
}
