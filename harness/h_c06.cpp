// C06: prologue and epilogue fields decode from their specified positions
#include "level15.h"
#include <msat/hrit/MSG_data.h>
#include <msat/hrit/MSG_data_SGS_header.h>
#include <fstream>
#include <memory>
using namespace l15;

// Decode `rec` in memory that held `fill`, and give it to `use`. The record is
// an exactly sized heap block: reading beyond it is an error ASan sees.
template<class S> static void decoded(const std::string& rec, int fill, const char* name, const std::function<void(S&)>& use) {
    unsigned char* in = new unsigned char[rec.size()]; memcpy(in, rec.data(), rec.size());
    void* mem = malloc(sizeof(S)); memset(mem, fill, sizeof(S));
    S* s = new (mem) S; size_t n = s->read_from(in);
    VEXPECT(n == rec.size(), std::string(name) + ".size", "%s consumed %zu of %zu bytes", name, n, rec.size());
    VEXPECT(memcmp(in, rec.data(), rec.size()) == 0, std::string(name) + ".input", "the record was changed");
    delete[] in;
    use(*s); s->~S(); free(mem);
}
template<class S> static void section(const char* name, size_t size, uint64_t, Rng& r) {
    static const double PZ[] = { 0.9, 0.5, 0.05, 0 };
    std::string rec = generate<S>(r, name, size, PZ[r.below(4)]), d1, d2, d3;
    decoded<S>(rec, 0xaa, name, [&](S& s) {
        Lay L(rec, 0, nullptr, name); lay(L, s); d1 = dump_of(s); check_dump(L, d1, name);
        obs("dumped lines", fmt("%s %zu", name, L.lines.size() / 50)); d2 = dump_of(s);
        VEXPECT(d1 == d2, std::string(name) + ".twice", "%s: a second dump of the same object differs", name);
        // decoding another record into the same object leaves nothing of the first
        std::string other = generate<S>(r, name, size, PZ[r.below(4)]); s.read_from((const unsigned char*)other.data()); Lay M(other, 0, nullptr, name); lay(M, s); check_dump(M, dump_of(s), "object used before");
        s.read_from((const unsigned char*)rec.data()); VEXPECT(dump_of(s) == d1, std::string(name) + ".again", "%s: decoding the record again differs", name);
    });
    decoded<S>(rec, 0x00, name, [&](S& s) { d3 = dump_of(s); });
    VEXPECT(d1 == d3, std::string(name) + ".memory", "%s: the dump depends on what the memory held before", name);
    // bytes of any kind: same values, same dump, wherever the object lies
    std::string raw(size, 0); for (auto& c : raw) c = (char)r.below(256); std::string e1, e2;
    if (r.chance(0.3)) {
        decoded<S>(raw, 0xaa, name, [&](S& s) { e1 = dump_of(s); }); decoded<S>(raw, 0x00, name, [&](S& s) { e2 = dump_of(s); });
        VEXPECT(e1 == e2, std::string(name) + ".memory", "%s: the dump of random bytes depends on what the memory held before", name);
    }
    // the constructor that takes the record does the same
    { unsigned char* in = new unsigned char[size]; memcpy(in, rec.data(), size); std::unique_ptr<S> s(new S(in)); delete[] in; VEXPECT(dump_of(*s) == d1, std::string(name) + ".constructor", "%s: built from the record it differs", name); }
    obs("section", name);
}
template<class S> static void add(const char* name, size_t size, int quick, int thorough) { add_group(name, cfg().thorough ? thorough : quick, 8, 60, [=](uint64_t i, Rng& r) { section<S>(name, size, i, r); }); }

// one field changes, no other does
template<class S> static void change(const char* name, size_t size, Rng& r, int n) {
    std::string rec = generate<S>(r, name, size, 0.3); std::unique_ptr<S> s(new S);
    for (int k = 0; k < n; ++k) { std::string b = rec; std::string o = generate<S>(r, name, size, 0.3); size_t at = r.below(size), len = 1 + r.below(12); for (size_t i = at; i < std::min(size, at + len); ++i) b[i] = o[i]; s->read_from((const unsigned char*)b.data()); Lay L(b, 0, nullptr, name); lay(L, *s); }
}
static void mixed(uint64_t, Rng& r) { change<MSG_data_ImageAcquisition>("ImageAcquisition", 700, r, 20); change<MSG_data_ImageDescription>("ImageDescription", 101, r, 60); change<MSG_data_ImageProdStats>("ImageProdStats", 340, r, 40); change<MSG_data_TimelinComple>("TimelinComple", 132, r, 40); change<MSG_data_GeometricQuality>("GeometricQuality", 2916, r, 5); obs("section", "mixed records"); }

static std::string file_data(const std::string& path, MSG_header& h, MSG_data& d) {
    std::ifstream in(path.c_str(), std::ios::binary | std::ios::in); h.read_from(in); d.read_from(in, h); std::string r = dump_of(d); in.close(); return r;
}
static std::string annotation(const char* pid) { std::string s = std::string("H-000-MSG2__-") + pid; s.resize(25, '_'); return s + "-_________-PRO______-201001191200-__"; }

// whole files
static void prologue(uint64_t idx, Rng& r) {
    static const double PZ[] = { 0.95, 0.5, 0 }; double pz = PZ[r.below(3)];
    std::string p[6] = { generate<MSG_data_SatelliteStatus>(r, "SatelliteStatus", 60134, pz), generate<MSG_data_ImageAcquisition>(r, "ImageAcquisition", 700, pz), generate<MSG_data_CelestialEvents>(r, "CelestialEvents", 326058, pz), generate<MSG_data_ImageDescription>(r, "ImageDescription", 101, pz), generate<MSG_data_RadiometricProc>(r, "RadiometricProc", 20815, pz), generate<MSG_data_GeometricProc>(r, "GeometricProc", 17653, pz) };
    std::string data; for (auto& s : p) data += s; if (r.chance(0.2)) data += std::string(r.below(100), 'x');
    std::string recs = xs::rec_annot(annotation("MSG2")) + xs::rec_time(r.below(65536), r.below(86400000)); std::string path = "pro"; write_file(path, xs::file_of(128, recs, data));
    MSG_header h; MSG_data d; std::string dump = file_data(path, h, d); if (!VEXPECT(d.prologue && !d.epilogue && !d.image, "prologue.parts", "decoded parts are wrong")) return;
#define PART(i, member, name) { Lay L(p[i], 0, nullptr, std::string("file.") + name); lay(L, d.prologue->member); check_dump(L, dump_of(d.prologue->member), "file"); VEXPECT(dump.find(dump_of(d.prologue->member)) != std::string::npos, std::string("dump-part.") + name, "the dump of the file lacks " name); }
    PART(0, sat_status, "SatelliteStatus") PART(1, image_acquisition, "ImageAcquisition") PART(2, celestial_events, "CelestialEvents") PART(3, image_description, "ImageDescription") PART(4, radiometric_proc, "RadiometricProc") PART(5, geometric_proc, "GeometricProc")
    MSG_header h2; MSG_data d2; VEXPECT(file_data(path, h2, d2) == dump, "prologue.twice", "decoding the same file twice gives two dumps");
    obs("file", fmt("prologue %.2f", pz)); if (idx < 2) sample(fmt("prologue of %zu bytes, dump of %zu", data.size(), dump.size())); unlink(path.c_str());
}
static void epilogue(uint64_t idx, Rng& r) {
    std::string p[5] = { generate<MSG_data_ImageProdStats>(r, "ImageProdStats", 340, 0), generate<MSG_data_NavigExtrResult>(r, "NavigExtrResult", 5680, 0), generate<MSG_data_RadiometricQuality>(r, "RadiometricQuality", 371256, 0), generate<MSG_data_GeometricQuality>(r, "GeometricQuality", 2916, 0), generate<MSG_data_TimelinComple>(r, "TimelinComple", 132, 0) };
    std::string data(1, (char)r.below(256)); for (auto& s : p) data += s;
    std::string path = "epi"; write_file(path, xs::file_of(129, xs::rec_annot(annotation("MSG3_RSS")) + xs::rec_time(r.below(65536), r.below(86400000)), data));
    MSG_header h; MSG_data d; std::string dump = file_data(path, h, d); if (!VEXPECT(!d.prologue && d.epilogue && !d.image, "epilogue.parts", "decoded parts are wrong")) return;
#undef PART
#define PART(i, member, name) { Lay L(p[i], 0, nullptr, std::string("file.") + name); lay(L, d.epilogue->member); check_dump(L, dump_of(d.epilogue->member), "file"); VEXPECT(dump.find(dump_of(d.epilogue->member)) != std::string::npos, std::string("dump-part.") + name, "the dump of the file lacks " name); }
    PART(0, product_stats, "ImageProdStats") PART(1, navig_result, "NavigExtrResult") PART(2, radiometric_qlty, "RadiometricQuality") PART(3, geometric_qlty, "GeometricQuality") PART(4, timelin_comple, "TimelinComple")
    MSG_header h2; MSG_data d2; VEXPECT(file_data(path, h2, d2) == dump, "epilogue.twice", "decoding the same file twice gives two dumps");
    obs("file", "epilogue"); if (idx < 2) sample(fmt("epilogue, dump of %zu bytes", dump.size())); unlink(path.c_str());
}
// prologues of other satellites
static void foreign(uint64_t, Rng& r) {
    for (int k = 0; k < 20; ++k) {
        static const std::vector<const char*> PID = { "GOES10", "GMS5", "MTSAT1R", "NOAA16", "METOP1" };
        std::string b(46, 0); for (auto& c : b) c = (char)r.below(256);
        put_be(b, 4, 1 + r.below(65535), 2); put_be(b, 6, r.below(86400000), 4);
        std::string v1, v2; for (size_t i = 0, n = r.below(17); i < n; ++i) v1 += (char)(33 + r.below(90)); for (size_t i = 0, n = r.below(17); i < n; ++i) v2 += (char)(33 + r.below(90));
        std::string f1 = v1, f2 = v2; f1.resize(16, 0); f2.resize(16, 0); b.replace(14, 16, f1); b.replace(30, 16, f2);
        std::string spec; size_t len = r.chance(0.2) ? 0 : r.below(3000); for (size_t i = 0; i < len; ++i) spec += (char)r.below(256);
        Bytes w; w.u4(r.u64()); w.u4(8 + len); std::string data = b + w.b + spec; if (r.chance(0.3)) data += std::string(r.below(50), 'y');
        const char* pid = r.pick(PID); write_file("sgs", xs::file_of(128, xs::rec_annot(annotation(pid)) + xs::rec_time(1, 1), data));
        MSG_header h; MSG_data d; std::string dump = file_data("sgs", h, d);
        if (!VEXPECT(d.sdsprologue && !d.prologue, "foreign.parts", "no foreign prologue for %s", pid)) return;
        auto& c = d.sdsprologue->SGSCommonHeader; auto& s = d.sdsprologue->SGSProductSpecificHeader.ImageProductSpecificHeader;
        Lay L(b, 4, nullptr, "SGS"); L.cds(6, "NominalSGSProductTime", &c.NominalSGSProductTime, "Nom. SGS Prod. Time"); L.un(1, "Quality", &c.SGSProductQuality, "Product Quality"); L.un(1, "Completeness", &c.SGSProductCompleteness, "Product Completen."); L.un(1, "Timeliness", &c.SGSProductTimeliness, "Product Timeliness"); L.un(1, "Instance", &c.SGSProcessingInstanceId, "Proc. Instance Id");
        VEXPECT(!memcmp(c.BaseAlgorithmVersion, f1.data(), 16) && !memcmp(c.ProductAlgorithmVersion, f2.data(), 16), "foreign.versions", "versions differ");
        L.line("Base Algorithm", v1); L.line("Product Algorithm", v2);
        VEXPECT(s.ImageProductSpecificHeaderLenght == 8 + len && !memcmp(s.ImageProductSpecificHeaderData, spec.data(), len), "foreign.specific", "product specific header of %zu bytes differs", len);
        check_dump(L, dump, "foreign"); obs("file", pid); unlink("sgs");
    }
}

int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96;
    add<MSG_data_SatelliteStatus>("SatelliteStatus", 60134, 24, 800); add<MSG_data_ImageAcquisition>("ImageAcquisition", 700, 160, 8000); add<MSG_data_CelestialEvents>("CelestialEvents", 326058, 16, 320);
    add<MSG_data_ImageDescription>("ImageDescription", 101, 400, 20000); add<MSG_data_RadiometricProc>("RadiometricProc", 20815, 40, 1600); add<MSG_data_GeometricProc>("GeometricProc", 17653, 40, 1600);
    add<MSG_data_ImageProdStats>("ImageProdStats", 340, 240, 8000); add<MSG_data_NavigExtrResult>("NavigExtrResult", 5680, 120, 3000); add<MSG_data_RadiometricQuality>("RadiometricQuality", 371256, 16, 320); add<MSG_data_GeometricQuality>("GeometricQuality", 2916, 120, 3000); add<MSG_data_TimelinComple>("TimelinComple", 132, 400, 8000);
    bool t = cfg().thorough; add_group("mixed", t ? 400 : 16, 1, 60, mixed); add_group("prologue", t ? 160 : 8, 1, 120, prologue); add_group("epilogue", t ? 160 : 8, 1, 120, epilogue); add_group("foreign", t ? 200 : 8, 1, 60, foreign);
    return run_all();
}
