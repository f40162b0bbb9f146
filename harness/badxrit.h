// Damages xRIT files in the ways the format offers
#pragma once
#include "synth.h"
namespace bx {
using namespace xs; using namespace vf;

struct Rec { size_t off; int type; size_t len; };
inline std::vector<Rec> records(const std::string& f) {          // header records of a file, as far as they make sense
    std::vector<Rec> v; if (f.size() < 16) return v;
    size_t total = std::min<uint64_t>(get_be(f, 4, 4), f.size()), o = 0;
    while (o + 3 <= total) { size_t l = get_be(f, o + 1, 2); if (l < 3 || o + l > total) break; v.push_back({ o, (unsigned char)f[o], l }); o += l; }
    return v;
}
inline uint64_t hostile(Rng& r, int n, uint64_t now) {           // a value for an n byte length or count field
    uint64_t m = n == 8 ? ~0ULL : (1ULL << 8 * n) - 1;
    switch (r.below(12)) { case 0: return 0; case 1: return 1; case 2: return 2; case 3: return m; case 4: return m >> 1; case 5: return (m >> 1) + 1; case 6: return (now + 1) & m; case 7: return (now - 1) & m; case 8: return (now * 2) & m; case 9: return r.below(300); case 10: return (now + r.below(64) * 8) & m; default: return r.u64() & m; }
}
static const char* KINDS[] = { "bytes", "truncate", "header-length", "data-length", "record-length", "record-type", "record-twice", "record-missing", "record-swap", "fields", "text", "extend", "data-bytes", "zero", "data-short" };
inline std::string damage(Rng& r, std::string f, std::string& what) {
    int k = r.below(15); auto rs = records(f); what += std::string(what.empty() ? "" : "+") + KINDS[k];
    if (f.size() < 17) k = 11;
    switch (k) {
        case 0: for (int i = 1 + r.below(6); i-- > 0;) f[r.below(std::min<size_t>(f.size(), 400))] = (char)r.below(256); break;
        case 1: f.resize(r.chance(0.6) ? r.below(std::min<size_t>(f.size(), 300)) : r.below(f.size())); break;
        case 2: put_be(f, 4, hostile(r, 4, get_be(f, 4, 4)), 4); break;
        case 3: put_be(f, 8, hostile(r, 8, get_be(f, 8, 8)), 8); break;
        case 4: if (!rs.empty()) { auto& q = r.pick(rs); put_be(f, q.off + 1, hostile(r, 2, q.len), 2); } break;
        case 5: if (!rs.empty()) f[r.pick(rs).off] = (char)(r.chance(0.7) ? r.below(10) : r.below(256)); break;
        case 6: if (rs.size() > 1) { auto& q = rs[1 + r.below(rs.size() - 1)]; std::string s = f.substr(q.off, q.len); size_t at = q.off; if (r.chance(0.5)) at = rs[1 + r.below(rs.size() - 1)].off; f.insert(at, s); put_be(f, 4, get_be(f, 4, 4) + s.size(), 4); } break;
        case 7: if (rs.size() > 1) { auto& q = rs[1 + r.below(rs.size() - 1)]; f.erase(q.off, q.len); put_be(f, 4, get_be(f, 4, 4) - q.len, 4); } break;
        case 8: if (rs.size() > 2) { size_t i = 1 + r.below(rs.size() - 2); std::string a = f.substr(rs[i].off, rs[i].len), b = f.substr(rs[i + 1].off, rs[i + 1].len); f.replace(rs[i].off, a.size() + b.size(), b + a); } break;
        case 9: if (!rs.empty()) { auto& q = r.pick(rs);       // a number inside a record
            for (int i = 1 + r.below(2); i-- > 0;) if (q.len > 4) { int n = 1 << r.below(3); size_t o = q.off + 3 + r.below(std::min<size_t>(q.len - 3, 60)); if (o + n <= q.off + q.len) put_be(f, o, hostile(r, n, get_be(f, o, n)), n); } } break;
        case 10: for (auto& q : rs) if (q.type == 2 || q.type == 4) { static const std::vector<std::string> T = { "", "GEOS(", "GEOS()", "GEOS", "(", ")(", "POLAR(1", "POLAR(,)", "GEOS(1e999)", "GEOS(nan)", "%s%s%n%n", "H-000", "H-000-MSG2__-MSG2", "----------", "/../../x", std::string(61, '-'), std::string(61, 'A') }; std::string t = r.pick(T); size_t n = q.type == 2 ? 32 : 61; if (q.len < n + 3) continue; t.resize(n, r.chance(0.5) ? ' ' : (char)r.below(256)); if (r.chance(0.7)) f.replace(q.off + 3, n, t); } break;
        case 11: f += std::string(r.below(2000), (char)r.below(256)); break;
        case 12: { size_t h = std::min<uint64_t>(get_be(f, 4, 4), f.size()); if (f.size() > h) for (int i = 1 + r.below(40); i-- > 0;) { size_t o = h + r.below(f.size() - h); int n = 1 << r.below(4); if (o + n <= f.size()) put_be(f, o, hostile(r, n, get_be(f, o, n)), n); } break; }
        case 13: { size_t a = r.below(f.size()), n = r.below(2000); for (size_t i = a; i < std::min(f.size(), a + n); ++i) f[i] = r.chance(0.5) ? 0 : (char)255; break; }
        case 14: { size_t h = std::min<uint64_t>(get_be(f, 4, 4), f.size()); size_t n = r.chance(0.5) ? r.below(100) : r.below(f.size() - h + 1); f.resize(h + std::min(n, f.size() - h)); if (r.chance(0.8)) put_be(f, 8, (f.size() - h) * 8 - (r.chance(0.2) ? r.below(8) : 0), 8); break; }
    }
    return f;
}
inline std::string annot(const char* pid, const char* part) { std::string s = std::string("H-000-MSG2__-") + pid; s.resize(25, '_'); s += std::string("-_________-") + part; s.resize(45, '_'); return s + "-201001191200-__"; }
// a well-formed file of some kind
inline std::string good(Rng& r, std::string& kind) {
    std::string data; for (size_t i = 0, n = r.below(3000); i < n; ++i) data += (char)(r.chance(0.5) ? 32 + r.below(90) : r.below(256));
    int k = r.below(11); std::string tm = rec_time(r.below(65536), r.below(86400000));
    switch (k) {
        case 0: case 1: case 2: { kind = "image"; Product p; p.cols = 1 + r.below(200); p.seglines = 1 + r.below(40); p.nsegs = 8; p.bpp = r.chance(0.7) ? 10 : r.chance(0.5) ? 8 : 1 + r.below(16); p.compr = r.below(3); p.format = 1 + r.below(3); p.channel = 1 + r.below(12); p.seed = r.u64(); real_calibration(p); return segment_file(p, 1 + r.below(8)); }
        case 3: kind = "gts"; return file_of(1, rec_annot("L-000-MSG1__-GTS_________-_________-000001___-201001191200-__") + tm, data);
        case 4: kind = "text"; return file_of(2, rec_annot("L-000-MSG1__-TEXT________-_________-000001___-201001191200-__") + tm, data);
        case 5: kind = "key"; { Bytes b; for (int i = 1 + r.below(40); i-- > 0;) { b.u2(r.below(65536)); b.u1(i); std::string q(192, 0); for (auto& c : q) c = (char)r.below(256); b.str(q); b.u2(r.below(65536)); } return file_of(3, rec_annot("L-000-MSG1__-KEY_________-_________-000001___-201001191200-__") + rec_key(3, r.u64()) + tm, b.b); }
        case 6: kind = "prologue"; { Product p; p.seed = r.u64(); real_calibration(p); std::string d = prologue_data(p); for (int i = 0; i < 2000; ++i) d[r.below(60134)] = (char)r.below(256); return file_of(128, rec_annot(annot("MSG2", "PRO")) + tm, d); }
        case 7: kind = "epilogue"; { Product p; p.seed = r.u64(); std::string d = epilogue_data(p); for (int i = 0; i < 3000; ++i) d[341 + r.below(d.size() - 341)] = (char)r.below(256); return file_of(129, rec_annot(annot("MSG2", "EPI")) + tm, d); }
        case 8: kind = "foreign"; { std::string d(46, 1); Bytes b; b.u4(1); b.u4(8 + data.size()); return file_of(128, rec_annot(annot("GOES11", "PRO")) + tm, d + b.b + data); }
        case 9: kind = "dcp"; return file_of(130, rec_annot("L-000-MSG1__-DCP_________-_________-000001___-201001191200-__") + tm, data);
        default: kind = "binary"; return file_of(144, rec_annot("L-000-MSG1__-BIN_________-_________-000001___-201001191200-__") + rec_var(6, "ancillary=text") + rec_var(3, "$HALFTONE:=10") + tm, data);
    }
}
}
