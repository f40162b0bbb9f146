// C05: xRIT header records decode to exactly the values stored in them
#include "synth.h"
#include <msat/hrit/MSG_HRIT.h>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <map>
using namespace xs; using namespace vf;

static const char TXT[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-:=+.,/ ()\n";
static std::string text(Rng& r, size_t n) { std::string s; while (s.size() < n) s += TXT[r.below(sizeof TXT - 1)]; return s; }
static uint32_t wide32(Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return 0xffffffff; case 2: return 0x80000000u; case 3: return 0x7fffffff; case 4: return r.below(70000); default: return (uint32_t)r.u64(); } }
static unsigned wide16(Rng& r) { switch (r.below(5)) { case 0: return 0; case 1: return 0xffff; case 2: return 0x8000; case 3: return 0x00ff; default: return r.below(65536); } }
static std::string tm_text(unsigned day, uint32_t ms) {
    int64_t sec = (int64_t)day * 86400 + ms / 1000; long d = civil_days(1958, 1, 1) + sec / 86400; int y, mo, dd; civil_from(d, y, mo, dd); int t = sec % 86400;
    return fmt("%04d-%02d-%02d %02d:%02d:%02d +%03u msecs", y, mo, dd, t / 3600, t / 60 % 60, t % 60, ms % 1000);
}

struct Want {
    int ft; uint64_t dlen; size_t total = 16;
    bool st = false, nv = false, df = false, an = false, ts = false, at = false, ky = false, si = false, sq = false;
    unsigned bpp = 0, cols = 0, lines = 0, compr = 0; std::string pname; double lon = 0, plane = 0, plon = 0; bool plonly = false; int pcode = -1; int32_t cf = 0, lf = 0, co = 0, lo = 0;
    std::string dfb, ann, anc; unsigned day = 0; uint32_t ms = 0; unsigned knum = 0; uint64_t seed = 0;
    unsigned scid = 0, chan = 0, seq = 0, ps = 0, pe = 0, fm = 0;
    struct Q { int32_t line; unsigned day; uint32_t ms; unsigned v, r, g; }; std::vector<Q> q;
};
// one random header; the record kinds in the order they appear
static std::string make(Rng& r, Want& w, std::string& order) {
    static const std::vector<int> FT = { 0, 1, 2, 3, 128, 129, 130, 144 };
    w = Want(); w.ft = r.pick(FT); w.dlen = r.chance(0.3) ? r.u64() : r.below(1 << 28);
    std::vector<int> kinds; for (int k : { 1, 2, 3, 4, 5, 6, 7, 128, 129 }) if (r.chance(0.6)) kinds.push_back(k);
    for (size_t i = kinds.size(); i > 1; --i) std::swap(kinds[i - 1], kinds[r.below(i)]);
    if (r.chance(0.25) && !kinds.empty()) kinds.push_back(kinds[r.below(kinds.size())]);   // a record given twice: the last one holds
    // line quality describes the lines of the image structure before it
    std::vector<int> k2; bool haves = false;
    for (int k : kinds) { if (k == 129 && !haves) continue; if (k == 1 && std::find(k2.begin(), k2.end(), 129) != k2.end()) continue; if (k == 1) haves = true; k2.push_back(k); }
    std::string recs; order.clear();
    for (int k : k2) {
        order += fmt("%d ", k); Bytes b;
        switch (k) {
            case 1: w.st = true; w.bpp = r.below(256); w.cols = wide16(r); w.lines = r.chance(0.4) ? r.below(500) : r.chance(0.5) ? 464 : wide16(r); w.compr = r.below(3);
                b.u1(1); b.u2(9); b.u1(w.bpp); b.u2(w.cols); b.u2(w.lines); b.u1(w.compr); break;
            case 2: { w.nv = true; std::string p; int s = r.below(4);
                w.cf = wide32(r); w.lf = wide32(r); w.co = wide32(r); w.lo = wide32(r); w.lon = w.plane = w.plon = 0;
                if (s == 0) { w.lon = (r.below(3600) - 1800.0) / 10; if (r.chance(0.2)) w.lon = std::round(w.lon); p = r.chance(0.7) ? fmt("GEOS(%+06.1f)", w.lon) : r.chance(0.5) ? fmt("GEOS(%g)", w.lon) : fmt("GEOS(%.3f)", w.lon); w.pname = "GEOS"; w.pcode = 0; }
                else if (s == 1) { w.plane = (r.below(1800) - 900.0) / 10; w.plon = (r.below(3600) - 1800.0) / 10; if (r.chance(0.3)) { w.plonly = true; p = r.chance(0.5) ? fmt("POLAR(%.1f)", w.plane) : fmt("POLAR(%+06.1f)", w.plane); } else { w.plonly = false; p = r.chance(0.7) ? fmt("POLAR(%.1f,%.1f)", w.plane, w.plon) : fmt("POLAR(%+06.1f,%+07.1f)", w.plane, w.plon); } w.pname = "POLAR"; w.pcode = 1; }
                else if (s == 2) { p = "MERCATOR"; w.pname = "MERCATOR"; w.pcode = 2; }
                else { p = "PSD"; w.pname = "PSD"; w.pcode = -2; }
                char fill = r.chance(0.5) ? ' ' : 0; p.resize(32, fill);
                b.u1(2); b.u2(51); b.str(p); b.u4(w.cf); b.u4(w.lf); b.u4(w.co); b.u4(w.lo); break; }
            case 3: w.df = true; w.dfb = text(r, r.chance(0.1) ? 0 : r.below(r.chance(0.1) ? 60000 : 300)); b.u1(3); b.u2(3 + w.dfb.size()); b.str(w.dfb); break;
            case 4: w.an = true; w.ann = text(r, 61); b.u1(4); b.u2(64); b.str(w.ann); break;
            case 5: w.ts = true; w.day = wide16(r); w.ms = r.chance(0.2) ? wide32(r) : r.below(86400000); b.u1(5); b.u2(10); b.u1(r.below(256)); b.u2(w.day); b.u4(w.ms); break;
            case 6: w.at = true; w.anc = text(r, 1 + r.below(r.chance(0.1) ? 60000 : 300)); b.u1(6); b.u2(3 + w.anc.size()); b.str(w.anc); break;
            case 7: w.ky = true; w.knum = r.below(256); w.seed = r.u64(); b.u1(7); b.u2(12); b.u1(w.knum); b.u8(w.seed); break;
            case 128: { static const std::vector<unsigned> SC = { 321, 322, 323, 324, 3, 0, 65535 };
                w.si = true; w.scid = r.chance(0.7) ? r.pick(SC) : r.below(65536); w.chan = r.below(256); w.seq = wide16(r); w.ps = wide16(r); w.pe = wide16(r); w.fm = r.below(4);
                b.u1(128); b.u2(13); b.u2(w.scid); b.u1(w.chan); b.u2(w.seq); b.u2(w.ps); b.u2(w.pe); b.u1(w.fm); break; }
            case 129: if (3 + 13 * (size_t)w.lines > 65535) break;
                w.sq = true; w.q.clear(); b.u1(129); b.u2(3 + 13 * w.lines);
                for (unsigned i = 0; i < w.lines; ++i) { Want::Q q { (int32_t)(r.chance(0.8) ? r.below(12000) : wide32(r)), wide16(r), (uint32_t)r.below(86400000), (unsigned)r.below(5), (unsigned)r.below(5), (unsigned)r.below(5) };
                    w.q.push_back(q); b.u4(q.line); b.u2(q.day); b.u4(q.ms); b.u1(q.v); b.u1(q.r); b.u1(q.g); }
                break;
        }
        recs += b.b;
    }
    w.total = 16 + recs.size();
    Bytes h; h.u1(0); h.u2(16); h.u1(w.ft); h.u4(w.total); h.u8(w.dlen);
    return h.b + recs;
}
static std::string cstr(const std::string& s) { return std::string(s.c_str()); }
static void check(const MSG_header& h, const Want& w, const std::string& how) {
    const char* c = how.c_str();
#define F(got, want, name) VEXPECT((long long)(got) == (long long)(want), name, "%s: %s decodes as %lld, stored %lld", c, name, (long long)(got), (long long)(want))
#define S(got, want, name) VEXPECT((got) == (want), name, "%s: %s decodes as '%s', stored '%s'", c, name, std::string(got).substr(0, 200).c_str(), std::string(want).substr(0, 200).c_str())
    F(h.f_typecode, w.ft, "file-type"); F(h.total_header_length, w.total, "header-length"); F(h.data_field_length, w.dlen, "data-length"); F(h.filesize, w.dlen / 8 + w.total, "file-size");
    F(!!h.image_structure, w.st, "structure-present"); F(!!h.image_navigation, w.nv, "navigation-present"); F(!!h.image_data_function, w.df, "data-function-present"); F(!!h.annotation, w.an, "annotation-present");
    F(!!h.timestamp, w.ts, "timestamp-present"); F(!!h.ancillary_text, w.at, "ancillary-present"); F(!!h.key, w.ky, "key-present"); F(!!h.segment_id, w.si, "segment-id-present"); F(!!h.segment_quality, w.sq, "quality-present");
    if (w.st && h.image_structure) { auto& s = *h.image_structure; F(s.number_of_bits_per_pixel, w.bpp, "bpp"); F(s.number_of_columns, w.cols, "columns"); F(s.number_of_lines, w.lines, "lines"); F(s.compression_flag, w.compr, "compression");
        F(s.image_pixels, (uint64_t)w.cols * w.lines, "pixels"); F(s.image_size, ((uint64_t)w.cols * w.lines * w.bpp + 7) / 8, "image-size"); }
    if (w.nv && h.image_navigation) { auto& n = *h.image_navigation; S(n.pname, w.pname, "projection-name"); F(n.column_scaling_factor, w.cf, "cfac"); F(n.line_scaling_factor, w.lf, "lfac"); F(n.column_offset, w.co, "coff"); F(n.line_offset, w.lo, "loff");
        F(n.CFAC, w.cf, "cfac"); F(n.LFAC, w.lf, "lfac"); F(n.COFF, w.co, "coff"); F(n.LOFF, w.lo, "loff");
        if (w.pcode >= 0) F(n.get_projection_code(), w.pcode, "projection-code");
        VEXPECT(w.pcode != 0 || close_rel(n.subsatellite_longitude, w.lon, 1e-6, 1e-6), "longitude", "%s: subsatellite longitude %g, stored %g", c, n.subsatellite_longitude, w.lon);
        VEXPECT(w.pcode != 1 || (close_rel(n.projection_plane, w.plane, 1e-6, 1e-6) && (w.plonly || close_rel(n.projection_longitude, w.plon, 1e-6, 1e-6))), "polar", "%s: polar %g,%g stored %g,%g", c, n.projection_plane, n.projection_longitude, w.plane, w.plon); }
    if (w.df && h.image_data_function) S(h.image_data_function->data_definition_block, w.dfb, "data-definition");
    if (w.an && h.annotation) { auto& a = *h.annotation; S(a.annotation, w.ann, "annotation"); S(a.xrit_channel_id, w.ann.substr(0, 1), "annotation-channel"); S(a.annotation_version, w.ann.substr(2, 3), "annotation-version");
        S(a.disseminating_s_c, w.ann.substr(6, 6), "annotation-sc"); S(a.product_id_1, w.ann.substr(13, 12), "annotation-pid1"); S(a.product_id_2, w.ann.substr(26, 9), "annotation-pid2"); S(a.product_id_3, w.ann.substr(36, 9), "annotation-pid3");
        S(a.product_id_4, w.ann.substr(46, 12), "annotation-pid4"); S(a.flags, w.ann.substr(59, 2), "annotation-flags"); }
    if (w.ts && h.timestamp) { F(h.timestamp->get_day_from_epoch(), w.day, "timestamp-day"); F(h.timestamp->get_msec_in_day(), w.ms, "timestamp-ms"); S(h.timestamp->get_timestring(), tm_text(w.day, w.ms), "timestamp-text"); }
    if (w.at && h.ancillary_text) S(std::string(h.ancillary_text->ancillary_text), w.anc, "ancillary");
    if (w.ky && h.key) { auto& k = *h.key; F(k.key_number, w.knum, "key-number"); F(k.seed, w.seed, "key-seed"); }
    if (w.si && h.segment_id) { auto& s = *h.segment_id; F(s.spacecraft_id, w.scid, "spacecraft"); F(s.spectral_channel_id, w.chan, "channel"); F(s.sequence_number, w.seq, "sequence"); F(s.planned_start_segment_sequence_number, w.ps, "planned-start"); F(s.planned_end_segment_sequence_number, w.pe, "planned-end"); F(s.data_field_format, w.fm, "data-format"); }
    if (w.sq && h.segment_quality) { auto& s = *h.segment_quality; F(s.nlines, w.q.size(), "quality-lines");
        for (size_t i = 0; i < w.q.size() && (int)i < s.nlines; ++i) { auto& a = s.lq[i]; auto& b = w.q[i];
            F(a.line_number_in_grid, b.line, "quality-line"); F(a.line_mean_acquisition.get_day_from_epoch(), b.day, "quality-day"); F(a.line_mean_acquisition.get_msec_in_day(), b.ms, "quality-ms"); F(a.line_validity, b.v, "quality-validity"); F(a.line_radiometric_quality, b.r, "quality-radiometric"); F(a.line_geometric_quality, b.g, "quality-geometric"); } }
#undef F
#undef S
}
// the dump shows the stored values, for the sections present and no other
static void check_dump(const std::string& d, const Want& w, const std::string& how) {
    auto line = [&](const char* section, const std::string& label, const std::string& val, const char* key) {
        size_t p = d.find(section); bool ok = p != std::string::npos;
        if (ok) { std::string l = label; l.resize(20, ' '); ok = d.find("\n" + l + ": " + val + "\n", p) != std::string::npos; }
        VEXPECT(ok, std::string("dump-") + key, "%s: '%s: %s' is not in section%s of\n%s", how.c_str(), label.c_str(), val.c_str(), section, d.substr(0, 800).c_str()); };
    auto sect = [&](const char* s, bool want) { VEXPECT((d.find(s) != std::string::npos) == want, "dump-sections", "%s: section%s %s", how.c_str(), s, want ? "missing" : "printed"); };
    auto I = [](long long v) { return fmt("%lld", v); };
    // free text could imitate headings
    if (!w.an && !w.df && !w.at) { sect(" MSG IMAGE STRUCTURE HEADER ", w.st); sect(" MSG IMAGE NAVIGATION HEADER ", w.nv); sect(" MSG TIMESTAMP HEADER ", w.ts); sect(" MSG HEADER SEGMENT QUALITY ", w.sq); }
    sect(" MSG IMAGE ANNOTATION HEADER ", w.an); sect(" MSG IMAGE DATA FUNCTION HEADER ", w.df); sect(" MSG ANCILLARY TEXT HEADER ", w.at);
    line(" MSG PRIMARY HEADER ", "Total Header Length ", I(w.total), "primary"); line(" MSG PRIMARY HEADER ", "Data Length (bits)  ", fmt("%llu", (unsigned long long)w.dlen), "primary");
    const char* S = " MSG IMAGE STRUCTURE HEADER "; if (w.st) { line(S, "Bits per pixel", I(w.bpp), "structure"); line(S, "Number of Columns", I(w.cols), "structure"); line(S, "Number of Lines", I(w.lines), "structure"); }
    S = " MSG IMAGE NAVIGATION HEADER "; if (w.nv) { line(S, "Column scale factor", I(w.cf), "navigation"); line(S, "Line scale factor", I(w.lf), "navigation"); line(S, "Column offset", I(w.co), "navigation"); line(S, "Line Offset", I(w.lo), "navigation"); }
    S = " MSG IMAGE ANNOTATION HEADER "; if (w.an && w.ann.find('\n') == std::string::npos) { line(S, "XRIT channel ID", w.ann.substr(0, 1), "annotation"); line(S, "Product ID 1", w.ann.substr(13, 12), "annotation"); line(S, "Product ID 2", w.ann.substr(26, 9), "annotation"); line(S, "Product ID 4", w.ann.substr(46, 12), "annotation"); }
    if (w.df) VEXPECT(d.find(w.dfb + "\n") != std::string::npos, "dump-data-function", "%s", how.c_str());
    if (w.at) VEXPECT(d.find(w.anc + "\n") != std::string::npos, "dump-ancillary", "%s", how.c_str());
    if (w.sq && !w.an && !w.df && !w.at) { // the lines that are not as they should be
        static const char* V[] = { "Not derived", "Nominal", "Based on missing data", "Based on corrupted data", "Based on missing or interpolated data" }; static const char* Q[] = { "Not derived", "Nominal", "Usable", "Suspect", "Do not use" };
        size_t p = d.find(" MSG HEADER SEGMENT QUALITY "); std::string e; for (auto& b : w.q) if (b.line > 0 && (b.v > 1 || b.r > 2 || b.g > 2)) e += fmt("Line validity       : %d (%s)\nLine radiometric ql : %d (%s)\nLine geometric ql   : %d (%s)\n", b.v, b.v < 5 ? V[b.v] : "Validity not defined", b.r, b.r < 5 ? Q[b.r] : "Radiometric quality undefined", b.g, b.g < 5 ? Q[b.g] : "Geometric quality undefined");
        std::string got; if (p != std::string::npos) { std::istringstream in(d.substr(p)); std::string l; while (getline(in, l)) if (l.compare(0, 13, "Line validity") == 0 || l.compare(0, 9, "Line radi") == 0 || l.compare(0, 9, "Line geom") == 0) got += l + "\n"; }
        VEXPECT(got == e, "dump-quality", "%s: printed\n%s not\n%s", how.c_str(), got.substr(0, 600).c_str(), e.substr(0, 600).c_str());
    }
    S = " MSG TIMESTAMP HEADER "; if (w.ts) { line(S, "Day from epoch", fmt("%u (epoch is 1958-01-01)", w.day), "timestamp"); line(S, "Msecs in day", I(w.ms), "timestamp"); line(S, "Actual date", tm_text(w.day, w.ms), "timestamp"); }
}
static void records(uint64_t idx, Rng& r) {
    std::string f = cfg().scratch + "/hdr";
    MSG_header again; int rounds = 3;
    for (int k = 0; k < rounds; ++k) {
        Want w; std::string order; std::string bytes = make(r, w, order); int tail = r.below(4);
        std::string more; for (int i = 0; i < tail * 7; ++i) more += (char)r.below(256);
        write_file(f, bytes + more); std::string how = fmt("records %s(type %d, round %d)", order.c_str(), w.ft, k); note(how);
        std::ifstream in(f, std::ios::binary), in2(f, std::ios::binary); MSG_header h; bool thrown = false; std::string err;
        try { h.read_from(in); } catch (std::exception& e) { thrown = true; err = e.what(); }
        if (!VEXPECT(!thrown, "refused", "%s: %s", how.c_str(), err.c_str())) continue;
        VEXPECT((long long)in.tellg() == (long long)w.total, "position", "%s: stops at %lld, header ends at %zu", how.c_str(), (long long)in.tellg(), w.total);
        check(h, w, how); std::ostringstream o; o << h; check_dump(o.str(), w, how);
        // an object that held another header shows only this one
        try { again.read_from(in2); check(again, w, how + " reread"); std::ostringstream o2; o2 << again; VEXPECT(o.str() == o2.str(), "reread-dump", "%s", how.c_str()); } catch (std::exception& e) { viol("reread-refused", how + e.what()); }
        std::istringstream os(order); std::string t; std::string set; while (os >> t) { obs("record kind", t); set += t + " "; }
        obs("record sequences", set); if (w.sq) obs("quality lines", fmt("%zu", w.q.size() / 64)); if (w.nv) obs("projection", w.pname); sample(how);
    }
}
// key groups: 64-127 are group 1, 192 and above group 2, the rest reserved
static void keys(uint64_t idx, Rng& r) {
    unsigned n = idx; std::string b = rec_key(n, r.u64()); MSG_header_key k((const unsigned char*)b.data());
    bool g1 = n >= 64 && n <= 127, g2 = n >= 192;
    VEXPECT(k.is_key_group_1() + k.is_key_group_2() + k.is_key_reserved() == 1, "key-groups", "key %u is in several groups or in none", n);
    obs("key group", k.is_key_group_1() ? "1" : k.is_key_group_2() ? "2" : "reserved");
    VEXPECT(k.is_key_group_1() == g1 && k.is_key_group_2() == g2, "key-group", "key %u: group 1 %d, group 2 %d", n, k.is_key_group_1(), k.is_key_group_2());
}
// what the codes of the records mean
struct Names { const char* what; std::string (*name)(int); const char* other; std::map<int, const char*> known; };
static const std::vector<Names>& names_table() { static const std::vector<Names> T = {
    { "MSG_filetype", [](int v) { return MSG_filetype((t_enum_MSG_filetype)v); }, "MSG Mission Unknown file typecode as of CGMS-03 LRIT-HRIT Global Specification, V. 2.6 19 Aug 1999", { { 0, "MSG Image Data File" }, { 1, "MSG GTS Message File" }, { 2, "MSG Alphanumeric Text File" }, { 3, "MSG Encryption Key Message File" }, { 128, "MSG Repeat Cycle Prologue" }, { 129, "MSG Repeat Cycle Epilogue" }, { 130, "MSG DCP Message (unprocessed)" }, { 144, "MSG Binary File Message" }, } },
    { "MSG_image_compression", [](int v) { return MSG_image_compression((t_enum_MSG_image_compression)v); }, "MSG Compression flag unknown.", { { 0, "MSG No Compression" }, { 1, "MSG Lossless Compression" }, { 2, "MSG Lossy Compression" }, } },
    { "MSG_data_format", [](int v) { return MSG_data_format((t_enum_MSG_data_format)v); }, "MSG undefined format for data field", { { 0, "MSG unformatted data field" }, { 1, "MSG JPEG formatted data field" }, { 2, "MSG T.4 coded data field" }, { 3, "MSG Wavelet coded data field" }, } },
    { "MSG_segment_validity", [](int v) { return MSG_segment_validity((t_enum_MSG_segment_validity)v); }, "Validity not defined", { { 0, "Not derived" }, { 1, "Nominal" }, { 2, "Based on missing data" }, { 3, "Based on corrupted data" }, { 4, "Based on missing or interpolated data" }, } },
    { "MSG_segment_radiometric_quality", [](int v) { return MSG_segment_radiometric_quality((t_enum_MSG_segment_radiometric_quality)v); }, "Radiometric quality undefined", { { 0, "Not derived" }, { 1, "Nominal" }, { 2, "Usable" }, { 3, "Suspect" }, { 4, "Do not use" }, } },
    { "MSG_segment_geometric_quality", [](int v) { return MSG_segment_geometric_quality((t_enum_MSG_segment_geometric_quality)v); }, "Geometric quality undefined", { { 0, "Not derived" }, { 1, "Nominal" }, { 2, "Usable" }, { 3, "Suspect" }, { 4, "Do not use" }, } },
    { "MSG_spacecraft_name", [](int v) { return MSG_spacecraft_name((t_enum_MSG_spacecraft)v); }, "Unknown", { { 0, "Non Spacecraft" }, { 11, "METOP1" }, { 12, "METOP2" }, { 13, "METOP3" }, { 16, "METEOSAT3" }, { 19, "METEOSAT4" }, { 20, "METEOSAT5" }, { 21, "METEOSAT6" }, { 150, "MTP1" }, { 151, "MTP2" }, { 321, "MSG1" }, { 322, "MSG2" }, { 323, "MSG3" }, { 324, "MSG4" }, } },
}; return T; }
static void names(uint64_t idx, Rng&) {
    const Names& n = names_table()[idx % names_table().size()];
    for (int v = 0; v < 1000; ++v) { auto k = n.known.find(v); std::string want = k == n.known.end() ? n.other : k->second, got = n.name(v); VEXPECT(got == want, std::string("name-") + n.what, "%s of %d is '%s', not '%s'", n.what, v, got.c_str(), want.c_str()); if (k != n.known.end()) obs("name", got); }
}
int main(int c, char** v) {
    parse_args(c, v); bool t = cfg().thorough;
    add_group("records", t ? 60000 : 6000, 50, 20, records);
    add_group("keys", 256, 256, 20, keys); add_group("names", 7, 7, 20, names);
    return run_all();
}
