// C17: native-format files decode to the stored image and metadata
#include "native.h"
#include <sstream>
using namespace nf;
extern unsigned char vf_fill;
static void __attribute__((noinline)) smear(int v) { volatile char b[98304]; memset((void*)b, v, sizeof b); }

static bool load(MSG_native& m, const std::string& path) {
    if (!m.open((char*)path.c_str())) { viol("refused", "open refuses a well-formed file"); return false; }
    try { m.read(); } catch (std::exception& e) { viol("refused", std::string("a well-formed file is refused: ") + e.what()); return false; } return true;
}
static void same_image(MSG_native& m, const File& f) {
    for (int c = 0; c < 12; ++c) {
        unsigned short* d = m.data(c); if (!f.sel[c]) { VEXPECT(!d && m.line[c].empty() && m.lines(c) == 0 && m.pixels(c) == 0, "unselected", "channel %d, which the file does not hold, has data", c); delete[] d; continue; }
        VEXPECT(m.lines(c) == f.lines(c) && m.pixels(c) == f.cols(c), "size", "channel %d: %d lines of %d, stored %d of %d", c, m.lines(c), m.pixels(c), f.lines(c), f.cols(c));
        VEXPECT(d != nullptr, "no-data", "channel %d: no data", c);
        if (d && m.lines(c) == f.lines(c) && m.pixels(c) == f.cols(c)) { bool ok = true; for (int l = 0; ok && l < f.lines(c); ++l) for (int x = 0; x < f.cols(c); ++x) if (d[(size_t)l * f.cols(c) + x] != f.line[c][l].samples[x]) { viol("samples", fmt("channel %d line %d column %d: %d, stored %d (%d lines of %d)", c, l, x, d[(size_t)l * f.cols(c) + x], f.line[c][l].samples[x], f.lines(c), f.cols(c))); ok = false; break; } evals((uint64_t)f.lines(c) * f.cols(c)); }
        delete[] d; VEXPECT(m.line[c].size() == f.line[c].size(), "line-count", "channel %d: %zu lines kept, %zu stored", c, m.line[c].size(), f.line[c].size());
        size_t i = 0; for (auto& l : m.line[c]) { if (i < f.line[c].size() && (f.line[c].size() < 40 || i % 37 == 0)) same_line(l, f.line[c][i], fmt("channel %d line %zu", c, i)); ++i; }
    }
    VEXPECT(m.lines(-1) == 0 && m.lines(12) == 0 && m.pixels(12) == 0 && !m.data(-1) && !m.data(12), "no-channel", "channels that do not exist have data");
}
static void meta(MSG_native& m, const File& f) {
    for (int i = 0; i < 48; ++i) VEXPECT(m.header.mph_sph_header.mphinfo[i] == f.mph[i], fmt("umarf:%d", i), "text %d is '%s', stored '%s'", i, m.header.mph_sph_header.mphinfo[i].c_str(), f.mph[i].c_str());
    same_packet(m.header.impf_packet_header, f.hpkt, "header packet"); same_packet(m.trailer.impf_packet_header, f.tpkt, "trailer packet");
}
static void sizes(Rng& r, int& nl, int& nc, int& hc) { nl = r.chance(0.05) ? 0 : 1 + r.below(r.chance(0.1) ? 60 : 6); nc = r.chance(0.1) ? 3712 : r.chance(0.5) ? 4 * (1 + r.below(40)) : 1 + r.below(100); hc = r.chance(0.1) ? 5568 : r.chance(0.5) ? 4 * (1 + r.below(40)) : 1 + r.below(100); if (nc > 1000 || hc > 1000) nl = 1 + nl % 4; }
// Images of every selection and window, read into fresh and used objects
static void images(uint64_t, Rng& r) {
    File f; sections(r, f, 0.5); MSG_native used;
    for (int k = 0; k < 6; ++k) {
        int nl, nc, hc; sizes(r, nl, nc, hc); image(r, f, nl, nc, hc); write_file("img", f.bytes); std::string s; for (bool b : f.sel) s += b ? 'X' : '-'; note(fmt("bands %s, %d lines of %d, HRV of %d", s.c_str(), nl, nc, hc)); obs("image", s.substr(0, 3) + s[11] + fmt(" %d %d %d", nl > 3 ? 3 : nl, nc % 4, hc % 4)); int fd = count_fds();
        vf_fill = r.chance(0.5) ? 0xAA : 0; smear(vf_fill);
        if (r.chance(0.5)) { MSG_native m; if (!load(m, "img")) return; same_image(m, f); meta(m, f); } else { if (!load(used, "img")) return; same_image(used, f); meta(used, f); }
        if (r.chance(0.4)) {        // copies outlive what they were taken from
            std::vector<MSG_native_line> keep; std::vector<const Line*> want; { MSG_native m; if (!load(m, "img")) return; std::list<MSG_native_line> copy; for (int c = 0; c < 12; ++c) { size_t i = 0; for (auto& l : m.line[c]) { if (r.chance(0.5)) { MSG_native_line x = l; keep.push_back(x); want.push_back(&f.line[c][i]); } ++i; } copy = m.line[c]; if (!copy.empty()) { copy.front() = copy.back(); keep.push_back(copy.front()); want.push_back(&f.line[c].back()); same_line(m.line[c].front(), f.line[c][0], "the original of a copied list"); } } if (keep.size() > 1) { keep[0] = keep[0]; MSG_native_line t = keep[0]; keep[0] = keep[1]; keep[1] = t; std::swap(want[0], want[1]); } m.close(); }
            for (size_t i = 0; i < keep.size(); ++i) same_line(keep[i], *want[i], fmt("copy %zu", i)); obs("copies", fmt("%zu", keep.size() > 9 ? 9 : keep.size())); }
        used.close(); for (int c = 0; c < 12; ++c) VEXPECT(used.lines(c) == 0 && used.line[c].empty(), "closed", "a closed file still has lines in channel %d", c);
        VEXPECT(count_fds() == fd, "descriptors", "%d descriptors, %d before", count_fds(), fd);
    }
    sample("images");
}
// Header and trailer sections, and the dump of everything
template<class S> static void part(S& s, const std::string& rec, size_t& o, size_t size, const char* name, const std::string& dump, double) {
    std::string b = rec.substr(o, size); o += size; Lay L(b, 0, nullptr, std::string("native.") + name); lay(L, s); std::string d = dump_of(s); check_dump(L, d, "native file"); VEXPECT(dump.find(d) != std::string::npos, std::string("dump-part.") + name, "the dump of the file lacks %s", name);
}
static void header(uint64_t, Rng& r) {
    File f; sections(r, f, r.pick(std::vector<double>{ 0, 0.3, 0.9 })); image(r, f, 1 + r.below(3), 1 + r.below(30), 1 + r.below(30)); write_file("hdr", f.bytes); std::string dump[2];
    for (int pass = 0; pass < 2; ++pass) {
        vf_fill = pass ? 0 : 0xAA; smear(vf_fill); std::unique_ptr<MSG_native> m(new MSG_native); if (!load(*m, "hdr")) return; meta(*m, f); { std::ostringstream o; o << *m; dump[pass] = o.str(); } const std::string& d = dump[pass];
        if (!pass) { size_t o = 1; auto& h = m->header.l15; part(h.sat_status, f.hdr, o, 60134, "SatelliteStatus", d, 0); part(h.image_acquisition, f.hdr, o, 700, "ImageAcquisition", d, 0); part(h.celestial_events, f.hdr, o, 326058, "CelestialEvents", d, 0); part(h.image_description, f.hdr, o, 101, "ImageDescription", d, 0); part(h.radiometric_proc, f.hdr, o, 20815, "RadiometricProc", d, 0); part(h.geometric_proc, f.hdr, o, 17653, "GeometricProc", d, 0); part(h.IMPF_config, f.hdr, o, 19786, "IMPFConfiguration", d, 0);
            o = 1; auto& t = m->trailer.l15; part(t.product_stats, f.trl, o, 340, "ImageProdStats", d, 0); part(t.navig_result, f.trl, o, 5680, "NavigExtrResult", d, 0); part(t.radiometric_qlty, f.trl, o, 371256, "RadiometricQuality", d, 0); part(t.geometric_qlty, f.trl, o, 2916, "GeometricQuality", d, 0); part(t.timelin_comple, f.trl, o, 132, "TimelinComple", d, 0);
            for (int i = 0; i < 48; ++i) VEXPECT(d.find(f.mph[i]) != std::string::npos, "dump-umarf", "the dump lacks the text '%s'", f.mph[i].c_str());
            // the lines and their samples, in order
            std::string want; for (int c = 0; c < 12; ++c) for (auto& q : f.line[c]) { want += text_of_line(q); for (int v : q.samples) want += fmt("%d|", v); }
            std::string got; size_t at = d.find("MSG NATIVE LINE HEADER"); std::istringstream in(at == std::string::npos ? "" : d.substr(at)); std::string l; static const std::set<std::string> LAB = { "LINE1_5Version", "SatelliteId", "LineNumberInGrid", "ChannelId", "LineValidity", "LineRadiometricQuality", "LineGeometricQuality" };
            while (std::getline(in, l)) { l = norm(l); size_t p = l.find(':'); bool num = !l.empty() && l.find_first_not_of("0123456789") == std::string::npos; if (num || (p != std::string::npos && LAB.count(l.substr(0, p)))) got += l + "|"; }
            size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; VEXPECT(got == want, "dump-lines", "the lines of the dump read '...%s', stored '...%s'", got.substr(i > 30 ? i - 30 : 0, 90).c_str(), want.substr(i > 30 ? i - 30 : 0, 90).c_str()); obs("dumped", fmt("%zu lines", (size_t)std::count(d.begin(), d.end(), '\n') / 1000)); }
    }
    VEXPECT(dump[0] == dump[1], "memory", "the dump depends on what memory held before");
    std::ostringstream o; MSG_native m; if (load(m, "hdr")) { o << m; VEXPECT(o.str() == dump[0], "again", "a second read of the same file dumps differently"); }
}
// The greyscale export
static void pgm(uint64_t, Rng& r) {
    File f; sections(r, f, 0.9);
    for (int k = 0; k < 6; ++k) {
        int nl, nc, hc; sizes(r, nl, nc, hc); image(r, f, nl, nc, hc); write_file("pgm", f.bytes); MSG_native m; if (!load(m, "pgm")) return;
        for (int c = -1; c < 13; ++c) { unlink("out.pgm"); bool ok = m.pgmdump(c, (char*)"out.pgm"); if (c < 0 || c > 11 || !f.sel[c]) { VEXPECT(!ok && access("out.pgm", F_OK), "pgm-unselected", "channel %d, which is not there, is written", c); continue; }
            VEXPECT(ok, "pgm-refused", "channel %d is not written", c); std::string p = read_file("out.pgm"); size_t o = 0; std::vector<long> num; bool bad = p.substr(0, 2) != "P5"; o = 2;
            while (!bad && num.size() < 3 && o < p.size()) { if (isspace((unsigned char)p[o])) { ++o; continue; } if (p[o] == '#') { while (o < p.size() && p[o] != '\n') ++o; continue; } if (!isdigit((unsigned char)p[o])) { bad = true; break; } long v = 0; while (o < p.size() && isdigit((unsigned char)p[o])) v = v * 10 + p[o++] - '0'; num.push_back(v); }
            ++o; bad = bad || num.size() < 3; VEXPECT(!bad, "pgm-format", "channel %d: no valid PGM header", c); if (bad) continue; VEXPECT(num[0] == f.cols(c) && num[1] == f.lines(c) && num[2] >= 1023 && num[2] < 65536, "pgm-size", "channel %d: %ld by %ld up to %ld", c, num[0], num[1], num[2]);
            VEXPECT(p.size() - o == (size_t)f.cols(c) * f.lines(c) * 2, "pgm-length", "channel %d: %zu bytes of samples for %d by %d", c, p.size() - o, f.cols(c), f.lines(c)); if (p.size() - o != (size_t)f.cols(c) * f.lines(c) * 2) continue;
            for (int l = 0, done = 0; l < f.lines(c) && !done; ++l) for (int x = 0; x < f.cols(c); ++x, o += 2) if ((int)get_be(p, o, 2) != f.line[c][l].samples[x]) { viol("pgm-samples", fmt("channel %d line %d column %d: %d, stored %d", c, l, x, (int)get_be(p, o, 2), f.line[c][l].samples[x])); done = 1; break; } evals((uint64_t)f.cols(c) * f.lines(c)); obs("pgm", fmt("%d %d", c, f.cols(c) % 4)); }
        VEXPECT(!m.pgmdump(0, (char*)"no/such/dir/x.pgm"), "pgm-unwritable", "writing in a missing directory succeeds");
    }
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough;
    add_group("images", t ? 3000 : 120, 4, 60, images); add_group("header", t ? 600 : 24, 2, 60, header); add_group("pgm", t ? 1000 : 40, 4, 60, pgm);
    return run_all();
}
