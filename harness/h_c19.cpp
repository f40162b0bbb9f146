// C19: OpenMTP-IDS images survive writing, reading, sectoring and export
#include "omtpids.h"
#include "toolutil.h"
#include <sstream>
#include <msat/omtp-ids/ByteSex.hh>
using namespace om;
static std::vector<Line> all(const Img& m) { std::vector<Line> v; for (auto& r : m.recs) v.insert(v.end(), r.lines.begin(), r.lines.end()); return v; }
static void ranges(Rng& r, const OpenMTP_IDS& o, const Img& m) {
    auto L = all(m); unsigned n = L.size(); auto cmp = [&](const std::vector<ScanLine>& v, unsigned a, unsigned b, const char* how) { std::string e; b = std::min(b, n); if (a > b) a = b; if (v.size() != b - a) e = fmt("%zu lines, not %u", v.size(), b - a); for (unsigned i = a; i < b && e.empty(); ++i) if (!same_line(v[i - a], L[i])) e = fmt("line %u differs", i); VEXPECT(e.empty(), how, "%s of %u..%u of %u lines in %zu records: %s", how, a, b, n, m.recs.size(), e.c_str()); };
    cmp(o.scanline(), 0, n, "scanline-all"); std::vector<unsigned> edge = { 0, n, n ? n - 1 : 0, n + 1 }; unsigned s = 0; for (auto& c : m.recs) { s += c.lines.size(); edge.push_back(s); if (s) edge.push_back(s - 1); edge.push_back(s + 1); }
    for (int k = 0; k < 12; ++k) { unsigned a = r.chance(0.6) ? r.pick(edge) : r.below(n + 2), b = r.chance(0.6) ? r.pick(edge) : r.below(n + 3); if (b < a && r.chance(0.9)) std::swap(a, b); if (b < a) { VEXPECT(o.scanline(a, b).empty(), "scanline-range", "lines %u to %u are not none", a, b); continue; } cmp(o.scanline(a, b), a, b, "scanline-range"); obs("range", fmt("%s-%s", a == 0 ? "first" : a >= n ? "beyond" : "inner", b >= n ? "last" : b == a ? "none" : "inner")); unsigned c = r.chance(0.5) ? r.pick(edge) : r.below(n + 2); cmp(o.scanline(c), c, c + 1, "scanline-one"); }
}
static void lib(uint64_t, Rng& r) {
    OpenMTP_IDS used; bool haveused = false;
    for (int k = 0; k < 8; ++k) {
        Img m = r.chance(0.05) ? image(r, 200 + r.below(200), 2, 3) : r.chance(0.05) ? image(r, 1, 1500, 3) : r.chance(0.05) ? image(r, 2, 2, 65519 - 40) : image(r, r.below(7), 6, 60); note(fmt("image of %zu records, step %d", m.recs.size(), k)); std::string b = encode(m);
        write_file("a.ids", b); try {
            OpenMTP_IDS o("a.ids"); std::string d = diff(o, m); VEXPECT(d.empty(), "read", "reading an image of %zu records: %s", m.recs.size(), d.c_str());
            if (haveused) { used.read("a.ids"); d = diff(used, m); VEXPECT(d.empty(), "read-again", "reading into an image used before: %s", d.c_str()); } used = o; haveused = true;
            VEXPECT(o.write("b.ids"), "write-result", "write says no"); std::string c = read_file("b.ids"); VEXPECT(c == b, "rewrite", "an image read and written has %zu bytes, it had %zu (first difference at %zu)", c.size(), b.size(), (size_t)(std::mismatch(c.begin(), c.begin() + std::min(c.size(), b.size()), b.begin()).first - c.begin()));
            ranges(r, o, m);
            std::ostringstream os; os << o; VEXPECT(os && os.str() == b, "stream-write", "the stream operator writes other bytes"); std::istringstream is(b + "rest"); OpenMTP_IDS q; is >> q; VEXPECT(diff(q, m).empty() && (size_t)is.tellg() == b.size(), "stream-read", "the stream operator ends at %ld of %zu", (long)is.tellg(), b.size());
            // made by hand: the record marks are those of the format
            Img e = m; e.fortran = 1; for (auto& x : e.recs) x.fortran = 1; if (e.sat.find('\0') != std::string::npos) e.sat = "MET\xe9O 12"; OpenMTP_IDS h = make(e); d = diff(h, e); VEXPECT(d.empty(), "setters", "an image made through setters: %s", d.c_str()); h.write("c.ids"); c = read_file("c.ids"); VEXPECT(c == encode(e), "write", "an image made through setters is written as other bytes than the format says"); OpenMTP_IDS g("c.ids"); d = diff(g, e); VEXPECT(d.empty(), "round-trip", "written and read back: %s", d.c_str()); OpenMTP_IDS cp(g); VEXPECT(diff(cp, e).empty(), "copy", "a copied image differs");
            std::ostringstream ds; o.debug(ds); std::string t = ds.str(); size_t recs = 0, lines = 0, p = 0; while ((p = t.find("-- Record --", p)) != std::string::npos) ++recs, ++p; p = 0; while ((p = t.find("LineHeader :", p)) != std::string::npos) ++lines, ++p; VEXPECT(recs == m.recs.size() && lines == all(m).size(), "debug", "the dump has %zu records and %zu lines, the image %zu and %zu", recs, lines, m.recs.size(), all(m).size());
        } catch (const char* e) { viol("valid-refused", fmt("a well-formed image is refused: %s", e)); } catch (std::exception& e) { viol("valid-refused", fmt("a well-formed image is refused: %s", e.what())); }
        obs("records", fmt("%zu", m.recs.size())); obs("lines", fmt("%zu", all(m).size()));
    }
}
static void bytesex(uint64_t, Rng& r) {
    for (int k = 0; k < 400; ++k) { uint32_t v = r.chance(0.3) ? val(r) : (uint32_t)r.u64(); int n = r.below(5), n2 = r.below(3); std::stringstream a, b, c, d; ByteSex::big::write4(a, v, n); ByteSex::little::write4(b, v, n); ByteSex::big::write2(c, v, n2); ByteSex::little::write2(d, v, n2); std::string ea, eb, ec, ed; for (int i = 0; i < n; ++i) { ea += (char)(v >> 8 * (n - 1 - i)); eb += (char)(v >> 8 * i); } for (int i = 0; i < n2; ++i) { ec += (char)(v >> 8 * (n2 - 1 - i)); ed += (char)((v & 0xFFFF) >> 8 * i); }
        VEXPECT(a.str() == ea && b.str() == eb && c.str() == ec && d.str() == ed, "bytes-written", "0x%08x as %d or %d bytes", v, n, n2); uint32_t m4 = n == 4 ? ~0u : (1u << 8 * n) - 1, m2 = (1u << 8 * n2) - 1; VEXPECT(ByteSex::big::read4(a, n) == (v & m4) && ByteSex::little::read4(b, n) == (v & m4) && ByteSex::big::read2(c, n2) == (v & m2) && ByteSex::little::read2(d, n2) == (v & m2), "bytes-read", "0x%08x as %d or %d bytes", v, n, n2); obs("bytes", fmt("%d %d", n, n2)); }
}
static void to_pgm(uint64_t, Rng& r) {
    mkdir("t", 0755);
    for (int k = 0; k < 3; ++k) {
        vt::clear("t"); Img m; m.h = image(r, 0, 0, 0).h; std::vector<int> id = { 1 + (int)r.below(3), 6 + (int)r.below(2), 4 + (int)r.below(2) }; if (r.chance(0.3)) id[0] = 8 + r.below(5); m.h[14] = 58 + r.below(100); for (int c = 0; c < 3; ++c) m.h[10 + c] = r.chance(0.8) ? id[c] : 0; if (r.chance(0.1)) m.h[10] = 13 + r.below(60000);
        int nrec = 1 + r.below(8), npx[3] = { 1 + (int)r.below(80), 1 + (int)r.below(80), 1 + (int)r.below(80) }; bool inter = r.chance(0.5); if (r.chance(0.05)) npx[r.below(3)] = 0; for (int i = 0; i < nrec; ++i) { Rec c; int n = r.below(8); for (int j = 0; j < n; ++j) { int ch = inter ? (i * 7 + j) % 3 : r.below(4); Line l = line(r, ch < 3 ? npx[ch] : r.below(50)); l.channel = ch < 3 ? m.h[10 + ch] : (int)r.below(14); c.lines.push_back(l); } m.recs.push_back(c); } m.h[0] = nrec + 1;
        write_file("t/i.ids", encode(m)); auto want = pgms(m); vt::Out o = vt::run("IDSPGM", { "i.ids" }, "t"); VEXPECT(!o.crashed(), "pgm-crash", "to_pgm dies: %d %.300s", o.sig, o.err.c_str()); VEXPECT((o.status == 0) == !want.empty(), "pgm-status", "to_pgm ends with %d, %zu images are there to write", o.status, want.size());
        auto got = vt::files("t"); for (auto& w : want) VEXPECT(got.count(w.first) && pgm(got[w.first]) == w.second, "pgm-content", "%s: %s", w.first.c_str(), got.count(w.first) ? "other content" : "missing"); for (auto& g : got) if (g.first != "i.ids") VEXPECT(want.count(g.first), "pgm-extra", "%s is written, no channel has such an image", g.first.c_str()); std::string w; for (auto& x : want) w += x.first + " "; obs("pgm", w); sample("pgm " + w);
    }
}
static void sector(uint64_t, Rng& r) {
    mkdir("s", 0755); vt::clear("s"); Img m = image(r, 0, 0, 0); m.h[14] = 58 + r.below(200); int nl = 3165 + (r.chance(0.5) ? 0 : r.below(400)), px = 802 + (r.chance(0.3) ? 0 : r.below(500)), per = r.chance(0.5) ? 12 : 1 + r.below(60); bool vary = r.chance(0.3); std::vector<Line> L;
    for (int i = 0; i < nl; ++i) { Line l = line(r, 0); l.line = i; int n = px + (vary && r.chance(0.3) ? r.below(50) : 0); uint64_t x = r.u64(); l.px.resize(n); for (int j = 0; j < n; ++j) l.px[j] = (char)((x = x * 6364136223846793005ULL + 1442695040888963407ULL) >> 56); l.length = 16 + n + r.below(3); L.push_back(l); } for (int i = 0; i < nl; i += per) { Rec c; c.reclen = 1; c.lines.assign(L.begin() + i, L.begin() + std::min(nl, i + per)); m.recs.push_back(c); } m.h[0] = m.recs.size() + 1;
    write_file("s/i.ids", encode(m)); vt::Out o = vt::run("IDSSECTOR", { "i.ids" }, "s"); VEXPECT(!o.crashed() && o.status == 0, "sector-status", "an image of %d lines of %d pixels: sector ends with %d, signal %d %.300s", nl, px, o.status, o.sig, o.err.c_str()); if (o.status) return; unlink("s/i.ids");
    try {
        OpenMTP_IDS q("s/omtp-ids-sector.ids"); auto h = hvals(q.fileheader()); for (int i = 0; i < 25; ++i) if (i != 0 && i != 14) VEXPECT(h[i] == m.h[i], "sector-header", "%s is %d, was %d", HN[i], h[i], m.h[i]); VEXPECT(!memcmp(q.fileheader().satellite(), m.sat.data(), 8), "sector-header", "the satellite's name changed");
        int n = 0; bool tail = true; std::string e; for (auto& rec : q.record()) { VEXPECT((int)rec.scanline().size() == q.record()[0].recordheader().no_scanlines(), "sector-records", "records of different size"); for (auto& s : rec.scanline()) { if (n < 510) { const Line& l = L[2655 + n]; const LineHeader& g = s.lineheader(); if (g.line() != l.line || g.channel_id() != l.channel || g.quality() != l.quality || g.no_pixels() != 256 || g.length() != 272) e = fmt("header of sector line %d", n); else if (std::string(s.linepixel().begin(), s.linepixel().end()) != l.px.substr(546, 256)) e = fmt("samples of sector line %d", n); } else if (s.lineheader().channel_id() != 0 || s.linepixel() != std::vector<unsigned char>(256)) e = fmt("line %d after the sector is not empty", n); ++n; } } VEXPECT(e.empty() && n >= 510 && n < 520, "sector-content", "image %d x %d in records of %d: %d lines; %s", nl, px, per, n, e.c_str()); obs("sector", fmt("%d per record %s %s", per, nl == 3165 ? "ends with image" : "", px == 802 ? "at right edge" : ""));
        struct stat st; stat("s/omtp-ids-sector.ids", &st); VEXPECT(h[0] == (int)q.record().size() + 1 && st.st_size == h[14] + 2L + (long)q.record().size() * (h[14] + 2L), "sector-size", "the sector file has %ld bytes, %d records of %d", (long)st.st_size, h[0], h[14]);
    } catch (const char* e) { viol("sector-content", fmt("the sector file cannot be read: %s", e)); } catch (std::exception& e) { viol("sector-content", fmt("the sector file cannot be read: %s", e.what())); }
}
static void tools(uint64_t, Rng& r) {
    mkdir("w", 0755); for (int k = 0; k < 3; ++k) { vt::clear("w"); Img m = image(r, r.below(6), 5, 40); std::string b = encode(m); write_file("w/i.ids", b); vt::Out o = vt::run("IDSWRITE", { "i.ids" }, "w"); VEXPECT(!o.crashed() && o.status == 0 && read_file("w/test.omtp-ids") == b, "tool-write", "OpenMTP-IDS_write ends with %d and %s", o.status, read_file("w/test.omtp-ids") == b ? "the same bytes" : "other bytes"); VEXPECT(read_file("w/i.ids") == b, "input-changed", "OpenMTP-IDS_write changes its input");
        o = vt::run("IDSDEBUG", { "i.ids" }, "w"); VEXPECT(!o.crashed() && o.status == 0, "tool-debug", "OpenMTP-IDS_debug ends with %d", o.status); auto has = [&](const char* l, int v) { std::string k = std::string("\n  ") + l, s = k.substr(0, 3); k.resize(24, ' '); VEXPECT(o.out.find(k + fmt(": %d\n", v)) != std::string::npos, "tool-debug", "the dump has no '%s : %d'", l, v); }; const auto& h = m.h; static const char* LB[] = { "number of records", "year", "julian_day", "hour", "minute", "process year", "process julian_day", "process hour", "process minute", "number of channels", "vis channel id", "wv channel id", "ir channel id", "satellite id", "record length", "vis no average", "wv no average", "ir no average", "averaging type", "sample interval", "ir calibration", "wv calibration", "fine adjustment", "ir space count", "wv space count" }; for (int i = 0; i < 25; ++i) has(LB[i], h[i]); for (auto& c : m.recs) { has("number of scanlines", c.lines.size()); for (auto& l : c.lines) { has("length", l.length); has("line", l.line); has("start", l.start); has("no_pixels", l.px.size()); has("channel_id", l.channel); has("quality", l.quality); } } obs("tools", fmt("%zu", m.recs.size())); }
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough;
    add_group("lib", t ? 4000 : 240, 6, 60, lib); add_group("bytesex", t ? 200 : 16, 4, 60, bytesex); add_group("pgm", t ? 600 : 48, 6, 60, to_pgm); add_group("sector", t ? 200 : 24, 3, 60, sector); add_group("tools", t ? 400 : 32, 4, 60, tools);
    return run_all();
}
