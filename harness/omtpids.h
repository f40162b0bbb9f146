// An independent encoder of OpenMTP-IDS files (EUM.FG.3), and a model of them
#pragma once
#include "common.h"
#include <msat/omtp-ids/OpenMTP-IDS.hh>
namespace om {
using namespace vf;
struct Line { int length = 16, line = 0, start = 0, channel = 0, quality = 0, pad[2] = { 0, 0 }; std::string px; };
struct Rec { int fortran = 1, hlen = 8, reclen = 0, zero = 0; std::vector<Line> lines; };
struct Img { int fortran = 1; std::vector<int> h = std::vector<int>(26); std::string sat = "METEOSAT"; std::vector<Rec> recs; };
// header fields in file order: 0 no_records 1-4 time 5-8 processing time 9 channels 10 vis 11 wv 12 ir [satellite] 13 id 14 record length 15-18 averages 19-25 rest
static const char* HN[] = { "no_records", "year", "julian_day", "hour", "minute", "process_year", "process_julian_day", "process_hour", "process_minute", "no_channels", "vis_id", "wv_id", "ir_id", "satellite_id", "record_length", "no_vis_average", "no_wv_average", "no_ir_average", "averaging_type", "sample_interval", "ir_calibration", "wv_calibration", "fine_adjustment", "ir_space_count", "wv_space_count" };
inline void p2(std::string& s, int v) { s += (char)(v >> 8); s += (char)v; }
inline std::vector<size_t>& marks() { static std::vector<size_t> v; return v; }      // where the last encoded image has its counts and lengths
inline std::string encode(const Img& m) {
    marks() = { 2, 38 };
    std::string s; p2(s, m.fortran); for (int i = 0; i < 25; ++i) { if (i == 13) s += m.sat; p2(s, m.h[i]); } s.resize(std::max<size_t>(s.size(), m.h[14] + 2), 0);
    for (auto& r : m.recs) { marks().push_back(s.size() + 4); p2(s, r.fortran); p2(s, r.hlen); p2(s, r.lines.size()); p2(s, r.reclen); p2(s, r.zero); for (auto& l : r.lines) { size_t a = s.size(); marks().push_back(a); marks().push_back(a + 6); p2(s, l.length); p2(s, l.line); p2(s, l.start); p2(s, l.px.size()); p2(s, l.channel); p2(s, l.quality); p2(s, l.pad[0]); p2(s, l.pad[1]); s += l.px; s.resize(a + l.length, 0); } }
    return s;
}
inline int val(Rng& r) { switch (r.below(6)) { case 0: return r.pick(std::vector<int>{ 0, 1, 127, 128, 255, 256, 32767, 32768, 65534, 65535, 0x0102, 0xFF00, 0x00FF }); case 1: return r.below(256); default: return r.below(65536); } }
inline Line line(Rng& r, int npx) { Line l; l.line = val(r); l.start = val(r); l.channel = r.chance(0.8) ? r.below(14) : val(r); l.quality = val(r); l.pad[0] = val(r); l.pad[1] = val(r); for (int i = 0; i < npx; ++i) l.px += (char)r.below(256); l.length = 16 + npx + (r.chance(0.6) ? 0 : r.below(40)); return l; }
inline Img image(Rng& r, int nrec, int maxlines, int maxpx) {
    Img m; for (auto& v : m.h) v = val(r); m.h[14] = 58 + (r.chance(0.3) ? 0 : r.chance(0.1) ? 65535 - 58 : r.below(20000)); m.h[0] = nrec + 1; m.fortran = r.chance(0.7) ? 1 : val(r); if (r.chance(0.4)) for (auto& c : m.sat) c = (char)(r.chance(0.8) ? 32 + r.below(95) : r.below(256));
    bool same = r.chance(0.5); int px = r.below(maxpx + 1);
    for (int i = 0; i < nrec; ++i) { Rec c; c.fortran = r.chance(0.7) ? 1 : val(r); c.hlen = r.chance(0.7) ? 8 : val(r); c.reclen = val(r); c.zero = r.chance(0.7) ? 0 : val(r); int n = r.below(maxlines + 1); for (int k = 0; k < n; ++k) c.lines.push_back(line(r, same ? px : r.below(maxpx + 1))); m.recs.push_back(c); }
    return m;
}
inline std::vector<int> hvals(const FileHeader& f) { return { f.no_records(), f.year(), f.julian_day(), f.hour(), f.minute(), f.process_year(), f.process_julian_day(), f.process_hour(), f.process_minute(), f.no_channels(), f.vis_id(), f.wv_id(), f.ir_id(), f.satellite_id(), f.record_length(), f.no_vis_average(), f.no_wv_average(), f.no_ir_average(), f.averaging_type(), f.sample_interval(), f.ir_calibration(), f.wv_calibration(), f.fine_adjustment(), f.ir_space_count(), f.wv_space_count() }; }
inline bool same_line(const ScanLine& s, const Line& l) { const LineHeader& h = s.lineheader(); return h.length() == l.length && h.line() == l.line && h.start() == l.start && h.no_pixels() == (int)l.px.size() && h.channel_id() == l.channel && h.quality() == l.quality && h.pad()[0] == l.pad[0] && h.pad()[1] == l.pad[1] && std::string(s.linepixel().begin(), s.linepixel().end()) == l.px; }
// the first difference, or nothing
inline std::string diff(const OpenMTP_IDS& o, const Img& m) {
    const FileHeader& f = o.fileheader(); auto v = hvals(f); for (int i = 0; i < 25; ++i) if (v[i] != m.h[i]) return fmt("%s is %d, not %d", HN[i], v[i], m.h[i]);
    if (memcmp(f.satellite(), m.sat.data(), 8)) return "the satellite's name"; if (((unsigned char)f.fortran()[0] << 8 | (unsigned char)f.fortran()[1]) != m.fortran) return "the header's record mark";
    if (o.record().size() != m.recs.size()) return fmt("%zu records, not %zu", o.record().size(), m.recs.size());
    for (size_t i = 0; i < m.recs.size(); ++i) { const Record& r = o.record()[i]; const Rec& e = m.recs[i]; const RecordHeader& h = r.recordheader(); if (((unsigned char)h.fortran()[0] << 8 | (unsigned char)h.fortran()[1]) != e.fortran || h.record_header_length() != e.hlen || h.no_scanlines() != (int)e.lines.size() || h.record_length() != e.reclen || h.zero() != e.zero) return fmt("header of record %zu", i); if (r.scanline().size() != e.lines.size()) return fmt("%zu lines in record %zu, not %zu", r.scanline().size(), i, e.lines.size()); for (size_t k = 0; k < e.lines.size(); ++k) if (!same_line(r.scanline()[k], e.lines[k]) || !same_line(r[k], e.lines[k])) return fmt("line %zu of record %zu", k, i); }
    return "";
}
// the same image made through the setters
inline OpenMTP_IDS make(const Img& m) {
    OpenMTP_IDS o; FileHeader f; const auto& h = m.h; f.no_records(h[0]); f.year(h[1]); f.julian_day(h[2]); f.hour(h[3]); f.minute(h[4]); f.process_year(h[5]); f.process_julian_day(h[6]); f.process_hour(h[7]); f.process_minute(h[8]); f.no_channels(h[9]); f.vis_id(h[10]); f.wv_id(h[11]); f.ir_id(h[12]); f.satellite_id(h[13]); f.record_length(h[14]); f.no_vis_average(h[15]); f.no_wv_average(h[16]); f.no_ir_average(h[17]); f.averaging_type(h[18]); f.sample_interval(h[19]); f.ir_calibration(h[20]); f.wv_calibration(h[21]); f.fine_adjustment(h[22]); f.ir_space_count(h[23]); f.wv_space_count(h[24]);
    f.satellite(m.sat.c_str()); o.fileheader(f); std::vector<Record> rs;
    for (auto& e : m.recs) { Record r; RecordHeader rh; rh.record_header_length(e.hlen); rh.no_scanlines(e.lines.size()); rh.record_length(e.reclen); rh.zero(e.zero); r.recordheader(rh); std::vector<ScanLine> ls; for (auto& l : e.lines) { ScanLine s; LineHeader lh; lh.length(l.length); lh.line(l.line); lh.start(l.start); lh.no_pixels(l.px.size()); lh.channel_id(l.channel); lh.quality(l.quality); lh.pad(l.pad); s.lineheader(lh); s.linepixel(std::vector<unsigned char>(l.px.begin(), l.px.end())); ls.push_back(s); } r.scanline(ls); rs.push_back(r); }
    o.record(rs); return o;
}
// what OpenMTP-IDS_to_pgm is to write
inline const char* pgm_name(int id) { switch (id) { case 4: case 5: return "ir.pgm"; case 6: case 7: return "wv.pgm"; case 1: case 2: case 3: case 8: case 9: case 10: case 11: case 12: return "vis.pgm"; default: return "unknown-channel.pgm"; } }
inline std::map<std::string, std::string> pgms(const Img& m) {
    std::map<std::string, std::string> res; for (int id : { m.h[10], m.h[12], m.h[11] }) { if (!id) continue; std::string data; size_t n = 0, w = 0; bool ok = true; for (auto& r : m.recs) for (auto& l : r.lines) if (l.channel == id) { if (!n) w = l.px.size(); if (l.px.size() != w) ok = false; data += l.px; ++n; } if (ok && n && w) res[pgm_name(id)] = fmt("%zu %zu ", w, n) + data; } return res;
}
// size and samples of a P5 file whose comments may be anywhere in its header
inline std::string pgm(const std::string& b) {
    size_t p = 0; std::vector<std::string> t; while (t.size() < 4 && p < b.size()) { if (isspace((unsigned char)b[p])) { ++p; continue; } if (b[p] == '#') { while (p < b.size() && b[p] != '\n') ++p; continue; } size_t a = p; while (p < b.size() && !isspace((unsigned char)b[p])) ++p; t.push_back(b.substr(a, p - a)); } if (t.size() < 4 || t[0] != "P5" || t[3] != "255" || p >= b.size()) return "not a P5 file"; return t[1] + " " + t[2] + " " + b.substr(p + 1);
}
}
