// Files in the native archive format, built byte by byte from the format
// description, together with what reading them must give.
#pragma once
#include "level15.h"
#include <msat/msg-native/MSG_native.h>
#include <map>

namespace l15 {
// The IMPF configuration record, which only native files carry
inline size_t lay(Lay& L, MSG_data_IMPFConfiguration& x) {
    auto ver = [&](MSG_GPConfigItemVersion& v) { L.un(2, "Issue", &v.Issue, "Issue"); L.un(2, "Revision", &v.Revision, "Revision"); };
    auto r8s = [&](const char* f, double* v, int n, int per) { for (int j = 0; j < n; j += per) { std::string t; for (int k = 0; k < per; ++k) { std::string one; L.r8(f, v + j + k, nullptr, "", &one); t += one + " "; } L.row(t); } };
    ver(x.GPConfigItemVersion);
    static const Names INST = { "SW Instance M&C", "Accept Data Seviri", "Accept Data HKTM", "Accept Data GERB", "Accept Data FTP Server", "Rcal/Gcal", "RQA", "GQA", "Requantize/Resample Visible Channel 0.6", "Requantize/Resample Visible Channel 0.8", "Requantize/Resample Infrared Channel 1.6", "Requantize/Resample Infrared Channel 3.8", "Requantize/Resample Water Vapour Channel 6.2", "Requantize/Resample Water Vapour Channel 7.3", "Requantize/Resample Infrared Channel 8.7", "Requantize/Resample Infrared Channel 9.7", "Requantize/Resample Infrared Channel 10.8", "Requantize/Resample Infrared Channel 12.0", "Requantize/Resample Infrared Channel 13.4", "Requantize/Resample HRV Channel", "Produce Quicklook Data", "Send Seviri Data LPT0", "Send Seviri Data LPT5", "Send Data HKTM", "Send Data Raw GERB", "Send Data Validated GERB", "Send Data Generated FD", "Send Data FTP Client PUT", "Object Store Server" };
    for (int i = 0; i < 50; ++i) { auto& s = x.SuDetails[i]; L.idx = i;
        if (L.g) L.putn(L.g->chance(0.3) ? L.g->u64() : L.g->chance(0.1) ? 0 : L.g->range(9990, 101010), 4); else { uint32_t v = L.uint(4); L.same("SoftwareUnitId", (int64_t)(uint32_t)s.SoftwareUnitId, (int64_t)v); static const char* N[] = { "BRGS", "CF", "DADF", "IMPF", "MARF", "MPEF", "PGS", "SSF", "SIU" };
            L.line("Software Unit ID", fmt("%u (%s)", v, v == 0 ? "No particular SU" : v >= 10000 && v < 100000 ? N[v / 10000 - 1] : v >= 100000 && v < 101000 ? "LEOP_CC" : "Unknown")); } L.o += 4;
        L.en(1, "SUIdInstance", &s.SUIdInstance, "Software Unit Inst.", 1, INST); L.en(1, "SUMode", &s.SUMode, "Software Unit Mode", 0, { "Off", "Non Processing", "On - Real Time Processing", "On - Analysis Mode" }); L.en(1, "SUState", &s.SUState, "Software Unit State", 0, { "Error", "Nominal", "Degraded" });
        ver(s.SUConfiguration.SWVersion); for (auto& v : s.SUConfiguration.InfoBaseVersion) ver(v); }
    auto& w = x.WarmStartParms; r8s("ScanningLaw", w.ScanningLaw, 1527, 3); r8s("RadFramesAlignment", w.RadFramesAlignment, 3, 3);
    { std::string t; for (int k = 0; k < 2; ++k) L.r4("ScanningLawVariation", &w.ScanningLawVariation[k], nullptr, &t); L.row(t); }
    for (int i = 0; i < 42; ++i) { auto& s = w.EqualisationParms[i]; L.idx = i; L.r4("ConstCoef", &s.ConstCoef, "Constant Coefficient"); L.r4("LinearCoef", &s.LinearCoef, "Linear Coefficient"); L.r4("QuadraticCoef", &s.QuadraticCoef, "Quadratic Coeff."); }
    auto& b = w.BlackBodyDataWarmStart; L.idx = 0;
    r8s("GTotalForMethod1", b.GTotalForMethod1, 12, 4); r8s("GTotalForMethod2", b.GTotalForMethod2, 12, 4); r8s("GTotalForMethod3", b.GTotalForMethod3, 12, 4); r8s("GBackForMethod1", b.GBackForMethod1, 12, 4); r8s("GBackForMethod2", b.GBackForMethod2, 12, 4); r8s("GBackForMethod3", b.GBackForMethod3, 12, 4); r8s("RatioGTotalToGBack", b.RatioGTotalToGBack, 12, 4); r8s("GainInFrontOpticsCont", b.GainInFrontOpticsCont, 12, 4);
    rows4(L, "CalibrationConstants", b.CalibrationConstants, 12); L.r8("TimeOfColdObsSeconds", &b.TimeOfColdObsSeconds, "Time Cold Obs Secs"); L.r8("TimeOfColdObsNanoSecs", &b.TimeOfColdObsNanoSecs, "Time Cold Obs NanoS."); r8s("IncidentRadiance", b.IncidentRadiance, 12, 4);
    L.r8("TempCal", &b.TempCal, "Temp. BB cold read."); L.r8("TempM1", &b.TempM1, "Temp. M1 cold read."); L.r8("TempScan", &b.TempScan, "Temp. SC cold read."); L.r8("TempM1Baf", &b.TempM1Baf, "Temp. BF cold read."); L.r8("TempCalSurround", &b.TempCalSurround, "Temp. Surround");
    L.r8("MaxFeedbackVoltage", &b.MirrorParameters.MaxFeedbackVoltage, "Max Feedback Voltage"); L.r8("MinFeedbackVoltage", &b.MirrorParameters.MinFeedbackVoltage, "Min Feedback Voltage"); L.r8("MirrorSlipEstimate", &b.MirrorParameters.MirrorSlipEstimate, "Mirror Slip Estimate"); L.r8("LastSpinPeriod", &b.LastSpinPeriod, "Last Spin Period");
    auto& h = b.HKTMParameters; MSG_time_cds_short* t[12] = { &h.TimeS0Packet, &h.TimeS1Packet, &h.TimeS2Packet, &h.TimeS3Packet, &h.TimeS4Packet, &h.TimeS5Packet, &h.TimeS6Packet, &h.TimeS7Packet, &h.TimeS8Packet, &h.TimeS9Packet, &h.TimeSYPacket, &h.TimePSPacket };
    for (int i = 0; i < 12; ++i) { L.idx = i; std::string n = fmt("Time %c%c Packet", i == 11 ? 'P' : 'S', i < 10 ? '0' + i : i == 10 ? 'Y' : 'S'); L.cds(6, "HKTM time", t[i], n.c_str()); }
    L.skip(3408); return 19786;
}
}

namespace nf {
using namespace vf; using namespace l15;
struct Line { std::string packet, head; std::vector<uint16_t> samples; };     // 38 and 27 bytes
struct File {
    std::string mph[48];                  // the texts as they must be read
    std::string umarf, hpkt, hdr, tpkt, trl; bool sel[12]; int nlines = 0, ncols = 0, hlines = 0, hcols = 0; std::vector<Line> line[12];
    std::string bytes; size_t datapos = 0, trailerpos = 0; std::vector<size_t> packets;      // where the line packets start
    int lines(int c) const { return c == 11 ? hlines : nlines; } int cols(int c) const { return c == 11 ? hcols : ncols; }
};
static const int HDR = 445248, TRL = 380325, MPH = 5114;
inline std::string section(Rng& r, bool hdr, double pz) {
    std::string b(1, (char)r.below(4));
    if (hdr) b += generate<MSG_data_SatelliteStatus>(r, "SatelliteStatus", 60134, pz) + generate<MSG_data_ImageAcquisition>(r, "ImageAcquisition", 700, pz) + generate<MSG_data_CelestialEvents>(r, "CelestialEvents", 326058, pz) + generate<MSG_data_ImageDescription>(r, "ImageDescription", 101, pz) + generate<MSG_data_RadiometricProc>(r, "RadiometricProc", 20815, pz) + generate<MSG_data_GeometricProc>(r, "GeometricProc", 17653, pz) + generate<MSG_data_IMPFConfiguration>(r, "IMPFConfiguration", 19786, pz);
    else b += generate<MSG_data_ImageProdStats>(r, "ImageProdStats", 340, 0) + generate<MSG_data_NavigExtrResult>(r, "NavigExtrResult", 5680, 0) + generate<MSG_data_RadiometricQuality>(r, "RadiometricQuality", 371256, 0) + generate<MSG_data_GeometricQuality>(r, "GeometricQuality", 2916, 0) + generate<MSG_data_TimelinComple>(r, "TimelinComple", 132, 0);
    if ((int)b.size() != (hdr ? HDR : TRL)) _exit(96); return b;
}
inline std::string packet(Rng& r, uint32_t len) { std::string p(38, 0); for (auto& c : p) c = (char)r.below(256); put_be(p, 18, len + 15, 4); put_be(p, 30, r.below(30000), 2); put_be(p, 32, r.below(86400000), 4); return p; }
inline std::string pack10(const std::vector<uint16_t>& s) {       // bit by bit
    std::string b((s.size() * 10 + 7) / 8, 0); for (size_t i = 0; i < s.size(); ++i) for (int k = 0; k < 10; ++k) if (s[i] >> (9 - k) & 1) { size_t bit = i * 10 + k; b[bit / 8] |= (char)(0x80 >> (bit % 8)); } return b;
}
// text of a record: padded to its size in one of the ways in use
inline std::string field(const std::string& s, size_t n, int style) {
    std::string f = s; if (style == 0) { f.resize(n - 1, ' '); f += '\n'; } else if (style == 1) { f += '\n'; f.resize(n, 0); } else if (style == 2) f.resize(n, ' '); else f.resize(n, 0); f.resize(n); return f;
}
inline void umarf(Rng& r, File& f) {
    static const char* N[48] = { "FormatName", "FormatDocumentName", "FormatDocumentMajorVersion", "FormatDocumentMinorVersion", "CreationDateTime", "CreatingCentre", "UMarfHeader", "SecondaryProductHeader", "15Header", "15Data", "15Trailer", "SSBT", "ORIT", "EQUK", "GORT", "SSST", "RCC1", "RCC2", "SUCT", "SNIT", "SEVT", "PPDT", "GQA", "APNM", "SNIT2", "AVPA", "SSVM", "RRCC", "RRBT", "RRST", "PPST", "ASTI", "LLOV", "RSLT", "URCC", "NANM", "QQOV", "ANNT", "UURQ", "SelectedBandIDs", "SouthLineSelectedRectangle", "NorthLineSelectedRectangle", "EastColumnSelectedRectangle", "WestColumnSelectedRectangle", "NumberLinesVISIR", "NumberColumnsVISIR", "NumberLinesHRV", "NumberColumnsHRV" };
    std::string h(MPH, 0); if (r.chance(0.5)) for (auto& c : h) c = (char)(r.chance(0.5) ? ' ' : r.below(256));
    for (int i = 0; i < 48; ++i) {
        int st = r.below(4); std::string name = N[i]; if ((i < 39 && i > 10) || i < 6) if (r.chance(0.1)) name = fmt("Name%d", (int)r.below(1000)); name.resize(28, ' '); name += ": "; std::string v;
        if (i >= 6 && i <= 10) {
            long size = i == 8 ? HDR + 38 : i == 9 ? (long)r.below(1000000000) : i == 10 ? TRL + 38 : r.below(100000), addr = i == 8 ? MPH : i == 9 ? f.datapos : i == 10 ? f.trailerpos : r.below(100000);
            if (r.chance(0.3)) size = r.below(2000000000);     // sizes are information only
            std::string a = field(fmt(st == 3 ? "%ld " : r.chance(0.5) ? "%ld" : "%015ld", size), 16, st), b = field(fmt(r.chance(0.7) ? "%ld" : "%012ld", addr), 16, r.below(4)); size_t o = 480 + 62 * (i - 6);
            std::string rec = name + a; h.replace(o, 46, rec); h.replace(o + 46, 16, b); f.mph[i] = std::string(rec.c_str()).substr(0, 46) + std::string(b.c_str()).substr(0, 16); continue;
        }
        switch (i) { case 39: for (bool s : f.sel) v += s ? 'X' : '-'; break; case 40: v = "1"; break; case 41: v = fmt("%d", f.nlines); break; case 42: v = "1"; break; case 43: v = fmt("%d", f.ncols); break; case 44: v = fmt("%d", f.nlines); break; case 45: v = fmt("%d", f.ncols); break; case 46: v = fmt("%d", f.hlines); break; case 47: v = fmt("%d", f.hcols); break;
            default: for (int n = r.below(st < 2 ? 49 : 50); n-- > 0;) v += (char)r.range(33, 126); }
        std::string rec = name + field(v, 50, st); size_t o = i < 6 ? 80 * i : 2154 + 80 * (i - 11); h.replace(o, 80, rec); f.mph[i] = std::string(rec.c_str());
    }
    f.umarf = h;
}
inline void assemble(Rng& r, File& f) {
    std::string data; f.packets.clear(); std::vector<size_t> at;
    for (int l = 0; l < f.nlines; ++l) for (int c = 0; c < 12; ++c) if (f.sel[c]) for (int k = 0; k < (c == 11 ? 3 : 1); ++k) { const Line& q = f.line[c][c == 11 ? l * 3 + k : l]; at.push_back(data.size()); data += q.packet + q.head + pack10(q.samples); }
    size_t g1 = r.chance(0.2) ? r.below(200) : 0, g2 = r.chance(0.2) ? r.below(200) : 0; bool before = r.chance(0.1); size_t start = MPH + 38 + HDR + g1;
    if (before) { f.trailerpos = start; f.datapos = start + 38 + TRL + g2; } else { f.datapos = start; f.trailerpos = start + data.size() + g2; }
    umarf(r, f); std::string b = f.umarf + f.hpkt + f.hdr; b.resize(start, (char)r.below(256));
    if (before) { b += f.tpkt + f.trl; b.resize(f.datapos, 'g'); b += data; } else { b += data; b.resize(f.trailerpos, 'g'); b += f.tpkt + f.trl; }
    for (size_t a : at) f.packets.push_back(f.datapos + a); f.bytes = b;
}
inline void sections(Rng& r, File& f, double pz) { f.hdr = section(r, true, pz); f.trl = section(r, false, pz); f.hpkt = packet(r, HDR); f.tpkt = packet(r, TRL); }
// an image of the given size over given or random bands
inline void image(Rng& r, File& f, int nlines, int ncols, int hcols) {
    f.nlines = nlines; f.ncols = ncols; f.hlines = nlines * 3; f.hcols = hcols; double ps = r.pick(std::vector<double>{ 0.1, 0.5, 1 }); for (int c = 0; c < 12; ++c) f.sel[c] = r.chance(ps); if (r.chance(0.97)) f.sel[r.below(12)] = true;
    for (int c = 0; c < 12; ++c) { f.line[c].clear(); if (!f.sel[c]) continue;
        for (int l = 0; l < f.lines(c); ++l) { Line q; int kind = r.below(4); for (int x = 0; x < f.cols(c); ++x) q.samples.push_back(kind == 0 ? (x & 1 ? 0x3ff : 0) : kind == 1 ? 1 << r.below(10) : kind == 2 ? x * 4 + l & 0x3ff : r.below(1024));
            q.packet = packet(r, 27 + (q.samples.size() * 10 + 7) / 8); q.head.assign(27, 0); for (auto& b : q.head) b = (char)r.below(256); put_be(q.head, 1, 321 + r.below(4), 2); put_be(q.head, 3, r.below(30000), 2); put_be(q.head, 5, r.below(86400000), 4); put_be(q.head, 9, r.below(1000), 2); put_be(q.head, 11, r.below(1000), 2); put_be(q.head, 13, r.chance(0.8) ? l + 1 : r.u64(), 4); q.head[17] = c + 1; put_be(q.head, 18, r.below(30000), 2); put_be(q.head, 20, r.below(86400000), 4); for (int k = 24; k < 27; ++k) q.head[k] = (char)r.below(r.chance(0.9) ? 5 : 256); f.line[c].push_back(q); } }
    assemble(r, f);
}
// A packet header and a line header against their bytes
inline void same_packet(IMPF_Packet_Header& h, const std::string& b, const char* what) {
    auto& g = h.gp_packet_header; auto& s = h.gp_packet_subheader; auto u = [&](int o, int n) { return (int64_t)get_be(b, o, n); };
    int64_t got[] = { g.HeaderVersionNo, g.PacketType, g.SubHeaderType, g.SourceFacilityId, g.SourceEnvId, g.SourceInstanceId, (int64_t)(uint32_t)g.SourceSUId, (unsigned char)g.SourceCPUId[0], (unsigned char)g.SourceCPUId[1], (unsigned char)g.SourceCPUId[2], (unsigned char)g.SourceCPUId[3], g.DestFacilityId, g.DestEnvId, (uint16_t)g.SequenceCount, (int64_t)(uint32_t)g.PacketLength, s.SubHeaderVersionNo, s.ChecksumFlag, (unsigned char)s.Acknowledgement[0], (unsigned char)s.Acknowledgement[1], (unsigned char)s.Acknowledgement[2], (unsigned char)s.Acknowledgement[3], s.ServiceType, s.ServiceSubtype, s.PacketTime.get_day_from_epoch(), s.PacketTime.get_msec_in_day(), (uint16_t)s.SpacecraftId };
    int64_t want[] = { u(0, 1), u(1, 1), u(2, 1), u(3, 1), u(4, 1), u(5, 1), u(6, 4), u(10, 1), u(11, 1), u(12, 1), u(13, 1), u(14, 1), u(15, 1), u(16, 2), u(18, 4), u(22, 1), u(23, 1), u(24, 1), u(25, 1), u(26, 1), u(27, 1), u(28, 1), u(29, 1), u(30, 2), u(32, 4), u(36, 2) };
    static const char* N[] = { "HeaderVersionNo", "PacketType", "SubHeaderType", "SourceFacilityId", "SourceEnvId", "SourceInstanceId", "SourceSUId", "SourceCPUId0", "SourceCPUId1", "SourceCPUId2", "SourceCPUId3", "DestFacilityId", "DestEnvId", "SequenceCount", "PacketLength", "SubHeaderVersionNo", "ChecksumFlag", "Ack0", "Ack1", "Ack2", "Ack3", "ServiceType", "ServiceSubtype", "PacketTime.day", "PacketTime.ms", "SpacecraftId" };
    for (int i = 0; i < 26; ++i) VEXPECT((got[i] & (want[i] > 255 || i == 6 || i == 13 || i == 14 || i > 22 ? ~0LL : 255)) == want[i], fmt("packet.%s", N[i]), "%s: %s %lld, stored %lld", what, N[i], (long long)got[i], (long long)want[i]);
}
inline void same_line(MSG_native_line& l, const Line& q, const std::string& what) {
    same_packet(l.pkh, q.packet, what.c_str()); auto& h = l.header; auto u = [&](int o, int n) { return (int64_t)get_be(q.head, o, n); };
    auto tm = [&](int o, int n) { uint32_t ms = u(o + 2, 4); return date_of(((int64_t)civil_days(1958, 1, 1) + u(o, 2)) * 86400 + ms / 1000) + fmt(" +%03u", ms % 1000) + (n == 6 ? "" : fmt(".%03d%03d", (int)u(o + 6, 2), (int)u(o + 8, 2))) + " msecs"; };
    VEXPECT(h.LINE1_5Version == u(0, 1) && h.SatelliteId == u(1, 2) && (int64_t)h.LineNumberInGrid == u(13, 4) && h.ChannelId == u(17, 1) && h.LineValidity.value == u(24, 1) && h.LineRadiometricQuality.value == u(25, 1) && h.LineGeometricQuality.value == u(26, 1), "line-header", "%s: version %d satellite %d line %lu channel %d validity %d quality %d %d", what.c_str(), h.LINE1_5Version, h.SatelliteId, h.LineNumberInGrid, h.ChannelId, h.LineValidity.value, h.LineRadiometricQuality.value, h.LineGeometricQuality.value);
    VEXPECT(h.TrueRepeatCycleStart.get_timestring() == tm(3, 10), "line-time", "%s: %s, stored %s", what.c_str(), h.TrueRepeatCycleStart.get_timestring().c_str(), tm(3, 10).c_str());
    VEXPECT(h.L10LineMeanAcquisitionTime.get_timestring() == tm(18, 6), "line-time", "%s: %s, stored %s", what.c_str(), h.L10LineMeanAcquisitionTime.get_timestring().c_str(), tm(18, 6).c_str());
    unsigned short* s = nullptr; long n = -1; l.data.to_sample(&s, &n); bool ok = n == (long)q.samples.size(); size_t i = 0; if (ok) for (; i < q.samples.size(); ++i) if (s[i] != q.samples[i]) { ok = false; break; }
    VEXPECT(ok, "line-samples", "%s: %ld samples for %zu, sample %zu is %d, stored %d", what.c_str(), n, q.samples.size(), i, n > (long)i ? s[i] : -1, i < q.samples.size() ? q.samples[i] : -1); evals(q.samples.size()); delete[] s;
}
inline std::string text_of_line(const Line& q) {      // the dump of a line, past its packet header
    static const char* V[] = { "Not Derived.", "Nominal.", "Based on missing data.", "Based on corrupted data.", "Based on replaced or interpolated data." }, *Q[] = { "Not Derived.", "Nominal.", "Usable.", "Suspect.", "Do not use." }; auto nm = [](const char** n, unsigned v) { return v < 5 ? n[v] : "Unknown."; };
    std::string t = fmt("LINE1_5Version: %u|SatelliteId: %u|LineNumberInGrid: %u|ChannelId: %u|", (unsigned char)q.head[0], (unsigned)get_be(q.head, 1, 2), (unsigned)get_be(q.head, 13, 4), (unsigned char)q.head[17]) + "LineValidity: " + nm(V, (unsigned char)q.head[24]) + "|LineRadiometricQuality: " + nm(Q, (unsigned char)q.head[25]) + "|LineGeometricQuality: " + nm(Q, (unsigned char)q.head[26]) + "|"; return t;
}
}
