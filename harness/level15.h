// The level 1.5 header (prologue) and trailer (epilogue) as the image format
// document lays them out: one walk over the fields that either fills a record
// with values of the right kind or compares a decoded object with a record.
// It also builds the lines a textual dump must hold.
#pragma once
#include "synth.h"
#include <sstream>
#include <memory>
#include <algorithm>
#include <msat/hrit/MSG_HRIT.h>

namespace l15 {
using namespace vf; using xs::civil_days; using xs::civil_from;

inline std::string date_of(int64_t sec) {
    long d = sec / 86400; long t = sec % 86400; if (t < 0) { t += 86400; --d; }
    int y, mo, dd; civil_from(d, y, mo, dd); return fmt("%04d-%02d-%02d %02ld:%02ld:%02ld", y, mo, dd, t / 3600, t / 60 % 60, t % 60);
}
inline std::string norm(const std::string& s) {
    std::string r; bool sp = false;
    for (char c : s) { if (c == ' ' || c == '\t') { sp = !r.empty(); continue; } if (sp && c != ':') r += ' '; sp = false; r += c; }
    return r;
}
typedef std::vector<const char*> Names;

struct Lay {
    std::string& b; size_t o; Rng* g; std::string sec; bool pr = true; long key = 0; uint64_t nbad = 0; int idx = 0; double pzero = 0.1; bool raw = false;
    struct Line { long key; std::string label, text; };
    std::vector<Line> lines;
    Lay(std::string& buf, size_t off, Rng* gen, const std::string& section) : b(buf), o(off), g(gen), sec(section) {}
    std::string where(const char* f) { return sec + "." + f; }
    void bad(const char* f, const std::string& m) { viol(where(f), m + fmt(" (index %d, byte %zu)", idx, o)); }
    template<class A, class B> void same(const char* f, const A& got, const B& want) { evals(1); if (!((double)got == (double)want || (got != got && want != want))) bad(f, fmt("decoded %.17g, stored %.17g", (double)got, (double)want)); }
    template<class T> static std::string str(const T& v) { std::ostringstream s; s << v; return s.str(); }
    void line(const char* label, const std::string& val) { if (label && pr && !g) { std::string l = norm(std::string(label) + ": " + val); lines.push_back({ key, norm(std::string(label)), l }); } }
    void row(const std::string& l) { if (pr && !g) lines.push_back({ key, "", norm(l) }); }
    void tag(const std::string& label, const std::string& l) { if (pr && !g) lines.push_back({ key, label, norm(l) }); }

    uint64_t uint(int n) { return get_be(b, o, n); }
    void putn(uint64_t v, int n) { put_be(b, o, v, n); }
    // unsigned and signed integers
    template<class T> void un(int n, const char* f, const T* m, const char* label = nullptr) {
        if (g) putn(g->chance(0.15) ? 0 : g->chance(0.1) ? ~0ULL : g->u64(), n);
        else { uint64_t v = uint(n); if (m) same(f, (int64_t)*m, (int64_t)v); line(label, str(v)); }
        o += n;
    }
    template<class T> void i4(const char* f, const T* m, const char* label = nullptr) {
        if (g) putn(g->chance(0.5) ? g->below(12000) : g->u64(), 4); else { int32_t v = (int32_t)uint(4); if (m) same(f, (int64_t)*m, (int64_t)v); line(label, str(v)); }
        o += 4;
    }
    template<class T> void flag(const char* f, const T* m, const char* label = nullptr) {
        if (g) putn(g->below(2), 1); else { unsigned v = uint(1); if (m) same(f, (int)*m, (int)v); line(label, str(v)); }
        o += 1;
    }
    // an enumeration: first value, names from there on
    template<class T> void en(int n, const char* f, const T* m, const char* label, int first, const Names& names) {
        if (g) putn(g->chance(0.93) ? first + g->below(names.size()) : g->below(256), n);
        else { int v = uint(n); if (m) same(f, (int)*m, v); line(label, v >= first && v < first + (int)names.size() ? names[v - first] : "Unknown"); }
        o += n;
    }
    void skip(int n) { if (g) for (int i = 0; i < n; ++i) b[o + i] = (char)g->below(256); o += n; }
    double real() { // finite values of every size, and the special ones
        switch (g->below(14)) { case 0: return 0; case 1: return -0.0; case 2: return g->real(-1e30, 1e30); case 3: return g->real(-1e-30, 1e-30); case 4: return 1; case 5: return -g->below(100000); default: return g->real(-1, 1) * std::pow(10, g->range(-6, 7)); }
    }
    template<class T> void r4(const char* f, const T* m, const char* label = nullptr, std::string* text = nullptr) {
        if (g) put_r4(b, o, real());
        else { uint32_t u = uint(4); float v; memcpy(&v, &u, 4); if (m) { evals(1); float q = *m; if (memcmp(&q, &v, 4)) bad(f, fmt("decoded %.9g, stored %.9g", q, v)); } line(label, str(v)); if (text) *text += str(v) + " "; }
        o += 4;
    }
    template<class T> void r8(const char* f, const T* m, const char* label = nullptr, const char* unit = "", std::string* text = nullptr) {
        if (g) put_r8(b, o, real());
        else { uint64_t u = uint(8); double v; memcpy(&v, &u, 8); if (m) { evals(1); double q = *m; if (memcmp(&q, &v, 8)) bad(f, fmt("decoded %.17g, stored %.17g", q, v)); } line(label, str(v) + unit); if (text) *text = str(v); }
        o += 8;
    }
    // times: 6, 8 or 10 bytes
    template<class T> void cds(int n, const char* f, T* m, const char* label = nullptr, double pz = 0.02) {
        if (g) {
            putn(g->chance(pz) ? 0 : 1 + g->below(65535), 2); put_be(b, o + 2, g->below(86400000), 4);
            if (n > 6) put_be(b, o + 6, g->below(1000), 2);
            if (n > 8) put_be(b, o + 8, g->below(1000), 2);
        } else {
            unsigned day = uint(2); uint32_t ms = get_be(b, o + 2, 4); unsigned us = n > 6 ? get_be(b, o + 6, 2) : 0, ns = n > 8 ? get_be(b, o + 8, 2) : 0;
            std::string t = date_of(((int64_t)civil_days(1958, 1, 1) + day) * 86400 + ms / 1000) + fmt(" +%03u", ms % 1000) + (n == 6 ? "" : n == 8 ? fmt(".%03u", us) : fmt(".%03u%03u", us, ns)) + " msecs";
            if (m) { evals(1); if (m->get_day_from_epoch() != day || m->get_msec_in_day() != ms) bad(f, fmt("decoded day %u ms %u, stored %u %u", m->get_day_from_epoch(), m->get_msec_in_day(), day, ms));
                if (m->get_timestring() != t) bad(f, fmt("decoded '%s', stored '%s'", m->get_timestring().c_str(), t.c_str())); }
            line(label, t);
        }
        o += n;
    }
    std::string cuctext(double& v) { v = 0; std::string s; for (int i = 0; i < 7; ++i) { unsigned c = (unsigned char)b[o + i]; v += c * std::pow(2.0, 8 * (3 - i)); s += fmt("%03u ", c); } return s; }
};

#define U1(m, ...) L.un(1, #m, &s.m, ##__VA_ARGS__)
#define U2(m, ...) L.un(2, #m, &s.m, ##__VA_ARGS__)
#define U4(m, ...) L.un(4, #m, &s.m, ##__VA_ARGS__)
#define I4(m, ...) L.i4(#m, &s.m, ##__VA_ARGS__)
#define FL(m, ...) L.flag(#m, &s.m, ##__VA_ARGS__)
#define R4(m, ...) L.r4(#m, &s.m, ##__VA_ARGS__)
#define R8(m, ...) L.r8(#m, &s.m, ##__VA_ARGS__)
#define T6(m, ...) L.cds(6, #m, &s.m, ##__VA_ARGS__)
#define T8(m, ...) L.cds(8, #m, &s.m, ##__VA_ARGS__)
#define T10(m, ...) L.cds(10, #m, &s.m, ##__VA_ARGS__)
#define FOR(n) for (L.idx = 0; L.idx < (n); ++L.idx)
#define IX fmt("%02d", L.idx + 1)
#define LB(text) (fmt text).c_str()

template<class T> inline void rows4(Lay& L, const char* f, T* v, int n) {      // n reals, printed four to a line
    for (int j = 0; j < n; j += 4) { std::string t; for (int k = 0; k < 4; ++k) L.r4(f, v ? v + j + k : v, nullptr, &t); L.row(t); }
}
static const Names ONOFF = { "Off", "On" }, DEEP = { "No Delay", "Predefined Delay 1", "Predefined Delay 2", "Predefined delay 3" };

inline size_t lay(Lay& L, MSG_data_SatelliteStatus& x) {
    { auto& s = x.SatelliteDefinition;
        if (L.g) L.putn(321 + L.g->below(4), 2); else { L.same("SatelliteId", (int)s.SatelliteId, (int)L.uint(2)); L.line("Satellite", fmt("%d (MSG%d)", (int)L.uint(2), (int)L.uint(2) - 320)); } L.o += 2;
        R4(NominalLongitude, "Nominal Longitude");
        L.en(1, "SatelliteStatus", &s.SatelliteStatus, "Satellite Status", 1, { "Operational", "Standby", "Commissioning or test", "Manouvre", "Decontamination", "Safe Mode", "Dissemination Only" }); }
    static const Names MAN = { "Spin Up", "Spin Down", "Attitude Slew", "N/S Station Keeping", "E/W Station Keeping", "Station Relocation" };
    { auto& s = x.SatelliteOperations; size_t f = L.o;
        L.pr = L.g || L.b[f]; FL(LastManoeuvreFlag, "Last Man. Flag"); T6(LastManouvreStartTime, "Last Man. Start"); T6(LastManouvreEndTime, "Last Man. End"); L.en(1, "LastManouvreType", &s.LastManouvreType, "Last Man. Type", 0, MAN);
        f = L.o; L.pr = L.g || L.b[f]; FL(NextManoeuvreFlag, "Next Man. Flag"); T6(NextManouvreStartTime, "Next Man. Start"); T6(NextManouvreEndTime, "Next Man. End"); L.en(1, "NextManouvreType", &s.NextManouvreType, "Next Man. Type", 0, MAN); L.pr = true; }
    { auto& s = x.Orbit; T6(PeriodStartTime, "Period Start Time"); T6(PeriodEndTime, "Period End Time"); }
    for (int i = 0; i < 100; ++i) { auto& s = x.Orbit.OrbitPoliniomal[i]; L.idx = i; L.pr = L.g || L.uint(2); bool p = L.pr;
        T6(StartTime, "Start Time", L.pzero); T6(EndTime, "End Time");
        if (!L.g) { evals(1); if (s.is_present() != p) L.bad("orbit.is_present", "wrong presence"); }
        std::string t[6][8]; double (*a[6])[8] = { &s.X, &s.Y, &s.Z, &s.VX, &s.VY, &s.VZ }; static const char* n[6] = { "Orbit.X", "Orbit.Y", "Orbit.Z", "Orbit.VX", "Orbit.VY", "Orbit.VZ" };
        for (int k = 0; k < 6; ++k) for (int j = 0; j < 8; ++j) L.r8(n[k], &(*a[k])[j], nullptr, "", &t[k][j]);
        for (int j = 0; j < 8; ++j) L.tag("X", "X : " + t[0][j] + " Y : " + t[1][j] + " Z : " + t[2][j]);
        for (int j = 0; j < 8; ++j) L.tag("VX", "VX: " + t[3][j] + " VY: " + t[4][j] + " VZ: " + t[5][j]); }
    L.pr = true;
    { auto& s = x.Attitude; T6(PeriodStartTime, "Period Start Time"); T6(PeriodEndTime, "Period End Time"); R8(PrincipalAxisOffsetAngle, "Princ. Axis Off. An."); }
    for (int i = 0; i < 100; ++i) { auto& s = x.Attitude.AttitudePolynomial[i]; L.idx = i; L.pr = L.g || L.uint(2); bool p = L.pr;
        T6(StartTime, "Start Time", L.pzero); T6(EndTime, "End Time");
        if (!L.g) { evals(1); if (s.is_present() != p) L.bad("attitude.is_present", "wrong presence"); }
        std::string t[3][8]; for (int j = 0; j < 8; ++j) L.r8("XOfSpinAxis", &s.XOfSpinAxis[j], nullptr, "", &t[0][j]);
        for (int j = 0; j < 8; ++j) L.r8("YOfSpinAxis", &s.YOfSpinAxis[j], nullptr, "", &t[1][j]);
        for (int j = 0; j < 8; ++j) L.r8("ZOfSpinAxis", &s.ZOfSpinAxis[j], nullptr, "", &t[2][j]);
        for (int j = 0; j < 8; ++j) L.tag("XSA", "XSA : " + t[0][j] + " YSA : " + t[1][j] + " ZSA : " + t[2][j]); }
    L.pr = true; { auto& s = x; R8(SpinRateatRCStart, "Spin Rate at Start"); }
    { auto& s = x.UTCCorrelation; T6(PeriodStartTime, "Period Start Time"); T6(PeriodEndTime, "Period End Time");
        if (L.g) L.skip(7); else { double v; std::string t = L.cuctext(v); evals(2); if (!close_rel(s.OnBoardTimeStart.get_time_cuc_r8(), v, 1e-14)) L.bad("OnBoardTimeStart", "wrong value"); if (norm(s.OnBoardTimeStart.get_coarse_time() + " " + s.OnBoardTimeStart.get_fine_time()) != norm(t)) L.bad("OnBoardTimeStart", "wrong bytes");
            L.line("On board Time", t + "(" + Lay::str(v) + ")"); L.o += 7; }
        R8(VarOnBoardTimeStart, "On board Time Var."); R8(A1, "A1 time"); R8(VarA1, "A1 time Variance"); R8(A2, "A2 time"); R8(VarA2, "A2 time Variance"); }
    return 60134;
}
inline size_t lay(Lay& L, MSG_data_ImageAcquisition& x) {
    { auto& s = x.PlannedAquisitionTime; T10(TrueRepeatCycleStart, "True Rep. Cycle St."); T10(PlannedForwardScanEnd, "Pl. Fw. Scan End"); T10(PlannedRepeatCycleEnd, "Pl. Rp. Cycle End"); }
    { auto& s = x.RadiometerStatus; FOR(12) L.en(1, "ChannelStatus", &s.ChannelStatus[L.idx], LB(("Channel %02d Status", L.idx + 1)), 0, ONOFF); FOR(42) L.en(1, "DetectorStatus", &s.DetectorStatus[L.idx], LB(("Detector %02d Status", L.idx + 1)), 0, ONOFF); }
    { auto& s = x.RadiometerSettings; int& i = L.idx;
        FOR(42) U2(MDUSamplingDelays[i], LB(("MDU Sampling delay%02d", i + 1))); U2(MDUNomHRVDelay1, "MDU Nom. HRV Dly 1"); U2(MDUNomHRVDelay2, "MDU Nom. HRV Dly 2"); L.skip(2); U2(MDUNomHRVBreakline, "MDU Nom. HRV Brkl");
        L.en(1, "DHSSyncSelection", &s.DHSSyncSelection, "DHS Sync Selection", 0, { "Sun", "Earth/North", "Earth/South" });
        FOR(42) U2(MDUOutGain[i], LB(("MDU Out Gain %02d", i + 1))); FOR(42) U1(MDUCoarseGain[i], LB(("MDU Coarse Gain %02d", i + 1))); FOR(42) U2(MDUFineGain[i], LB(("MDU Fine Gain %02d", i + 1)));
        FOR(42) U2(MDUNumericalOffset[i], LB(("MDU Num. Offset %02d", i + 1))); FOR(42) U2(PUGain[i], LB(("PU Gain %02d", i + 1))); FOR(27) U2(PUOffset[i], LB(("PU Offset %02d", i + 1))); FOR(15) U2(PUBias[i], LB(("PU BIAS %02d", i + 1)));
        U2(L0_LineCounter, "L0 Line Counter"); U2(K1_RetraceLines, "K1 Retrace Lines"); U2(K2_PauseDeciseconds, "K2 Pause Deciseconds"); U2(K3_RetraceLines, "K3 Retrace Lines"); U2(K4_PauseDeciseconds, "K4 Pause Deciseconds"); U2(K5_RetraceLines, "K5 Retrace Lines");
        L.en(1, "X_DeepSpaceWindowPosition", &s.X_DeepSpaceWindowPosition, "Deep Spc. Wnd. Pos.", 0, DEEP); U2(RefocusingLines, "Refocusing Lines"); L.en(1, "RefocusingDirection", &s.RefocusingDirection, "Refocusing Dir.", 0, { "Up", "Down" }); U2(RefocusingPosition, "Refocusing Position");
        FL(ScanRefPosFlag, "Scan Ref Pos Flag"); U2(ScanRefPosNumber, "Scan Ref Pos Num"); R4(ScanRefPotVal, "Scan Ref. Pot. Val"); U2(ScanFirstLine, "Scan First Line"); U2(ScanLastLine, "Scan Last Line"); U2(RetraceStartLine, "Retrace Start Line"); }
    { auto& s = x.RadiometerOperations; FL(LastGainChangeFlag, "Last Gain Ch. Flag"); T6(LastGainChangeTime, "Last Gain Change"); FL(DecontaminationNow, "Decontamination Now"); T6(DecontaminationStart, "Decont. Start"); T6(DecontaminationEnd, "Decont. End"); FL(BBCalScheduled, "BB Cal. Scheduled");
        L.en(1, "BBCalibrationType", &s.BBCalibrationType, "BB Calib. Type", 0, { "Hot", "Ambient", "Indeterminate" }); U2(BBFirstLine, "BB First Line"); U2(BBLastLine, "BB Last Line"); U2(ColdFocalPlaneOpTemp, "Cold Plane Temp."); U2(WarmFocalPlaneOpTemp, "Warm Plane Temp."); }
    return 700;
}
inline void generalized(Lay& L, const char* f, MSG_time_generalized& m, const char* label) {
    if (L.g) { std::string t = fmt("%04d%02d%02d%02d%02d%02dZ", (int)(2000 + L.g->below(40)), (int)(1 + L.g->below(12)), (int)(1 + L.g->below(28)), (int)L.g->below(24), (int)L.g->below(60), (int)L.g->below(60)); memcpy(&L.b[L.o], t.data(), 15); }
    else { std::string t = L.b.substr(L.o, 14), w = t.substr(0, 4) + "-" + t.substr(4, 2) + "-" + t.substr(6, 2) + " " + t.substr(8, 2) + ":" + t.substr(10, 2) + ":" + t.substr(12, 2); evals(1); if (m.get_timestring() != w) L.bad(f, "decoded " + m.get_timestring() + ", stored " + w); L.line(label, w); }
    L.o += 15;
}
inline size_t lay(Lay& L, MSG_data_CelestialEvents& x) {
    auto& e = x.CelestialBodiesPosition.Ephemeris;
    { auto& s = e; T6(PeriodStartTime, "Period Start Time"); T6(PeriodEndTime, "Period End Time"); generalized(L, "RelatedOrbitFileTime", e.RelatedOrbitFileTime, "Rel. Orbitfile Time"); generalized(L, "RelatedAttitudeFileTime", e.RelatedAttitudeFileTime, "Rel. Attitude Time"); }
    auto ab = [&](const char* fa, const char* fb, double* a, double* b) { std::string t[2][8]; for (int j = 0; j < 8; ++j) L.r8(fa, a + j, nullptr, "", &t[0][j]); for (int j = 0; j < 8; ++j) L.r8(fb, b + j, nullptr, "", &t[1][j]); for (int j = 0; j < 8; ++j) L.tag("ALPHA", "ALPHA : " + t[0][j] + "  BETA : " + t[1][j]); };
    MSG_Earth_Moon_Sun_Coefficient* c[3] = { e.EarthEphemeris, e.MoonEphemeris, e.SunEphemeris };
    for (auto* k : c) for (int i = 0; i < 100; ++i) { auto& s = k[i]; L.idx = i; L.pr = L.g || L.uint(2); T6(StartTime, "Start Time", L.pzero); T6(EndTime, "End Time"); ab("AlphaCoef", "BetaCoef", s.AlphaCoef, s.BetaCoef); }
    for (int i = 0; i < 100; ++i) for (int k = 0; k < 20; ++k) { auto& s = e.StarEphemeris[i]; L.idx = i * 20 + k; L.pr = L.g || get_be(L.b, L.o + 2, 2);
        U2(StarId[k], "Star Id"); T6(StartTime[k], "Start Time", L.pzero); T6(EndTime[k], "End Time"); ab("StarAlphaCoef", "StarBetaCoef", s.AlphaCoef[k], s.BetaCoef[k]); }
    L.pr = true; auto& s = x.RelationToImage; static const Names BODY = { "None", "Sun", "Moon", "Sun and Moon" };
    L.en(1, "TypeofEclypse", &s.TypeofEclypse, "Type of Eclypse", 0, { "None", "Sun", "Moon" }); T6(EclipseStartTime, "Eclypse Start"); T6(EclipseEndTime, "Eclypse End"); L.en(1, "VisibleBodiesInImage", &s.VisibleBodiesInImage, "Visible Body", 0, BODY); L.en(1, "BodiesClosesttoFOV", &s.BodiesClosesttoFOV, "Body Closest to FOV", 0, BODY);
    L.en(1, "ImpactOnImageQuality", &s.ImpactOnImageQuality, "Image Qualuty Impact", 0, { "None", "Radiometric", "Geometric" });
    return 326058;
}
inline size_t lay(Lay& L, MSG_data_ImageDescription& x) {
    { auto& s = x.ProjectionDescription; L.en(1, "TypeOfProjection", &s.TypeOfProjection, "Type of Projection", 1, { "Geostationary, Earth Centered in grid" }); R4(LongitudeOfSSP, "SSP Longitude"); }
    for (auto* p : { &x.ReferenceGridVIS_IR, &x.ReferenceGridHRV }) { auto& s = *p; I4(NumberofLines, "Number Of Lines"); I4(NumberofColumns, "Number of Columns"); R4(LineDirGridStep, "Grid Step SSP line"); R4(ColumnDirGridStep, "Grid Step SSP col.");
        L.en(1, "GridOrigin", &s.GridOrigin, "Grid Origin", 0, { "Grid corner North-West", "Grid corner South-West", "Grid corner South-East", "Grid corner North-East" }); }
    for (const char* l : { "Southern line Plan.", "Northern line Plan.", "Eastern col. Plan.", "Western col. Plan.", "Low South line Plan.", "Low North line Plan.", "Low East col. Plan.", "Low West col. Plan.", "Up South line Plan.", "Up North line Plan.", "Up East col. Plan.", "Up West col. Plan." }) L.i4(l, (int_4*)nullptr, l);
    auto& s = x.Level1_5ImageProduction; L.en(1, "ImageProcDirection", &s.ImageProcDirection, "Image Processing Dir", 0, { "Direction North-South", "Direction South-North" }); L.en(1, "PixelGenDirection", &s.PixelGenDirection, "Pixel Processing Dir", 0, { "Direction East-West", "Direction West-East" });
    FOR(12) FL(PlannedChanProcessing[L.idx], LB(("Channel %02d is plan.", L.idx + 1)));
    return 101;
}
inline size_t lay(Lay& L, MSG_data_RadiometricProc& x) {
    { auto& s = x.RPSummary; bool* a[6] = { s.RadianceLinearization, s.DetectorEqualization, s.OnboardCalibrationResult, s.MPEFCalFeedBack, s.MTFAdaptation, s.StraylightCorrectionFlag };
        static const char* n[6] = { "Radiance Lin.", "Detector Eq.", "OnBoard Cal. Result", "MPEF Cal. Feedback", "MTF Adaptation", "Straylight Correct." };
        for (int k = 0; k < 6; ++k) { std::string t; for (int i = 0; i < 12; ++i) { if (!L.g) t += L.b[L.o] ? "1 " : "0 "; L.idx = i; L.flag(n[k], &a[k][i]); } L.line(n[k], t); } }
    FOR(12) { auto& s = x.ImageCalibration[L.idx]; R8(Cal_Slope, "Calibration Slope"); R8(Cal_Offset, "Calibration Offset"); }
    // black body data
    MSG_time_cds_expanded* nt = nullptr; uint_2* n2 = nullptr; double* n8 = nullptr; float* n4 = nullptr; int& i = L.idx;
    L.cds(10, "BBObservationUTC", nt, "BB Observation UTC");
    if (L.g) L.skip(7); else { double v; L.cuctext(v); L.line("On Board Time", Lay::str(v)); L.o += 7; }
    FOR(42) L.un(2, "BB.MDUOutGain", n2, LB(("MDU Out Gain %02d", i + 1))); FOR(42) L.un(1, "BB.MDUCoarseGain", n2, LB(("MDU Coarse Gain %02d", i + 1))); FOR(42) L.un(2, "BB.MDUFineGain", n2, LB(("MDU Fine Gain %02d", i + 1)));
    FOR(42) L.un(2, "BB.MDUNumOffset", n2, LB(("MDU Num. Offset %02d", i + 1))); FOR(42) L.un(2, "BB.PUGain", n2, LB(("PU Gain %02d", i + 1))); FOR(27) L.un(2, "BB.PUOffset", n2, LB(("PU Offset %02d", i + 1))); FOR(15) L.un(2, "BB.PUBias", n2, LB(("PU Bias %02d", i + 1)));
    if (L.g) L.skip(63); else { for (int k = 0; k < 42; ++k) { unsigned v = k % 2 == 0 ? get_be(L.b, L.o + k / 2 * 3, 2) >> 4 : get_be(L.b, L.o + k / 2 * 3 + 1, 2) & 0xfff; L.line(LB(("DCR Values %02d", k + 1)), fmt("%03x", v)); } L.o += 63; }
    L.en(1, "BB.DeepSpace", (int*)nullptr, "Deep Space Win", 0, DEEP);
    for (const char* l : { "FCU Nom. CF Temp", "FCU Red. CF Temp", "FCU Nom. WF Temp", "FCU Red. WF Temp", "FCU Nom. SM S1 Temp", "FCU Red. SM S1 Temp", "FCU Nom. SM S2 Temp", "FCU Red. SM S2 Temp", "FCU Nom. M1 S1 Temp", "FCU Red. M1 S1 Temp", "FCU Nom. M1 S2 Temp", "FCU Red. M1 S2 Temp" }) L.un(2, l, n2, l);
    for (const char* l : { "FCU Nom. M23 S1 T", "FCU Red. M23 S1 T", "FCU Nom. M23 S2 T", "FCU Red. M23 S2 T" }) L.un(1, l, n2, l);
    for (const char* l : { "FCU Nom. M1 Baffle T", "FCU Red. M1 Baffle T", "FCU Nom. BB Sensor T", "FCU Red. BB Sensor T", "FCU Nom. SMM Status", "FCU Red. SMM Status" }) L.un(2, l, n2, l);
    FOR(12) { L.un(4, "NumberOfPixelsUsed", n2, "Number of Pix. Used"); L.r4("MeanCount", n4, "Mean Count"); L.r4("RMS", n4, "RMS"); L.un(2, "MaxCount", n2, "Max Count"); L.un(2, "MinCount", n2, "Min Count"); L.r8("BBSlope", n8, "Processing Slope"); L.r8("BBOffset", n8, "Processing Offset"); }
    FOR(12) { int* e = nullptr; L.en(1, "ImageQualityFlag", e, "Image Quality", 0, { "IMPF Calibration OK", "IMPF Calibration Dubious", "Use MPEF calibration" }); L.en(1, "ReferenceDataFlag", e, "Reference data", 0, { "Not calculated", "Meteorological data", "Foreign satellite data", "Both meteo and foreign satellite" });
        L.en(1, "AbsCalMethod", e, "Absolute Cal. Meth.", 0, { "Not changed", "External", "Vicarious", "Cross satellite", "Mixed vicarious and cross satellite" }); L.skip(1);
        for (const char* l : { "Abs Cal Weight Vic.", "Abs Cal Weight Xsat.", "Abs Cal Coefficient", "Abs Cal Error", "Cal Mon Bias", "Cal Mon RMS", "Offset Count" }) L.r4(l, n4, l); }
    FOR(42) rows4(L, "RadTransform", x.RadTransform[i], 64);
    { auto& s = x.RadProcMTFAdaptation; FOR(33) rows4(L, "VIS_IRMTFCorrectionE_W", s.VIS_IRMTFCorrectionE_W[i], 16); FOR(33) rows4(L, "VIS_IRMTFCorrectionN_S", s.VIS_IRMTFCorrectionN_S[i], 16); FOR(9) rows4(L, "HRVIRMTFCorrectionE_W", s.HRVIRMTFCorrectionE_W[i], 16); FOR(9) rows4(L, "HRVIRMTFCorrectionN_S", s.HRVIRMTFCorrectionN_S[i], 16); }
    FOR(12) for (int j = 0; j < 8; ++j) rows4(L, "StraylightCorrection", x.StraylightCorrection[i][j], 8);
    return 20815;
}
inline size_t lay(Lay& L, MSG_data_GeometricProc& x) {
    { auto& s = x.OptAxisDistances; int& i = L.idx; FOR(42) R4(E_W_FocalPlane[i], LB(("E/W Focal plane %02d", i + 1))); FOR(42) R4(N_S_FocalPlane[i], LB(("N/S Focal plane %02d", i + 1))); }
    { auto& s = x.EarthModel; L.en(1, "TypeofEarthModel", &s.TypeofEarthModel, "Type of Earth Model", 1, { "Ellipsoid with RPN RPS REQ" }); R8(EquatorialRadius, "Equatorial Radius", " Km"); R8(NorthPolarRadius, "North Polar Radius", " Km"); R8(SouthPolarRadius, "South Polar Radius", " Km"); }
    FOR(12) rows4(L, "AtmosphericModel", x.AtmosphericModel[L.idx], 360);
    FOR(12) L.en(1, "ResamplingFunction", &x.ResamplingFunction[L.idx], LB(("Resampl Function %02d", L.idx + 1)), 1, { "Windowed Shannon", "Bicubic Splines", "Nearest neighbour" });
    return 17653;
}
inline size_t lay(Lay& L, MSG_data_ImageProdStats& x) {
    if (L.g) L.putn(321 + L.g->below(4), 2); else { L.same("SatelliteId", (int)x.SatelliteId, (int)L.uint(2)); L.line("Satellite Id", fmt("MSG%d", (int)L.uint(2) - 320)); } L.o += 2;
    { auto& s = x.ActualScanningSummary; U1(NominalImageScanning, "Nominal Image Scan."); U1(ReducedScan, "Reduced Scan"); T6(ForwardScanStart, "Forw. Scan Start"); T6(ForwardScanEnd, "Forw. Scan End"); }
    { auto& s = x.RadiometerBehaviour; U1(NominalBehaviour, "Nominal Behaviour"); U1(RadScanIrregularity, "Rad Scan Irregular."); U1(RadStoppage, "Rad Stoppage"); U1(RepeatCycleNotCompleted, "Repeat not complete"); U1(GainChangeTookPlace, "Gain change"); U1(DecontaminationTookPlace, "Decontamination"); U1(NoBBCalibrationAchieved, "No BB Calibration"); U1(IncorrectTemperature, "Incorrect Temp."); U1(InvalidBBData, "Invalid BB data"); U1(InvalidAuxOrHKTMData, "Invalid Aux HKTM"); U1(RefocusingMechanismActuated, "Refocusing actuated"); U1(MirrorBackToReferencePos, "Mirror back ref."); }
    { auto& s = x.ReceptionSummaryStats; int& i = L.idx; FOR(12) U4(PlannedNumberOfL10Lines[i], "Planned L10 lines"); FOR(12) U4(NumberOfMissingL10Lines[i], "Missing L10 lines"); FOR(12) U4(NumberOfCorruptedL10Lines[i], "Corrupted L10 lines"); FOR(12) U4(NumberOfReplacedL10Lines[i], "Replaced L10 lines"); }
    FOR(12) { auto& s = x.L15ImageValidity[L.idx]; U1(NominalImage, "Nominal Image"); U1(NonNominalBecauseIncomplete, "Incomplete Image"); U1(NonNominalRadiometricQuality, "Non Radiometric OK"); U1(NonNominalGeometricQuality, "Non Geometric OK"); U1(NonNominalTimeliness, "Non Timeliness OK"); U1(IncompleteL15, "Incomplete L 1.5"); }
    { auto& s = x.ActualL15CoverageVIS_IR; I4(SouthernLineActual, "Southern Line IR"); I4(NorthernLineActual, "Northern Line IR"); I4(EasternColumnActual, "Eastern Column IR"); I4(WesternColumnActual, "Western Column IR"); }
    { auto& s = x.ActualL15CoverageHRV; I4(LowerSouthLineActual, "Low South Line HRV"); I4(LowerNorthLineActual, "Low North Line HRV"); I4(LowerEastColumnActual, "Low East Column HRV"); I4(LowerWestColumnActual, "Low West Column HRV"); I4(UpperSouthLineActual, "Up South Line HRV"); I4(UpperNorthLineActual, "Up North Line HRV"); I4(UpperEastColumnActual, "Up East Column HRV"); I4(UpperWestColumnActual, "Up West Column HRV"); }
    return 340;
}
template<class O> inline void observation(Lay& L, O& s) { R8(Alpha, "Alpha"); R8(AlphaConfidence, "Alpha Confidence"); R8(Beta, "Beta"); R8(BetaConfidence, "Beta Confidence"); T8(ObservationTime, "Observation Time"); R8(SpinRate, "Spin Rate"); R8(AlphaDeviation, "Alpha Deviation"); R8(BetaDeviation, "Beta Deviation"); }
inline size_t lay(Lay& L, MSG_data_NavigExtrResult& x) {
    for (int i = 0; i < 4; ++i) { auto& s = x.ExtractedHorizons[i]; L.idx = i; L.en(1, "HorizonId", &s.HorizonId, "Horizon Id", 0, { "South", "North", "East", "West" }); observation(L, s); }
    for (int i = 0; i < 20; ++i) { auto& s = x.ExtractedStars[i]; L.idx = i; L.pr = L.g || L.uint(2); U2(StarId, "Star Id"); observation(L, s); }
    for (int i = 0; i < 50; ++i) { auto& s = x.ExtractedLandmarks[i]; L.idx = i; L.pr = L.g || L.uint(2); U2(LandmarkId, "Landmark Id"); R8(LandmarkLongitude, "Longitude"); R8(LandmarkLatitude, "Latitude"); observation(L, s); }
    L.pr = true; return 5680;
}
inline void histo(Lay& L, const char* f, uint_4* v, int n) { for (int i = 0; i < n; ++i) { L.idx = i; if (L.g) { L.putn(L.g->chance(0.3) ? L.g->below(70) : L.g->below(5000000), 4); L.o += 4; } else L.un(4, f, v + i); } }
inline void entropy(Lay& L, const char* label, float* v) { std::string t; for (int i = 0; i < 3; ++i) L.r4(label, v + i, nullptr, &t); L.line(label, t); }
inline size_t lay(Lay& L, MSG_data_RadiometricQuality& x) {
    for (int i = 0; i < 42; ++i) { auto& s = x.L10RadQuality[i]; L.key = i * 100;
        U2(FullImageMinimumCount, "Full Image Min Count"); U2(FullImageMaximumCount, "Full Image Max Count"); U2(EarthDiskMinimumCount, "Earth Disk Min Count"); U2(EarthDiskMaximumCount, "Earth Disk Max Count"); U2(MoonMinimumCount, "Moon Min Count"); U2(MoonMaximumCount, "Moon Max Count");
        R4(FullImageMeanCount, "Full Mean Count"); R4(FullImageStandardDeviation, "Full Std. Deviation"); R4(EarthDiskMeanCount, "Earth Mean Count"); R4(EarthDiskStandardDeviation, "Earth Std. Deviation"); R4(MoonMeanCount, "Moon Mean Count"); R4(MoonStandardDeviation, "Moon Std. Deviation"); R4(SpaceMeanCount, "Space Mean Count"); R4(SpaceStandardDeviation, "Space Std. Deviation");
        R4(SESpaceCornerMeanCount, "SE Corner Mean"); R4(SESpaceCornerStandardDeviation, "SE Corner Std. Dev."); R4(SWSpaceCornerMeanCount, "SW Corner Mean"); R4(SWSpaceCornerStandardDeviation, "SW Corner Std. Dev."); R4(NESpaceCornerMeanCount, "NE Corner Mean"); R4(NESpaceCornerStandardDeviation, "NE Corner Std. Dev."); R4(NWSpaceCornerMeanCount, "NW Corner Mean"); R4(NWSpaceCornerStandardDeviation, "NW Corner Std. Dev."); R4(FourSpaceCornersMeanCount, "4 Space Corner Mean"); R4(FourSpaceCornersStandardDeviation, "4 Space Corner Std.");
        histo(L, "FullImageIstogram", s.FullImageIstogram, 256); histo(L, "EarthDiskIstogram", s.EarthDiskIstogram, 256); histo(L, "ImageCentreSquareIstogram", s.ImageCentreSquareIstogram, 256); histo(L, "SESpaceCornerIstogram", s.SESpaceCornerIstogram, 128); histo(L, "SWSpaceCornerIstogram", s.SWSpaceCornerIstogram, 128); histo(L, "NESpaceCornerIstogram", s.NESpaceCornerIstogram, 128); histo(L, "NWSpaceCornerIstogram", s.NWSpaceCornerIstogram, 128);
        entropy(L, "Full Image Entropy", s.FullImageEntropy); entropy(L, "Earth Disk Entropy", s.EarthDiskEntropy); entropy(L, "Image Square Entropy", s.ImageCentreSquareEntropy); entropy(L, "SE Spc Corner Entr.", s.SESpaceCornerEntropy); entropy(L, "SW Spc Corner Entr.", s.SWSpaceCornerEntropy); entropy(L, "NE Spc Corner Entr.", s.NESpaceCornerEntropy); entropy(L, "NW Spc Corner Entr.", s.NWSpaceCornerEntropy); entropy(L, "4 Spc Corners Entr.", s.FourSpaceCornersEntropy);
        rows4(L, "ImageCentreSquarePSD_EW", s.ImageCentreSquarePSD_EW, 128); rows4(L, "FullImagePSD_EW", s.FullImagePSD_EW, 128); rows4(L, "ImageCentreSquarePSD_NS", s.ImageCentreSquarePSD_NS, 128); rows4(L, "FullImagePSD_NS", s.FullImagePSD_NS, 128); }
    for (int i = 0; i < 12; ++i) { auto& s = x.L15RadQuality[i]; L.key = 5000 + i * 100;
        U2(FullImageMinimumCount, "Full Image Min Count"); U2(FullImageMaximumCount, "Full Image Max Count"); U2(EarthDiskMinimumCount, "Earth Disk Min Count"); U2(EarthDiskMaximumCount, "Earth Disk Max Count");
        R4(FullImageMeanCount, "Full Mean Count"); R4(FullImageStandardDeviation, "Full Std. Deviation"); R4(EarthDiskMeanCount, "Earth Mean Count"); R4(EarthDiskStandardDeviation, "Earth Std. Deviation"); R4(SpaceMeanCount, "Space Mean Count"); R4(SpaceStandardDeviation, nullptr);
        histo(L, "FullImageIstogram15", s.FullImageIstogram, 256); histo(L, "EarthDiskIstogram15", s.EarthDiskIstogram, 256); histo(L, "ImageCentreSquareIstogram15", s.ImageCentreSquareIstogram, 256);
        entropy(L, "Full Image Entropy", s.FullImageEntropy); entropy(L, "Earth Disk Entropy", s.EarthDiskEntropy); entropy(L, "Image Square Entropy", s.ImageCentreSquareEntropy);
        rows4(L, "ImageCentreSquarePSD_EW15", s.ImageCentreSquarePSD_EW, 128); rows4(L, "FullImagePSD_EW15", s.FullImagePSD_EW, 128); rows4(L, "ImageCentreSquarePSD_NS15", s.ImageCentreSquarePSD_NS, 128); rows4(L, "FullImagePSD_NS15", s.FullImagePSD_NS, 128);
        R4(SESpaceCornerL15_RMS, "SE Space Corner RMS"); R4(SESpaceCornerL15_Mean, "SE Space Corner Mean"); R4(SWSpaceCornerL15_RMS, "SW Space Corner RMS"); R4(SWSpaceCornerL15_Mean, "SW Space Corner Mean"); R4(NESpaceCornerL15_RMS, "NE Space Corner RMS"); R4(NESpaceCornerL15_Mean, "NE Space Corner Mean"); R4(NWSpaceCornerL15_RMS, "NW Space Corner RMS"); R4(NWSpaceCornerL15_Mean, "NW Space Corner Mean"); }
    return 371256;
}
static const Names QIV = { "Not Derived", "Derived and Valid", "Derived and Invalid", "Estimated" };
inline size_t lay(Lay& L, MSG_data_GeometricQuality& x) {
    MSG_Accuracy* acc[4] = { x.AbsoluteAccuracy, x.RelativeAccuracy, x.N500PixelsRelativeAccuracy, x.N16PixelsRelativeAccuracy };
    for (int k = 0; k < 4; ++k) for (int i = 0; i < 12; ++i) { auto& s = acc[k][i]; L.idx = i; L.key = i * 10 + k; bool d = L.g || L.b[L.o]; L.en(1, "QualityInfoValidity", &s.QualityInfoValidity, "Quality Info Valid.", 0, QIV); L.pr = d;
        R4(EastWestAccuracyRMS, "E/W Accuracy RMS"); R4(NorthSouthAccuracyRMS, "N/S Accuracy RMS"); R4(MagnitudeRMS, "Magnitude RMS"); R4(EastWestUncertaintyRMS, "E/W Uncert. RMS"); R4(NorthSouthUncertaintyRMS, "N/S Uncert. RMS"); R4(MagnitudeUncertaintyRMS, "Magnitude Unc. RMS"); R4(EastWestMaxDeviation, "E/W Max Deviation"); R4(NorthSouthMaxDeviation, "N/S Max Deviation"); R4(MagnitudeMaxDeviation, "Magnitude Deviation"); R4(EastWestUncertaintyMax, "E/W Uncert. Max"); R4(NorthSouthUncertaintyMax, "N/S Uncert. Max"); R4(MagnitudeUncertaintyMax, "Magnitude Unc. Max"); L.pr = true; }
    for (int i = 0; i < 12; ++i) { auto& s = x.MisregistrationResiduals[i]; L.idx = i; L.key = i * 10 + 4; bool d = L.g || L.b[L.o]; L.en(1, "ResidualsValidity", &s.QualityInfoValidity, "Quality Info Valid.", 0, QIV); L.pr = d;
        R4(EastWestResiduals, "E/W Residuals"); R4(NorthSouthResiduals, "N/S Residuals"); R4(EastWestUncertainty, "E/W Uncertainty"); R4(NorthSouthUncertainty, "N/S Uncertainty"); R4(EastWestRMS, "E/W RMS"); R4(NorthSouthRMS, "N/S RMS"); R4(EastWestMagnitude, "E/W Magnitude"); R4(NorthSouthMagnitude, "N/S Magnitude"); R4(EastWestMagnitudeUncertainty, "E/W Magnitude Unce."); R4(NorthSouthMagnitudeUncertainty, "N/S Magnitude Unce."); L.pr = true; }
    for (int i = 0; i < 12; ++i) { auto& s = x.GeometricQualityStatus[i]; L.idx = i; L.key = i * 10 + 5; U1(QualityNominal, "Quality Nominal"); U1(NominalAbsolute, "Nominal Absolute"); U1(NominalRelativeToPreviousImage, "Nominal Rel. Prev."); U1(NominalForREL500, "Nominal Rel. 500"); U1(NominalForREL16, "Nominal Rel. 16"); U1(NominalForResMisreg, "Nominal Rel. Misreg"); }
    return 2916;
}
inline size_t lay(Lay& L, MSG_data_TimelinComple& x) {
    { auto& s = x.Timeliness; R4(MaxDelay, "Max Delay"); R4(MinDelay, "Min Delay"); R4(MeanDelay, "Mean Delay"); }
    FOR(12) { auto& s = x.Completeness[L.idx]; U2(PlannedL15ImageLines, "Planned Image Lines"); U2(GeneratedL15ImageLines, "Generated Lines"); U2(ValidL15ImageLines, "Valid Lines"); U2(DummyL15ImageLines, "Dummy Lines"); U2(CorruptedL15ImageLines, "Corrupted Lines"); }
    return 132;
}
#undef U1
#undef U2
#undef U4
#undef I4
#undef FL
#undef R4
#undef R8
#undef T6
#undef T8
#undef T10
#undef FOR
#undef IX
#undef LB

// The lines of a dump that carry one of the expected labels must be the
// expected ones, in order; lines without a label must hold the expected rows
inline void check_dump(Lay& L, const std::string& dump, const std::string& what) {
    std::stable_sort(L.lines.begin(), L.lines.end(), [](const Lay::Line& a, const Lay::Line& b) { return a.key < b.key; });
    std::map<std::string, std::vector<std::string>> want, have;
    for (auto& l : L.lines) want[l.label].push_back(l.text);
    std::istringstream in(dump); std::string l;
    while (std::getline(in, l)) { l = norm(l); size_t p = l.find(':'); have[p == std::string::npos ? "" : l.substr(0, p)].push_back(l); }
    for (auto& w : want) {
        auto& h = have[w.first]; size_t j = 0, i = 0;
        evals(w.second.size());
        for (; i < w.second.size(); ++i) { while (j < h.size() && h[j] != w.second[i]) ++j; if (j == h.size()) break; ++j; }
        if (i < w.second.size()) viol("dump:" + L.sec + ":" + (w.first.empty() ? "rows" : w.first), fmt("%s: entry %zu of %zu should read '%s'; %zu lines of this kind, e.g. '%s'", what.c_str(), i, w.second.size(), w.second[i].c_str(), h.size(), h.empty() ? "" : h[std::min(i, h.size() - 1)].c_str()));
    }
}
template<class S> inline std::string dump_of(S& s) { std::ostringstream o; o << s; return o.str(); }
template<class S> inline std::string generate(Rng& r, const char* name, size_t size, double pzero) {
    std::string b(size, 0); std::unique_ptr<S> s(new S); Lay L(b, 0, &r, name); L.pzero = pzero; lay(L, *s); if (L.o != size) { fprintf(stderr, "layout of %s: %zu, expected %zu\n", name, L.o, size); _exit(96); } return b;
}
}
