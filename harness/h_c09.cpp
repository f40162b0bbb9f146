// C09: channels, spacecraft, units and code numbers have one identity everywhere
#include "synth.h"
#include "vgmem.h"
#include <msat/facts.h>
#include <msat/hrit/MSG_HRIT.h>
#include <grib_api.h>
using namespace xs; using namespace vf; namespace F = msat::facts;

// The published assignments: WMO common code table C-5 and the spacecraft identifiers of the xRIT global specification
struct Craft { int hrit, wmo; const char* name; };
static const Craft CRAFT[] = { {11, 3, "METOP1"}, {12, 4, "METOP2"}, {13, 5, "METOP3"}, {16, 50, "METEOSAT3"}, {19, 51, "METEOSAT4"}, {20, 52, "METEOSAT5"}, {21, 53, "METEOSAT6"}, {321, 55, "MSG1"}, {322, 56, "MSG2"}, {323, 57, "MSG3"}, {324, 70, "MSG4"}, {17012, 204, "NOAA12"}, {17014, 205, "NOAA14"}, {17015, 206, "NOAA15"}, {18007, 251, "GOES7"}, {18008, 252, "GOES8"}, {18009, 253, "GOES9"}, {18010, 254, "GOES10"}, {18011, 255, "GOES11"}, {18012, 256, "GOES12"}, {19001, 310, "GOMS1"}, {19002, 311, "GOMS2"}, {20004, 151, "GMS4"}, {20005, 152, "GMS5"}, {21001, 171, "MTSAT1"}, {21002, 172, "MTSAT2"} };
static const Craft ONLYWMO[] = { {0, 54, "METEOSAT7"}, {0, 150, "GMS3"} };          // known to the code table, not sent as xRIT
static const Craft ONLYHRIT[] = { {150, 0, "MTP1"}, {151, 0, "MTP2"}, {17013, 0, "NOAA13"}, {19003, 0, "GOMS3"}, {20006, 0, "GMS6"} };
struct Chan { const char* name; double um; const char* unit; const char* text; int digits; };
static const char* RAD = "mW m^-2 sr^-1 (cm^-1)^-1";
static const Chan CHAN[13] = { {"no-channel", 0, "unknown", "", 2}, {"VIS006", 0.635, RAD, "Visible 0.6", 4}, {"VIS008", 0.81, RAD, "Visible 0.8", 4}, {"IR_016", 1.64, RAD, "Infrared 1.6", 4}, {"IR_039", 3.92, "K", "Infrared 3.9", 2}, {"WV_062", 6.25, "K", "Water Vapour 6.2", 2}, {"WV_073", 7.35, "K", "Water Vapour 7.3", 2}, {"IR_087", 8.70, "K", "Infrared 8.7", 2}, {"IR_097", 9.66, "K", "Infrared 9.7", 2}, {"IR_108", 10.80, "K", "Infrared 10.8", 2}, {"IR_120", 12.00, "K", "Infrared 12.0", 2}, {"IR_134", 13.40, "K", "Infrared 13.4", 2}, {"HRV", 0.75, RAD, "HRV", 4} };
static const int SEV[4] = { 55, 56, 57, 70 };
static bool seviri(long s) { return s == 55 || s == 56 || s == 57 || s == 70; }

static const Craft* by_wmo(long id) { for (auto& c : CRAFT) if (c.wmo == id) return &c; for (auto& c : ONLYWMO) if (c.wmo == id) return &c; return nullptr; }
static const Craft* by_hrit(long id) { for (auto& c : CRAFT) if (c.hrit == id) return &c; return nullptr; }
static void craft(long id) {
    const Craft* w = by_wmo(id); std::string n = F::spacecraftName(id);
    if (w) { VEXPECT(n == w->name, "wmo-name", "spacecraft %ld is %s, not %s", id, n.c_str(), w->name); VEXPECT(F::spacecraftID(n) == id, "name-back", "%s -> %d, not %ld", n.c_str(), F::spacecraftID(n), id); obs("craft", n); }
    else if (id == 999 || id == 1023) VEXPECT(n == "Non Spacecraft", "wmo-name", "spacecraft %ld is %s", id, n.c_str());
    else VEXPECT(n == "unknown", "wmo-unknown", "spacecraft %ld, which no table has, is %s", id, n.c_str());
    const Craft* h = by_hrit(id); int conv = F::spacecraftIDFromHRIT(id); VEXPECT(conv == (h ? h->wmo : 1023), "hrit-to-wmo", "xRIT spacecraft %ld -> %d, not %d", id, conv, h ? h->wmo : 1023);
    int back = F::spacecraftIDToHRIT(id); VEXPECT(back == (w && w->hrit ? w->hrit : 0), "wmo-to-hrit", "WMO spacecraft %ld -> %d, not %d", id, back, w ? w->hrit : 0);
    if (h) { VEXPECT(F::spacecraftIDToHRIT(conv) == id, "hrit-back", "%ld -> %d -> %d", id, conv, F::spacecraftIDToHRIT(conv)); VEXPECT(F::spacecraftName(conv) == MSG_spacecraft_name((t_enum_MSG_spacecraft)id), "two-names", "xRIT spacecraft %ld is %s and %s", id, F::spacecraftName(conv), MSG_spacecraft_name((t_enum_MSG_spacecraft)id).c_str()); }
    if (id >= 0 && id < 65536) { std::string m = MSG_spacecraft_name((t_enum_MSG_spacecraft)id), want = id == 0 ? "Non Spacecraft" : h ? h->name : "Unknown"; for (auto& o : ONLYHRIT) if (o.hrit == id) want = o.name; VEXPECT(m == want, "hrit-name", "xRIT spacecraft %ld is %s, not %s", id, m.c_str(), want.c_str()); }
    VEXPECT(std::string(F::sensorName(id)) == (seviri(id) ? "Seviri" : "unknown"), "sensor", "sensor of %ld is %s", id, F::sensorName(id));
}
static void crafts(uint64_t i, Rng& r) {
    for (long id = (long)i * 2000; id < (long)(i + 1) * 2000; ++id) craft(id);
    for (int k = 0; k < 200; ++k) craft((int)(r.chance(0.5) ? r.u64() : -(int64_t)r.below(1000)));
    for (int k = 0; k < 200; ++k) { const Craft& c = CRAFT[r.below(26)]; std::string s = c.name; switch (r.below(6)) { case 0: s += (char)('0' + r.below(10)); break; case 1: s.pop_back(); break; case 2: s = " " + s; break; case 3: s[r.below(s.size())] ^= 0x20; break; case 4: s += '\0'; break; case 5: s = s.substr(r.below(s.size())); break; }
        int want = -1; for (auto& q : CRAFT) if (s == q.name) want = q.wmo; for (auto& q : ONLYWMO) if (s == q.name) want = q.wmo; VEXPECT(F::spacecraftID(s) == want, "unknown-name", "'%s' is spacecraft %d, not %d", s.c_str(), F::spacecraftID(s), want); }
    VEXPECT(F::spacecraftID("") == -1 && F::spacecraftID("unknown") == -1, "unknown-name", "no name is spacecraft %d", F::spacecraftID(""));
}
static double wl(int s, int c, bool& thrown) { thrown = false; try { return F::channel_central_wavelength(s, c); } catch (std::exception&) { thrown = true; return 0; } }
static void channels(uint64_t, Rng& r) {
    std::vector<int> crafts; for (auto& c : CRAFT) crafts.push_back(c.wmo); for (int x : { 0, 54, 58, 69, 71, 150, 999, 1023, -1, 321, 324 }) crafts.push_back(x); for (int k = 0; k < 40; ++k) crafts.push_back(r.range(-10, 400));
    for (int s : crafts) for (int c = -2; c < 300; ++c) {
        bool known = seviri(s) && c >= 0 && c <= 12; std::string n = F::channelName(s, c), u = F::channelUnit(s, c), l = F::channelLevel(s, c); bool thrown; double w = wl(s, c, thrown);
        VEXPECT(n == (known ? CHAN[c].name : "unknown"), "channel-name", "channel %d of %d is %s", c, s, n.c_str()); VEXPECT(u == (known ? CHAN[c].unit : "unknown"), "channel-unit", "channel %d of %d is in %s", c, s, u.c_str()); VEXPECT(l == (known ? "1.5" : ""), "channel-level", "channel %d of %d has level '%s'", c, s, l.c_str());
        if (!known || c == 0) { VEXPECT(thrown, "wavelength-unknown", "channel %d of %d has a wavelength: %g", c, s, w); bool t2 = false; try { F::channel_central_wave_number(s, c); } catch (std::exception&) { t2 = true; } VEXPECT(t2, "wavelength-unknown", "channel %d of %d has a wave number", c, s); continue; }
        VEXPECT(!thrown && std::fabs(w - CHAN[c].um) < 0.061, "wavelength", "channel %d of %d is at %g um, published %g", c, s, w, CHAN[c].um);
        double k = F::channel_central_wave_number(s, c); VEXPECT(close_rel(k, 1e6 / w, 1e-12), "wave-number", "channel %d: %.9g m^-1 for %g um", c, k, w);
        for (double x : { k, (double)llround(k), k * (1 + 1e-4), k * (1 - 1e-4) }) { int b = -1; try { b = F::channel_from_central_wave_number(s, x); } catch (std::exception&) { } VEXPECT(b == c, "wave-number-back", "channel %d -> %.9g -> %d", c, x, b); }
        int b = -1; try { b = F::channel_from_central_wavelength(s, w); } catch (std::exception&) { } VEXPECT(b == c, "wavelength-back", "channel %d -> %g -> %d", c, w, b); obs("channel", fmt("%d/%s", s, n.c_str()));
        std::string t = MSG_channel_name((t_enum_MSG_spacecraft)F::spacecraftIDToHRIT(s), c); VEXPECT(t == std::string("MSG Seviri 1.5 ") + CHAN[c].text + " channel", "two-channel-names", "channel %d is %s and %s", c, n.c_str(), t.c_str());
        if (c < 12) { double tenth = atof(strpbrk(n.c_str(), "0123456789")) / 10; VEXPECT(std::fabs(tenth - w) < 1e-9, "name-wavelength", "%s at %g um", n.c_str(), w); }
    }
    for (int c = -300; c < 600; ++c) { bool k = c >= 0 && c <= 12; int d = F::significantDigitsForChannel(c); VEXPECT(d == (k ? CHAN[c].digits : 0), "digits", "channel %d has %d digits", c, d); VEXPECT(std::isnan(F::defaultPackedMissing(c)) == !k && std::isnan(F::defaultScaledMissing(c)) == !k, "missing", "channel %d: %g, %g", c, F::defaultPackedMissing(c), F::defaultScaledMissing(c)); if (k) VEXPECT(F::defaultPackedMissing(c) == 0 && F::defaultScaledMissing(c) <= 0, "missing", "channel %d: %g, %g", c, F::defaultPackedMissing(c), F::defaultScaledMissing(c)); }
    // every wavelength belongs to the channel it is near to, or to none
    for (int i = -1000; i < 30000; ++i) { double x = i / 1000.0 + 1e-7; int s = SEV[i & 3], b = -1; try { b = F::channel_from_central_wavelength(s, x); } catch (std::exception&) { } int want = -1; for (int c = 1; c <= 12; ++c) { bool t; if (std::fabs(wl(s, c, t) - x) < 0.05) want = c; } VEXPECT(b == want, "wavelength-near", "%g um is channel %d, not %d", x, b, want); }
    static const std::vector<double> ODD = { NAN, INFINITY, -INFINITY, 0.0, -0.0, 1e300, -1e300, 1e-300, 214748364.8, 4294967302.0 / 10 + 6, -429496729.0 };
    for (double x : ODD) for (int s : SEV) { int b = -1; try { b = F::channel_from_central_wavelength(s, x); } catch (std::exception&) { } VEXPECT(b == -1, "wavelength-odd", "%g um is channel %d", x, b); b = -1; try { b = F::channel_from_central_wave_number(s, x); } catch (std::exception&) { } VEXPECT(b == -1, "wave-number-odd", "%g per metre is channel %d", x, b); }
    for (int s : crafts) if (!seviri(s)) for (double x : { 0.6, 10.8 }) { int b = -1; try { b = F::channel_from_central_wavelength(s, x); } catch (std::exception&) { } VEXPECT(b == -1, "foreign-wavelength", "%g um of spacecraft %d is channel %d", x, s, b); }
    for (auto& q : CRAFT) for (int c = 0; c < 256; ++c) { std::string t = MSG_channel_name((t_enum_MSG_spacecraft)q.hrit, c); bool mine = t.compare(0, 3, "MSG") == 0 || (c == 0 && t.compare(0, 10, "Image data") == 0); VEXPECT(mine == seviri(q.wmo) && !t.empty(), "foreign-channel", "channel %d of %s is %s", c, q.name, t.c_str()); if (!seviri(q.wmo) && c > 6) VEXPECT(t.find("unknown") != std::string::npos || t == "No channel information", "foreign-channel", "channel %d of %s is %s", c, q.name, t.c_str()); }
}
// scaling factors, grid steps and the diameters GRIB stores
static void sizes(uint64_t i, Rng& r) {
    for (int k = 0; k < 3000; ++k) {
        int dx = 1 + (int)((i * 3000 + k) % 24000); double ps = F::pixelHSizeFromSeviriDX(dx), pv = F::pixelVSizeFromSeviriDY(dx); VEXPECT(ps == pv && ps > 0, "two-axes", "diameter %d: %.9g and %.9g", dx, ps, pv);
        int b = F::seviriDXFromPixelHSize(ps), bv = F::seviriDYFromPixelVSize(pv); VEXPECT(b == (dx == 3608 ? 3622 : dx) && bv == b, "diameter-back", "diameter %d -> %.9g -> %d, %d", dx, ps, b, bv);
        // the Earth's angular diameter seen from orbit, divided by the step of one pixel
        double step = atan(ps / ((42164.0 - 6378.137) * 1000)), want = 2 * asin(6378.137 / 42164.0) / step; VEXPECT(dx == 3608 || std::fabs(want - dx) < 0.51 + dx * 1e-4, "diameter", "diameter %d gives a step of %.9g m, which is a diameter of %.3f", dx, ps, want);
        VEXPECT(F::seviriDXFromCFAC(F::CFACFromSeviriDX(dx)) == dx && F::seviriDYFromLFAC(F::LFACFromSeviriDY(dx)) == dx && F::seviriDXFromColumnRes(F::columnResFromSeviriDX(dx)) == dx && F::seviriDYFromLineRes(F::lineResFromSeviriDY(dx)) == dx, "factor-back", "diameter %d", dx);
        double cfac = (r.chance(0.5) ? 1 : -1) * exp(r.real(log(5), log(3000))), p = F::pixelHSizeFromCFAC(cfac), q = F::pixelVSizeFromLFAC(cfac); VEXPECT(p == q && (p > 0) == (cfac > 0), "two-axes", "factor %.9g: %.9g and %.9g", cfac, p, q);
        VEXPECT(close_rel(F::CFACFromPixelHSize(p), cfac, 1e-5) && close_rel(F::LFACFromPixelVSize(q), cfac, 1e-5), "factor-size-back", "factor %.9g -> %.9g -> %.9g", cfac, p, F::CFACFromPixelHSize(p));
    }
    for (int sg : { 1, -1 }) { double a = sg * 13642337 * exp2(-16), b = sg * 40927000 * exp2(-16); VEXPECT(F::pixelHSizeFromCFAC(a) == sg * vg::PS && F::pixelHSizeFromCFAC(b) == sg * vg::PSH && F::CFACFromPixelHSize(sg * vg::PS) == a && F::LFACFromPixelVSize(sg * vg::PSH) == b && F::pixelVSizeFromLFAC(a) == sg * vg::PS && F::pixelVSizeFromLFAC(b) == sg * vg::PSH && F::LFACFromPixelVSize(sg * vg::PS) == a && F::CFACFromPixelHSize(sg * vg::PSH) == b, "known-sizes", "sign %d", sg); }
    obs("sizes", fmt("%d", (int)(i % 8)));
}
// the same identities in products and in the GRIB files made of them
static long key(grib_handle* g, const char* k) { long v = -12345; grib_get_long(g, k, &v); return v; }
static std::string item(GDALMajorObject* o, const char* k) { const char* s = o->GetMetadataItem(k, MD_DOMAIN_MSAT); return s ? s : "(none)"; }
static void ids(GDALDataset* d, int wmo, const char* name, int ch, const char* what, bool unit = true) {
    VEXPECT(item(d, MD_MSAT_SPACECRAFT_ID) == fmt("%d", wmo), "raster-spacecraft", "%s: spacecraft %s, not %d", what, item(d, MD_MSAT_SPACECRAFT_ID).c_str(), wmo); VEXPECT(item(d, MD_MSAT_SPACECRAFT) == name, "raster-spacecraft", "%s: spacecraft %s, not %s", what, item(d, MD_MSAT_SPACECRAFT).c_str(), name);
    GDALRasterBand* b = d->GetRasterBand(1); VEXPECT(item(b, MD_MSAT_CHANNEL_ID) == fmt("%d", ch), "raster-channel", "%s: channel %s, not %d", what, item(b, MD_MSAT_CHANNEL_ID).c_str(), ch);
    bool k = seviri(wmo) && ch >= 0 && ch <= 12; std::string n = k ? CHAN[ch].name : "unknown"; VEXPECT(item(b, MD_MSAT_CHANNEL) == n && n == b->GetDescription(), "raster-channel", "%s: channel %s, described %s, not %s", what, item(b, MD_MSAT_CHANNEL).c_str(), b->GetDescription(), n.c_str());
    if (unit) VEXPECT(std::string(b->GetUnitType()) == (k ? CHAN[ch].unit : "unknown"), "raster-unit", "%s: unit %s", what, b->GetUnitType());
}
static const char* TPL[3] = { "msat/wmo", "msat/ecmwf", "msat/msat" };
static void products(uint64_t idx, Rng& r) {
    vg::init(); const Craft& c = CRAFT[7 + idx / 12 % 4]; int ch = 1 + idx % 12; Product p; p.scid = c.hrit; p.pid1 = c.name; p.sat = p.pid1 + "__"; p.channel = ch; p.pid2 = CHANS[ch - 1].name; p.dir = "prod"; p.seed = r.u64(); real_calibration(p); p.seglines = ch == 12 ? 29 : 16; p.nsegs = p.full() / p.seglines; p.present = { 1 }; write_product(p);
    note(fmt("%s %s", c.name, CHAN[ch].name)); vg::DS d = vg::open(r.chance(0.5) ? p.shortname() : p.segpath(1));
    if (VEXPECT(d != nullptr, "open", "%s %s does not open: %s", c.name, CHAN[ch].name, CPLGetLastErrorMsg())) { ids(d.get(), c.wmo, c.name, ch, "xRIT"); obs("product", fmt("%s %s", c.name, CHAN[ch].name)); }
    d.reset(); remove_product(p);
}
static void gribs(uint64_t idx, Rng& r) {
    vg::init(); bool odd = idx >= 144; vg::Mem m; int t = idx % 3; const char *name = "unknown"; long sat; int ch;
    if (!odd) { const Craft& c = CRAFT[7 + idx / 36 % 4]; sat = c.wmo; name = c.name; ch = 1 + idx / 3 % 12; }
    else { const Craft* c = r.chance(0.7) ? &CRAFT[r.below(26)] : nullptr; sat = c ? c->wmo : r.below(600); c = by_wmo(sat); name = c ? c->name : sat == 999 || sat == 1023 ? "Non Spacecraft" : "unknown"; ch = r.chance(0.5) ? r.below(13) : r.below(300); }
    m.sat = fmt("%ld", sat); m.chan = fmt("%d", ch); m.hrv = ch == 12; m.x0 = m.y0 = m.hrv ? 5000 : 1800; for (int i = 0; i < 64; ++i) m.v.push_back(200 + i); note(fmt("%s %ld channel %d", TPL[t], sat, ch));
    vg::DS s = vg::mem(m); unlink("x.grib"); char** o = CSLAddString(nullptr, fmt("TEMPLATE=%s", TPL[t]).c_str()); GDALDriver* drv = GetGDALDriverManager()->GetDriverByName("MsatGRIB"); vg::DS g(drv->CreateCopy("x.grib", s.get(), TRUE, o, nullptr, nullptr)); CSLDestroy(o);
    obs("grib", fmt("%s %ld/%d %s", TPL[t], odd ? 0 : sat, odd ? ch > 12 : ch, g ? "written" : "refused"));
    if (!odd) VEXPECT(g != nullptr, "grib-refused", "%s of channel %d of %ld is refused: %s", TPL[t], ch, sat, CPLGetLastErrorMsg()); if (!g) return;
    ids(g.get(), sat, name, ch, TPL[t]); g.reset();
    FILE* f = fopen("x.grib", "rb"); int err; grib_handle* h = f ? grib_handle_new_from_file(nullptr, f, &err) : nullptr; if (!VEXPECT(h != nullptr, "grib-file", "%s: no message in the file", TPL[t])) { if (f) fclose(f); return; }
    if (t == 0) { long wn = key(h, "scaledValueOfCentralWaveNumber"); double got = wn * pow(10, -key(h, "scaleFactorOfCentralWaveNumber")), want = 1e6 / CHAN[ch].um; VEXPECT(key(h, "satelliteNumber") == sat && key(h, "satelliteSeries") == 333 && key(h, "instrumentType") == 207, "grib-codes", "%s: satellite %ld series %ld instrument %ld", TPL[t], key(h, "satelliteNumber"), key(h, "satelliteSeries"), key(h, "instrumentType")); VEXPECT(std::fabs(got / want - 1) < 0.12 && std::fabs(1e6 / got - CHAN[ch].um) < 0.061, "grib-wave-number", "channel %d: %.9g per metre, published %.9g", ch, got, want); }
    else { VEXPECT(key(h, "indicatorOfTypeOfLevel") == sat && key(h, "level") == ch, "grib-codes", "%s: level type %ld, level %ld", TPL[t], key(h, "indicatorOfTypeOfLevel"), key(h, "level")); if (t == 1) VEXPECT(key(h, "satelliteIdentifier") == sat && key(h, "channelNumber") == ch && key(h, "instrumentIdentifier") == 207, "grib-codes", "%s: satellite %ld channel %ld instrument %ld", TPL[t], key(h, "satelliteIdentifier"), key(h, "channelNumber"), key(h, "instrumentIdentifier")); }
    grib_handle_delete(h); fclose(f);
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough;
    add_group("crafts", t ? 200 : 35, 5, 30, crafts); add_group("channels", t ? 60 : 8, 1, 60, channels); add_group("sizes", t ? 80 : 16, 2, 60, sizes); add_group("products", t ? 480 : 48, 6, 60, products); add_group("gribs", t ? 3000 : 360, 18, 60, gribs);
    return run_all();
}
