// C21: HRI frames decode to the stored image and survive damage
#include "common.h"
#include "hrifile.h"
#include <msat/hri/HRI.h>
#include <sstream>
#include <memory>
using namespace vf;
extern unsigned char vf_fill;
static void __attribute__((noinline)) smear(int v) { volatile char b[65536]; memset((void*)b, v, sizeof b); }
using namespace hr;
static bool has(const std::string& d, const std::string& line) { return d.find(line) != std::string::npos; }
static std::string str(double v, Kind k) { std::ostringstream o; if (k == R8) o << v; else if (k == I4 || k == I2 || k == N2 || k == N3 || k == FL) o << (long)v; else o << (float)v; return o.str(); }
static bool same(double got, double want, Kind k) { if (k == R4) { if (fabs(want) > 3.4028234e38) return fabs(got) > 3.4028e38 && (got > 0) == (want > 0); if (fabs(want) < 1.2e-38) return fabs(got) < 1.2e-38; return got == want; } if (k == R8) return want == 0 ? got == 0 : fabs(got - want) <= fabs(want) * 4.5e-16; if (k == I4 || k == I2 || k == N2 || k == N3 || k == FL) return got == want; return fabs(got - want) < 1e-4; }
static void calib(File& f, Hri& h) {
    for (size_t k = 0; k < f.f->bands.size(); ++k) {
        HRI_image& im = h.image[k]; float* c = im.get_calibration(); bool met = f.f->fmt != 15; HRI_image_band b = f.f->bands[k].band; double cc = b == IR_BAND ? f.v["cal.calir"] : f.v["cal.calwv"], sc = b == IR_BAND ? f.v["cal.irspc"] : f.v["cal.wvspc"]; int bad = -1; double want = 0;
        for (int i = 0; i < 256 && bad < 0; ++i) {
            double rad = i < (float)sc ? 0 : cc * (i - sc); auto planck = [&](double B, double A) { return rad <= 0 ? 0.0 : -B / (log(rad) - A); }; double w; bool judge = true;
            if (met) w = b == IR_BAND ? planck(1255.5465, 6.9618) : b == WV_BAND ? planck(2233.4882, 9.2477) : i / 2.55;
            else if (b == VH_BAND) w = f.sat->x == GMS ? (double)((i / 4) * (i / 4)) / 3969 : i / 2.55;
            else if (b == WV_BAND) w = f.sat->x == INDOX ? planck(2264.9, 9.1124) : 1;
            else if (f.sat->x == GOES_E) w = i < 79 ? 163 + i : (i + 405) / 2.0; else if (f.sat->x == GOES_W) w = 159.1 + i * 159 / 255.0; else if (f.sat->x == GMS) { judge = i == 0 || i == 14 || i == 128 || i == 255; w = i == 0 ? 130 : i == 14 ? 134.19 : i == 128 ? 277.42 : 327.73; if (i) { VEXPECT(c[i] >= c[i - 1] && c[i] - c[i - 1] < 14, "calibration", "the GMS table falls at %d", i); } } else w = planck(1272.2, 6.7348);
            if (rad > 0 && fabs(i - sc) < 0.06) judge = false; if (judge && fabs(c[i] - w) > (rad > 0 && fabs(i - sc) < 1 ? 1e-4 : 5e-6) * std::max(1.0, fabs(w))) { bad = i; want = w; } }
        VEXPECT(bad < 0, "calibration", "%s of %s, band %zu: count %d is worth %g, not %g (cal %g, space count %g)", f.f->code, f.sat->name, k, bad, bad < 0 ? 0 : c[bad], want, cc, sc); obs("calibration", fmt("%s %s %zu", f.f->code, met ? "METEOSAT" : f.sat->name, k));
    }
}
static void compare(File& f, Hri& h, Rng& r) {
    VEXPECT(h.nimages == (int)f.img.size(), "images", "%s: %d images, not %zu", f.f->code, h.nimages, f.img.size()); if (h.nimages != (int)f.img.size()) return;
    for (size_t k = 0; k < f.img.size(); ++k) { HRI_image& m = h.image[k]; const Band& b = f.f->bands[k]; VEXPECT(m.npixels == b.px && m.nlines == b.lines && m.name == b.name && m.get_image_band() == (int)b.band && m.units == (b.band == IR_BAND || b.band == WV_BAND ? "K" : "%"), "image-shape", "%s %zu: %s %d x %d", f.f->code, k, m.name.c_str(), m.npixels, m.nlines); if (m.npixels != b.px || m.nlines != b.lines) continue;
        size_t d = 0; const unsigned char* p = m.get_image(); while (d < f.img[k].size() && p[d] == (unsigned char)f.img[k][d]) ++d; VEXPECT(d == f.img[k].size(), "image-content", "%s%s image %zu: line %zu column %zu is %d, not %d", f.f->code, f.tec ? " (Tecnavia)" : "", k, d / b.px, d % b.px, p[d], (unsigned char)f.img[k][std::min(d, f.img[k].size() - 1)]);
        for (int i = 0; i < 12; ++i) { int l = i ? r.below(b.lines) : b.lines - 1, c = i ? r.below(b.px) : b.px - 1; VEXPECT(!memcmp(m.get_line(l), p + (size_t)l * b.px, b.px) && m.get_pixel(l, c) == p[(size_t)l * b.px + c], "image-access", "line %d, pixel %d", l, c); }
        for (auto q : { -1, b.lines }) { bool t = false; try { m.get_line(q); } catch (std::exception&) { t = true; } try { m.get_pixel(q, 0); t = false; } catch (std::exception&) { } try { m.get_pixel(0, q == -1 ? -1 : b.px); t = false; } catch (std::exception&) { } VEXPECT(t, "image-range", "line or pixel %d of %d is given", q, b.lines); } }
    calib(f, h);
    VEXPECT(std::string(h.get_format()) == f.f->code, "format", "get_format is '%.20s', not %s", h.get_format(), f.f->code); VEXPECT(std::string(h.get_satellite_name()) == f.sat->name, "satellite", "%s, not %s", h.get_satellite_name(), f.sat->name); struct tm* t = h.get_datetime(); VEXPECT(t->tm_year + 1900 == f.year && t->tm_mon + 1 == f.month && t->tm_mday == f.day && t->tm_hour == f.hour && t->tm_min == f.minute && t->tm_sec == 0, "time", "day %d of %d at %02d:%02d is %d-%d-%d %d:%d (TZ %s)", f.jday, f.year, f.hour, f.minute, t->tm_year + 1900, t->tm_mon + 1, t->tm_mday, t->tm_hour, t->tm_min, getenv("TZ") ? getenv("TZ") : "");
    VEXPECT(h.get_satellite_longitude() == f.lon, "longitude", "%g, not %d", h.get_satellite_longitude(), f.lon); VEXPECT(same(h.get_orbit_radius(), (float)f.v["imag.satdis"], R4) , "orbit", "%g, not %g", h.get_orbit_radius(), f.v["imag.satdis"]); VEXPECT(!memcmp(h.seed, f.seed.data(), 8), "seed", "the seed differs"); VEXPECT(h.get_area_name()[0] == f.f->code[0], "area", "%s", h.get_area_name());
    geolocation* g = h.get_geolocation(); long fac = f.f->fmt == 255 || !strcmp(f.f->code, "AV") ? -18204444 : -9102222; VEXPECT(g->CFAC == fac && g->LFAC == fac, "geolocation", "%s: scale %ld %ld", f.f->code, g->CFAC, g->LFAC);
    std::ostringstream o; o << h; std::string d = o.str(); auto want = [&](const std::string& s) { VEXPECT(has(d, s), "dump", "%s: the dump has no '%.80s'", f.f->code, s.c_str()); };
    want(fmt("\nNumber of frames in Subframe : %u\n", f.frames)); want(fmt("\nTotal number of subframes    : %u\n", f.subs)); want(fmt("\nCurrent subframe number      : %u\n", f.cur)); want(fmt("\nImage line number            : %u\n", f.imgline)); want(fmt("\nGlobal image number          : %u\n", f.imgno)); want(fmt("\nScan direction               : %s\n", f.dir == 0 ? "S to N and E to W" : f.dir == 240 ? "N to S and E to W" : f.dir == 15 ? "S to N and W to E" : "N to S and W to E")); want(f.grid ? "\nGrid information present" : "\nGrid information not present"); want(fmt("\nIR channel %spresent\n", f.f->ir ? "" : "not ")); want(fmt("\nWV channel %spresent\n", f.f->wv ? "" : "not "));
    if (f.f->ir) VEXPECT(has(d, "IR channel encrypted") == !!(f.enc & 2), "dump", "IR encryption %d", f.enc); if (f.f->wv) VEXPECT(has(d, "WV channel encrypted") == !!(f.enc & 1), "dump", "WV encryption %d", f.enc); if (f.f->viss) VEXPECT(has(d, "VIS-s channel encrypted") == !!(f.enc & 8), "dump", "VIS-s encryption %d", f.enc); if (f.f->visn) VEXPECT(has(d, "VIS-n channel encrypted") == !!(f.enc & 4), "dump", "VIS-n encryption %d", f.enc);
    static const char* W[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" }; static const char* M[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" }; want(std::string("\nSatellite Name               : ") + f.sat->name + "\n"); want(fmt("\nReference Time               : %s %s %2d %02d:%02d:00 %d\n", W[f.wday], M[f.month - 1], f.day, f.hour, f.minute, f.year)); want(fmt("\nJulian day                   : %d\n", f.jday)); want(fmt("\nColumn offset                : %d\n", f.col)); want(fmt("\nLine offset                  : %d\n", f.line)); want(fmt("\nLongitude                    : %d\n", f.lon));
    for (auto& x : FIELDS) if (*x.label && (x.kind == FL || x.kind == I2 || x.kind == I4 || x.kind == N2)) want(std::string("\n") + x.label + str(f.v[x.name], x.kind) + "\n"); for (int i = 1; i < 4; ++i) want(fmt("Day %d, Slot %d\n", (int)f.v[fmt("cal.time%d_day", i)], (int)f.v[fmt("cal.time%d_slot", i)])); want("\n" + f.msg + "\n");
    size_t n = 0, p = 0; while ((p = d.find("Key number ", p)) != std::string::npos) ++n, ++p; VEXPECT(n == (f.f->a ? f.keyv.size() : 0), "keys", "%s%s: %zu keys printed, %zu stored", f.f->code, f.tec ? " (Tecnavia)" : "", n, f.keyv.size()); if (f.f->a) { p = 0; for (auto& k : f.keyv) { std::string x = fmt("Key number          : %d\nKEY                 : ", k.number); for (unsigned char c : k.key) x += fmt("%x", c); size_t q = d.find(x + "\n", p); VEXPECT(q != std::string::npos, "keys", "%s%s: key %d is not printed in its place", f.f->code, f.tec ? " (Tecnavia)" : "", k.number); if (q == std::string::npos) break; p = q + 1; } }
    obs("format", fmt("%s%s %s", f.f->code, f.tec ? " tecnavia" : "", f.sat->name));
}
static std::vector<const char*> ZONES = { "UTC", "Pacific/Auckland", "America/Los_Angeles", "XXX-14", "YYY+12", "Europe/Rome" };
static void whole(Rng& r, bool big, int n) {
    Hri used; bool tecd = false; for (int k = 0; k < n; ++k) { File f; pick(r, f, big); setenv("TZ", r.pick(ZONES), 1); tzset(); build(r, f); write_file("f.hri", f.bytes + (r.chance(0.3) ? std::string(r.below(5000), 'x') : "")); note(fmt("%s%s", f.f->code, f.tec ? " tecnavia" : "")); int fd = count_fds();
        try { vf_fill = 0xAA; std::unique_ptr<Hri> h(new Hri((char*)"f.hri", f.tec)); compare(f, *h, r); if (k || r.chance(0.5)) { used.readfrom((char*)"f.hri", f.tec); compare(f, used, r); } sample(fmt("%s%s %zu bytes", f.f->code, f.tec ? " tecnavia" : "", f.bytes.size())); } catch (std::exception& e) { viol("valid-refused", fmt("%s%s: a well-formed file is refused: %s", f.f->code, f.tec ? " (Tecnavia)" : "", e.what())); } VEXPECT(count_fds() == fd, "descriptors", "a descriptor is left open"); }
}
static void small(uint64_t, Rng& r) { whole(r, false, 3); }
static void large(uint64_t, Rng& r) { whole(r, true, 2); }
// the parts alone, in memory of exactly their size
static void parts(uint64_t, Rng& r) {
    for (int k = 0; k < 30; ++k) {
        File f; f.f = &r.pick(FORMATS); f.sat = &r.pick(SATS); f.tec = false; setenv("TZ", r.pick(ZONES), 1); tzset(); header(r, f); auto own = [&](const std::string& s, size_t n) { char* p = new char[n]; memcpy(p, s.data(), n); return std::unique_ptr<char[]>(p); };
        auto lb = own(f.label, 24); HRI_subframe_label l(lb.get()); VEXPECT(l.number_of_frames_in_subframe == f.frames && l.total_number_of_subframes == f.subs && l.current_subframe_number == f.cur && l.image_line_number == f.imgline && l.image_number_from_mission_start == f.imgno && l.format_indicator == f.f->fmt && l.VISs_indicator == f.f->viss && l.VISn_indicator == f.f->visn && l.IR_indicator == f.f->ir && l.WV_indicator == f.f->wv && l.grid_indicator == f.grid && l.encryption_indicator == f.enc && l.scan_direction_indicator == f.dir && l.key_number_VIS_s_indicator == f.label[20] && l.key_number_VIS_n_indicator == f.label[21] && l.key_number_IR_indicator == f.label[22] && l.key_number_WV_indicator == f.label[23], "label", "the label of %s", f.f->code); VEXPECT(l.format_code() == f.f->code, "label-code", "%s, not %s", l.format_code().c_str(), f.f->code);
        auto ib = own(f.ident, 48); HRI_subframe_identification d(ib.get()); VEXPECT(d.satellite == f.sat->name && d.year == f.year && d.month == f.month && d.day == f.day && d.julian_day == f.jday && d.hour == f.hour && d.minute == f.minute && d.nominal_time == f.hour * 100 + f.minute && d.column_offset == f.col && d.line_offset == f.line && d.longitude == f.lon, "identification", "%s %d-%d-%d %d:%d", d.satellite.c_str(), d.year, d.month, d.day, d.hour, d.minute); VEXPECT(d.is_Meteosat() == (f.sat->b0 != 0) && d.is_GOES_E() == !strcmp(f.sat->name, "GOES-E") && d.is_GOES_W() == !strcmp(f.sat->name, "GOES-W") && d.is_GMS() == !strcmp(f.sat->name, "GMS") && d.is_GOMS() == !strcmp(f.sat->name, "GOMS"), "identification", "what satellite %s is", f.sat->name);
        auto pb = own(f.inter, 1360); std::unique_ptr<HRI_subframe_interpretation> i(new HRI_subframe_interpretation(pb.get())); for (auto& x : FIELDS) VEXPECT(same(x.get(*i), f.v[x.name], x.kind), "interpretation", "%s at %d is %.17g, not %.17g", x.name, x.off, x.get(*i), f.v[x.name]); VEXPECT(std::string(i->mesg.admin_message, strnlen(i->mesg.admin_message, 800)) == f.msg, "message", "the administrative message differs"); std::ostringstream o; o << *i; std::string t = o.str(); for (auto& x : FIELDS) if (*x.label) VEXPECT(has(t, std::string("\n") + x.label + str(x.get(*i), x.kind) + "\n"), "dump", "the dump has no '%s%s'", x.label, str(x.get(*i), x.kind).c_str());
        obs("part", fmt("%s %s %s", f.f->code, f.sat->name, getenv("TZ"))); obs("month", fmt("%d %s", f.month, leap(f.year) ? "leap" : ""));
    }
}
static std::string outcome(const std::string& path, bool tec, Hri* used = nullptr) {
    try { std::unique_ptr<Hri> own(used ? nullptr : new Hri()); Hri* h = used ? used : own.get(); h->readfrom((char*)path.c_str(), tec); std::ostringstream o; o << *h; uint64_t s = 0; for (int i = 0; i < h->nimages; ++i) { HRI_image& m = h->image[i]; unsigned char* p = m.get_image(); for (int k = 0; k < m.npixels * m.nlines; ++k) s = s * 31 + p[k]; float* c = m.get_calibration(); for (int k = 0; k < 256; ++k) { char t[32]; snprintf(t, 32, "%g ", c[k]); o << t; } } return "ok " + std::to_string(s) + h->get_format() + h->get_satellite_name() + o.str(); }
    catch (std::exception& e) { VEXPECT(*e.what(), "empty-error", "an error without text"); return std::string("refused ") + e.what(); } catch (...) { viol("foreign-exception", "an exception that is no std::exception"); return "refused"; }
}
static void damaged(uint64_t, Rng& r) {
    static const char* K[] = { "none", "truncate", "header", "label", "sync", "id", "satellite", "format", "erase", "insert", "noise", "tecnavia-or-not", "time" }; File f; File g; pick(r, g, false); build(r, g); write_file("first.hri", g.bytes); bool first = g.tec; static Hri used; pick(r, f, r.chance(0.04)); build(r, f);
    for (int k = 0; k < 5; ++k) {
        std::string b = f.bytes, what; bool tec = f.tec; size_t h0 = f.frame0[0]; for (int n = r.chance(0.7) ? 1 : 2; n-- > 0;) { int q = r.below(13); what += std::string(what.empty() ? "" : "+") + K[q]; auto at = [&](size_t o, char c) { if (h0 + o < b.size()) b[h0 + o] = c; }; switch (q) {
            case 1: b.resize(r.chance(0.5) ? r.below(std::min<size_t>(b.size() + 1, 6000)) : r.chance(0.3) ? b.size() - std::min<size_t>(b.size(), 1 + r.below(3)) : r.below(b.size() + 1)); break; case 2: for (int i = 1 + r.below(100); i-- > 0;) at(r.below(2900), (char)r.below(256)); break; case 3: at(4 + r.below(24), (char)r.below(256)); break; case 4: { size_t o = r.pick(f.frame0) + r.below(3); if (r.chance(0.5) && o < b.size()) b[o] ^= 0xFF; else { o = f.frame0[r.below(f.frame0.size())]; for (int i = 0; i < 3; ++i) if (o + i < b.size()) b[o + i] = (char)r.below(256); } break; } case 5: at(3, r.chance(0.5) ? (b[h0 + 3 < b.size() ? h0 + 3 : 0] == 48 ? 112 : 48) : (char)r.below(256)); break; case 6: at(36, (char)r.below(256)); at(37, (char)r.below(256)); break; case 7: at(16, r.pick(std::vector<char>{ 0, (char)255, 15, 1 })); for (int i = 17; i < 21; ++i) at(i, r.pick(std::vector<char>{ 0, (char)255, 15, (char)240 })); break;
            case 8: if (!b.empty()) b.erase(r.below(b.size()), 1 + r.below(800)); break; case 9: b.insert(r.below(b.size() + 1), std::string(1 + r.below(800), (char)r.below(256))); break; case 10: { size_t n2 = r.below(9000); b.resize(n2); for (auto& c : b) c = (char)r.below(256); break; } case 11: tec = !tec; break; case 12: for (int i = 38; i < 44; ++i) at(i, (char)r.below(256)); break; } }
        write_file("d.hri", b); note(what); int fd = count_fds(); vf_fill = 0xAA; smear(0xAA); std::string x = outcome("d.hri", tec); vf_fill = 0; smear(0); std::string y = outcome("d.hri", tec); VEXPECT(x == y, "uninitialised", "%s %s: what reading gives depends on unwritten memory: '%.80s' / '%.80s'", f.f->code, what.c_str(), x.c_str(), y.c_str()); VEXPECT(count_fds() == fd, "descriptors", "%s: a descriptor is left open", what.c_str()); if (what == "none") VEXPECT(x[0] == 'o', "valid-refused", "%s", x.c_str()); if (b.size() < f.bytes.size() && what == "truncate") VEXPECT(x[0] == 'r', "truncated-read", "%s%s: %zu bytes of %zu are read as a whole image", f.f->code, tec ? " (Tecnavia)" : "", b.size(), f.bytes.size()); if (what == "id" && b[h0 + 3] != f.bytes[h0 + 3]) VEXPECT(x[0] == 'r', "frame-id", "%s with frame id %d is read", f.f->code, (unsigned char)b[h0 + 3]);
        if (r.chance(0.4)) { Hri* h = &used; try { h->readfrom((char*)"first.hri", first); } catch (std::exception& e) { viol("valid-refused", e.what()); } std::string z = outcome("d.hri", tec, h); VEXPECT(z == x, "history", "%s %s: an object that has read another file gives '%.80s', a new one '%.80s'", f.f->code, what.c_str(), z.c_str(), x.c_str()); }
        obs("damage", what); obs("read", x[0] == 'o' ? "ok" : x.substr(0, 60));
        if (k == 0) { size_t a = heap(); for (int i = 0; i < 2; ++i) outcome("d.hri", tec); VEXPECT(heap() < a + 1000, "leak", "%s: %zu bytes more after two reads", what.c_str(), heap() - a); std::unique_ptr<Hri> h(new Hri()); auto again = [&]() { try { h->readfrom((char*)"d.hri", tec); } catch (std::exception&) { } }; again(); a = heap(); again(); again(); VEXPECT(heap() < a + 1000, "leak", "%s: %zu bytes more after reading into the same object twice", what.c_str(), heap() - a); }
    }
    std::string n = outcome("missing.hri", false), d = outcome(".", r.chance(0.5)); VEXPECT(n[0] == 'r' && d[0] == 'r', "missing-file", "reading a missing file or a directory succeeds");
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough;
    add_group("small", t ? 1200 : 56, 4, 90, small); add_group("large", t ? 120 : 12, 1, 180, large); add_group("parts", t ? 2000 : 120, 15, 60, parts); add_group("damaged", t ? 3000 : 160, 5, 120, damaged);
    return run_all();
}
