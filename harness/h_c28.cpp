// C28: OpenMTP files, written by an encoder of its own
#include "common.h"
#include "toolutil.h"
#include "openmtpfile.h"
#include <msat/openmtp/OpenMTP.h>
#include <sstream>
#include <memory>
#include <stdexcept>
using namespace vf; using std::string; using std::vector;
extern unsigned char vf_fill;
using namespace mt;
static const char* what(const char* k, int i) { static string s; s = fmt("%s %d", k, i); return s.c_str(); }
#define EQ(name, got, want) VEXPECT(same(double(got), double(want)), name, "%s is %.17g, not %.17g (%s)", name, double(got), double(want), ctx)
static void header(OpenMTP_binary_header& b, const Mtp& m, const char* ctx) {
    const string& h = m.h; bool rect = i4(h, 36) > 3;
    auto text = [&](const char* n, const char* g, size_t o, size_t len) { string w = h.substr(o, len); w = w.c_str(); VEXPECT(w == g, n, "%s is '%s', not '%s' (%s)", n, g, w.c_str(), ctx); };
    text("field name", b.field_name(), 0, 8); text("satellite", b.satellite_name(), 32, 2); text("rectification", b.rectification_method_name(), 72, 15); text("index", b.phenomena_index(), 115, 8); text("missing lines", b.missing_line_table(), 155, 2500); text("missing VISn lines", b.missing_line_table_VISn(), 2655, 2500);
#define I4(f, o) EQ(#f, b.f(), i4(h, o))
    I4(year, 8); I4(jday, 12); I4(slot, 16); I4(dtype, 20); I4(date, 24); I4(time, 28); I4(proc, 36); I4(chan, 40); I4(header_2_record_size, 60); I4(image_line_record_size, 64); I4(offset_first_pixel_in_line, 68); I4(deformation_model, 87); I4(resampling_method, 91); I4(origin, 111); I4(first_line, 123); I4(first_pixel, 127); I4(nlines, 131); I4(npixels, 135); I4(image_quality, 5155); I4(ngridpoints_deformation_matrix, 7811); I4(grid_deformation_start, 7815); I4(grid_deformation_end, 7819); I4(grid_deformation_step, 7823); I4(number_corrected_channels, 96027); I4(chid_first_corrected, 96031);
#define FL(f, o, v) EQ(#f, b.f(), i4(h, o) == v)
    FL(is_no_data_slot, 16, 0); FL(is_normal_slot, 16, 1); FL(is_special_slot, 16, 2); FL(is_raw_data, 36, 0); FL(is_ir_processed, 36, 1); FL(is_vis_processed, 36, 2); FL(is_wv_processed, 36, 3); FL(is_rectified_to_next_neighbour, 36, 5); EQ("is_rectified", b.is_rectified(), rect); FL(is_no_data, 40, 0); FL(is_VISs_data, 40, 1); FL(is_VISn_data, 40, 2); FL(is_visible_composite, 40, 3); FL(is_ir1_data, 40, 4); FL(is_ir2_data, 40, 5); FL(is_wv1_data, 40, 6); FL(is_wv2_data, 40, 7); int c = i4(h, 40); EQ("is_vis_data", b.is_vis_data(), c >= 1 && c <= 3); EQ("is_ir_data", b.is_ir_data(), c == 4 || c == 5); EQ("is_wv_data", b.is_wv_data(), c == 6 || c == 7);
    FL(is_deformation_none, 87, 0); FL(is_deformation_batch, 87, 1); FL(is_deformation_realtime, 87, 2); FL(is_resampling_none, 91, 0); FL(is_resampling_nearest_neighbour, 91, 1); FL(is_resampling_splines_4x4, 91, 2); FL(is_south_east, 111, 0); FL(is_north_east, 111, 1); FL(is_north_west, 111, 2); FL(is_south_west, 111, 3); FL(is_image_quality_nominal, 5155, 0); FL(is_image_attitude_unknown, 5155, 1); FL(is_image_orbit_unknown, 5155, 2); FL(is_image_horizon_incomplete, 5155, 3); FL(is_image_deformation_not_calculated, 5155, 4); FL(is_image_RADOPOS_LID_inconsistent, 5155, 5); FL(is_image_HR_not_interpreted, 5155, 6);
    EQ("subsatellite_point", b.subsatellite_point(), f4(h, 95)); auto dig = [&](size_t o) { return h[o] == ' ' ? 0 : h[o] - '0'; }; double cc = 0; for (int i = 0; i < 5; ++i) cc += dig(44 + i) * pow(10, -1 - i); VEXPECT(fabs(b.mpef_calibration_coefficient() - cc) < 1e-6, "coefficient", "%.9g, not %.9g", b.mpef_calibration_coefficient(), cc); double sc = dig(49) * 10 + dig(50) + dig(51) * 0.1; VEXPECT(fabs(b.mpef_calibration_space_count() - sc) < 1e-5, "space count", "%.9g, not %.9g", b.mpef_calibration_space_count(), sc); EQ("calibration day", b.mpef_calibration_day(), dig(52) * 100 + dig(53) * 10 + dig(54)); EQ("calibration slot", b.mpef_calibration_slot(), dig(55) * 10 + dig(56));
    for (int i = 0; i < 2500; ++i) { if (b.is_line_present(i) != (h[155 + i] != 0) || b.is_line_present_VISn(i) != (h[2655 + i] != 0)) { viol("line present", fmt("line %d (%s)", i, ctx)); break; } } evals(5000);
    if (!rect) {
        I4(urect_nominal_end_time, 5175); I4(urect_processing_performed, 5179); FL(is_urect_raw_data, 5179, 0); FL(is_urect_preprocessed_data, 5179, 1); I4(urect_special_output, 5183); FL(is_urect_special_output_no_data, 5183, 0); FL(is_urect_special_output_VISs_IR_WV, 5183, 1); FL(is_urect_special_output_VISn, 5183, 2); FL(is_urect_special_output_VISs_VISn, 5183, 3); I4(urect_radiometer_refpos, 5187); I4(urect_refpos_line_number, 5191);
#define I2(f, o) EQ(#f, b.f(), i2(h, o))
#define AR(f, o, n, get, step) do { auto* p = b.f(); for (int i = 0; i < n; ++i) EQ(what(#f, n > 60 ? 0 : i), p[i], get(h, o + step * i)); } while (0)
        I2(urect_scanning_law, 5195); I2(urect_number_of_received_subimage, 5197); AR(urect_first_line_in_subimage, 5199, 20, i2, 2); AR(urect_nlines_in_subimage, 5239, 20, i2, 2); AR(urect_curr_decoded_rad_pos_of_first_line_in_subimage, 5279, 20, i2, 2); AR(urect_raw_image_histogram, 5319, 256, i4, 4); AR(urect_raw_image_histogram_VISn, 6343, 256, i4, 4);
#define F8(f, o) EQ(#f, b.f(), f8(h, o))
        F8(urec_start_image, 7367); F8(urec_end_image, 7375); AR(urec_orbit_coord_in_geoframe_start, 7383, 6, f8, 8); AR(urec_orbit_coord_in_geoframe_end, 7431, 6, f8, 8); AR(urec_cartesian_attitude_start, 7479, 3, f4, 4); AR(urec_cartesian_attitude_end, 7491, 3, f4, 4); AR(urec_horizon_information, 7503, 12, i2, 2); F8(urec_time_of_first_pixel, 7527); AR(urec_status_flags, 7559, 16, [](const string& s, size_t o) { return s[o] != 0; }, 1);
#define OK(f, o) EQ(#f, b.f(), h[o] != 0)
        OK(is_urec_horizon_analysis_ok, 7559); OK(is_urec_spin_speed_fit_ok, 7560); OK(is_urec_orbit_offset_vector_fit_ok, 7561); OK(is_urec_pixel_resampling_rate_fit_ok, 7562); OK(is_urec_attitude_refinement_ok, 7563); OK(is_urec_automatic_landmark_ok, 7564); OK(is_urec_actual_image_movement_fit_ok, 7565); OK(is_urec_calculation_of_deformation_ok, 7566); OK(is_urec_geometrical_LPEF_ok, 7567); OK(is_urec_rectification_segmentation_ok, 7568); OK(is_urec_amplitude_processing_ok, 7569);
        I2(urec_ir_channel_in_use, 7575); I2(urec_radiometer_step_offset_start, 7577); AR(urec_horizon_limit_information, 7579, 12, i2, 2); AR(urec_times_of_horizon_scan_lines, 7603, 2, f8, 8); I2(urec_radiometer_step_south, 7619); I2(urec_radiometer_step_north, 7621); EQ("urec_rmid", b.urec_rmid(), f4(h, 7623)); F8(urec_tmid, 7627); F8(urec_distance_es, 7635); F8(urec_cone_angle_beta_south_obs, 7643); F8(urec_cone_angle_beta_north_obs, 7651); F8(urec_cone_angle_beta_south_exp, 7659); F8(urec_cone_angle_beta_north_exp, 7667); F8(urec_etas, 7675); F8(urec_etan, 7683); F8(urec_betasn, 7691); F8(urec_betann, 7699); F8(urec_step_parameter_F0_old, 7707); F8(urec_step_parameter_F1_old, 7715); F8(urec_step_parameter_F0_new, 7723); F8(urec_step_parameter_F1_new, 7731); F8(urec_spin_deviation_fit_const, 7755); F8(urec_spin_deviation_fit_linear, 7763); F8(urec_spin_deviation_fit_quad, 7771); F8(urec_standard_deviation_spin_fit, 7779); F8(urec_maximum_deviation_spin_fit, 7787);
    }
    AR(deformation_matrix_x, 7827, 11025, f4, 4); AR(deformation_matrix_y, 51927, 11025, f4, 4); AR(line_geometric_correction_EW_1, 96035, 3030, f4, 4); AR(line_geometric_correction_NS_1, 108155, 3030, f4, 4); AR(line_radiometric_correction_offset_1, 120275, 3030, f4, 4); AR(line_radiometric_correction_gain_1, 132395, 3030, f4, 4);
    if (m.vis) { I4(chid_second_corrected, 144515); AR(line_geometric_correction_EW_2, 144519, 3030, f4, 4); AR(line_geometric_correction_NS_2, 156639, 3030, f4, 4); AR(line_radiometric_correction_offset_2, 168759, 3030, f4, 4); AR(line_radiometric_correction_gain_2, 180879, 3030, f4, 4); }
    obs("kind", fmt("%s channel %d rectified %d", h.substr(32, 2).c_str(), c, rect));
}
static void table(const float* cal, const Mtp& m, const char* ctx) {
    const string& h = m.h; auto dig = [&](size_t o) { return h[o] == ' ' ? 0 : h[o] - '0'; }; double cc = 0; for (int i = 0; i < 5; ++i) cc += dig(44 + i) * pow(10, -1 - i); double sc = dig(49) * 10 + dig(50) + dig(51) * 0.1; int c = i4(h, 40); bool m7 = h.substr(32, 2) == "M7";
    for (int i = 0; i < 256; ++i) { double want = 1; bool skip = false; if (m7 && c >= 1 && c <= 3) want = 100.0 * i / 255; else if (m7 && c >= 4 && c <= 7) { if (fabs(i - sc) < 1e-4) skip = true; double rad = i < sc ? 0 : cc * (i - sc), a = c < 6 ? 1255.5465 : 2233.4882, k = c < 6 ? 6.9618 : 9.2477; want = rad <= 0 ? 0 : -a / (log(rad) - k); if (fabs(want) > 1e5) skip = true; } VEXPECT(skip || fabs(cal[i] - want) <= 2e-4 * fabs(want) + 1e-5, "calibration", "count %d is %.9g, not %.9g (coefficient %.9g, space %.9g, channel %d, %s)", i, cal[i], want, cc, sc, c, ctx); }
}
static void compare(OpenMTP& o, const Mtp& m, const char* ctx) {
    const string& h = m.h; int c = i4(h, 40); EQ("nlines", o.nlines(), m.nl); EQ("npixels", o.npixels(), m.np); EQ("bits", o.bits_per_pixel(), 8); EQ("is_ir", o.is_ir_data(), c == 4 || c == 5); EQ("is_wv", o.is_wv_data(), c == 6 || c == 7); EQ("is_vis", o.is_vis_data(), c >= 1 && c <= 3); EQ("subsatellite", o.subsatellite_point(), f4(h, 95));
    bool irwv = c >= 4 && c <= 7; bool fa = (irwv && m.nl == 2500 && m.np == 2500) || (c == 3 && m.nl == 5000 && m.np == 5000), fb = (irwv && m.nl == 625 && m.np == 1250 && i4(h, 123) == 1810) || (c == 3 && m.nl == 1250 && m.np == 2500 && i4(h, 123) == 3620); EQ("A format", o.is_A_format(), fa); EQ("B format", o.is_B_format(), fb); EQ("subwindow", o.is_subwindow(), !fa && !fb);
    const unsigned char* p = o.get_image(); for (int i = 0; i < m.nl; ++i) if (memcmp(p + (size_t)i * m.np, m.rows[i].data(), m.np)) { viol("image", fmt("line %d of %d x %d (%s)", i, m.nl, m.np, ctx)); break; } evals(m.nl); table(o.get_calibration(), m, ctx);
    string code = h.substr(32, 2); VEXPECT(code == o.get_satellite_code(), "satellite", "%s", o.get_satellite_code()); if (code == "M7" || code == "M6") VEXPECT(string("METEOSAT ") + code[1] == o.get_satellite_name(), "satellite", "%s is %s", code.c_str(), o.get_satellite_name()); if (c >= 1 && c <= 7) { string n = o.get_chname(), u = o.get_chunit(); VEXPECT(n == (c < 4 ? "VIS" : c < 6 ? "IR" : "WV") && u == (c < 4 ? "%" : "K"), "channel", "%d is %s in %s", c, n.c_str(), u.c_str()); } string fn = h.substr(1, 7); VEXPECT(fn == o.get_field_name(), "field name", "%s", o.get_field_name());
    int d = i4(h, 24) % 10000, t = i4(h, 28), y = i4(h, 8); string ts = fmt("%04d%04d_%04d", y, d, t); VEXPECT(ts == o.get_timestr(), "time", "%s, not %s", o.get_timestr(), ts.c_str()); struct tm& tm = o.get_datetime(); VEXPECT(tm.tm_year == y - 1900 && tm.tm_mon == d / 100 - 1 && tm.tm_mday == d % 100 && tm.tm_hour == t / 100 && tm.tm_min == t % 100, "time", "%04d-%02d-%02d %02d:%02d for %s", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, ts.c_str()); string full = fmt("%04d-%02d-%02d %02d:%02d:", y, d / 100, d % 100, t / 100, t % 100); VEXPECT(full == string(o.get_datatimestr()).substr(0, full.size()), "time", "%s", o.get_datatimestr()); EQ("orbit radius", o.orbit_radius(), 42164.0);
}
static void printed(const string& s, const Mtp& m, const char* ctx) {      // the lines of the report
    const string& h = m.h; std::istringstream in(s); std::map<string, string> v; string l; size_t n = 0, px = 0; while (std::getline(in, l)) { ++n; size_t t = l.find('\t'); if (t == string::npos) continue; string k = l.substr(0, t); while (!k.empty() && k.back() == ' ') k.pop_back(); size_t e = l.find_last_of('\t'); if (k.compare(0, 7, "Pixel (") == 0) ++px; v[k] = l.substr(e + 1); }
    auto chk = [&](const string& k, double want, bool f = true) { auto i = v.find(k); bool ok = i != v.end() && (fabs(atof(i->second.c_str()) - want) <= 1e-5 * fabs(want) + 1e-30 || std::isnan(want) || (std::isinf(want) && same(atof(i->second.c_str()), want)) || fabs(want) < 1e-37); VEXPECT(ok, "report", "%s is printed as '%s', not %.9g (%s)", k.c_str(), i == v.end() ? "nothing" : i->second.c_str(), want, ctx); };
    chk("Year", i4(h, 8)); chk("Jday", i4(h, 12)); chk("Slot", i4(h, 16)); chk("Dtype", i4(h, 20)); chk("Date", i4(h, 24)); chk("Time", i4(h, 28)); chk("Proc", i4(h, 36)); chk("Rec2siz", i4(h, 60)); chk("Lrecsize", i4(h, 64)); chk("Loffset", i4(h, 68)); chk("Dmmod", i4(h, 87)); chk("Rsmet", i4(h, 91)); chk("Ssp", f4(h, 95)); chk("Origin", i4(h, 111)); chk("Line1", i4(h, 123)); chk("Pixel1", i4(h, 127)); chk("Nlines", m.nl); chk("Npixels", m.np); chk("Imgqua", i4(h, 5155)); chk("Ndgrp", i4(h, 7811)); chk("Dmstrt", i4(h, 7815)); chk("Dmend", i4(h, 7819)); chk("Dmstep", i4(h, 7823)); chk("Ncor", i4(h, 96027)); chk("Chid1", i4(h, 96031)); for (int j = 0; j < 105; ++j) for (int i = 0; i < 105; i += 26) { chk(fmt("Defmax (%d,%d)", j + 1, i + 1), f4(h, 7827 + (j * 105 + i) * 4)); chk(fmt("Defmay (%d,%d)", j + 1, i + 1), f4(h, 51927 + (j * 105 + i) * 4)); }
    for (int i = 0; i < 3030; i += 101) { chk(fmt("Ewgeo1 %d", i), f4(h, 96035 + 4 * i)); chk(fmt("Nsgeo1 %d", i), f4(h, 108155 + 4 * i)); chk(fmt("Roff1 %d", i), f4(h, 120275 + 4 * i)); chk(fmt("Rgain1 %d", i), f4(h, 132395 + 4 * i)); if (m.vis) { chk(fmt("Ewgeo2 %d", i), f4(h, 144519 + 4 * i)); chk(fmt("Nsgeo2 %d", i), f4(h, 156639 + 4 * i)); chk(fmt("Roff2 %d", i), f4(h, 168759 + 4 * i)); chk(fmt("Rgain2 %d", i), f4(h, 180879 + 4 * i)); } }
    if (i4(h, 36) <= 3) { for (int i = 0; i < 256; ++i) { chk(fmt("Hist1 %d", i), i4(h, 5319 + 4 * i)); chk(fmt("Hist2 %d", i), i4(h, 6343 + 4 * i)); } chk("Hortim South", f8(h, 7603)); chk("Hortim North", f8(h, 7611)); chk("Timef", f8(h, 7367)); chk("Tmid", f8(h, 7627)); chk("Int", i4(h, 5175)); chk("Lb0", i2(h, 5195)); for (int i = 0; i < 20; ++i) { chk(fmt("Fls %d", i), i2(h, 5199 + 2 * i)); chk(fmt("Nsl %d", i), i2(h, 5239 + 2 * i)); } }
    VEXPECT(px == (size_t)m.nl * m.np || (m.nl > 0 && m.np > 0 && px == (size_t)m.nl * m.np), "report", "%zu pixels are printed instead of %d", px, m.nl * m.np);
}
struct Quiet { std::streambuf *a, *b; std::ostringstream o, e; Quiet() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(e.rdbuf()); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
static bool rd(OpenMTP& o, const string& path, string* why = nullptr) { Quiet q; string p = path; try { o.open(&p[0]); return true; } catch (std::exception& e) { if (why) *why = e.what(); return false; } catch (const char* e) { if (why) *why = e; return false; } }
static string f() { return cfg().scratch + fmt("/m.%d", (int)getpid()); }
static void good(Rng& r) {
    Mtp m = make(r), last; string p = f(); write_file(p, m.file() + (r.chance(0.2) ? bytes(r, r.below(100)) : "")); int fd = count_fds(); vf_fill = r.chance(0.5) ? 0xAA : 0x55;
    { std::unique_ptr<OpenMTP> o(new OpenMTP); string why; if (!rd(*o, p, &why)) { viol("readable", why); return; } compare(*o, m, "fresh"); if (m.nl * m.np < 20000 && r.chance(0.4)) { std::ostringstream s; s << *o; printed(s.str(), m, "stream"); VEXPECT(s.str().compare(0, A, m.ascii) == 0, "report", "the text header is not printed"); }
      for (int k = r.below(3); k-- > 0;) { Mtp n = make(r); write_file(p, n.file()); if (!rd(*o, p, &why)) { viol("readable", why); return; } compare(*o, n, "read again"); m = n; } }
    { OpenMTP_binary_header b; std::ifstream in(p, std::ios::binary); in.seekg(A); try { b.read(in); header(b, m, "header"); const char* ctx = "header"; EQ("position", (long)in.tellg(), A + m.h.size()); } catch (std::exception& e) { viol("readable", e.what()); } }
#undef EQ
#define EQ(name, got, want) VEXPECT(same(double(got), double(want)), name, "%s is %.17g, not %.17g", name, double(got), double(want))
    { std::ifstream in(p, std::ios::binary); in.seekg(A + m.h.size()); OpenMTP_image_line l; for (int i = 0; i < m.nl && i < 5; ++i) { l.read(in, m.np); EQ("slot number", l.slot_number(), i4(m.heads[i], 0)); EQ("line number", l.line_number(), i4(m.heads[i], 4)); EQ("errps", l.errps(), i2(m.heads[i], 8)); EQ("radpos", l.radpos(), i2(m.heads[i], 10)); EQ("radpos_start", l.radpos_start(), i2(m.heads[i], 30)); VEXPECT(!memcmp(l.linevals(), m.rows[i].data(), m.np), "line", "line %d differs", i); } }
    VEXPECT(count_fds() == fd, "descriptors", "%d descriptors open, %d before", count_fds(), fd); obs("size", fmt("%d x %d", m.nl > 600 ? m.nl : m.nl / 6, m.np > 600 ? m.np : m.np / 50)); sample(fmt("%d lines of %d pixels, channel %d", m.nl, m.np, i4(m.h, 40))); unlink(p.c_str());
}
static void damaged(Rng& r) {
    string p = f(); for (int k = 0; k < 6; ++k) { Mtp m = make(r); if (m.nl > 600) { m.nl = 20; m.rows.resize(20); m.heads.resize(20); pb(m.h, 131, 20, 4); } string s = m.file(); int how = r.below(6); bool whole = true; if (how == 0) { s.resize(r.chance(0.3) ? A + m.h.size() + r.below(s.size() - A - m.h.size() + 1) : r.below(s.size())); whole = s.size() == m.file().size(); } else if (how == 1) { static const int V[] = { -1, INT32_MIN, INT32_MAX, 5001, 5033, 10000, 65536, 0x40000000, 46341, -5000, 0 }; if (r.chance(0.7)) pb(s, A + 131, V[r.below(11)], 4); if (r.chance(0.7)) pb(s, A + 135, V[r.below(11)], 4); } else if (how == 2) { for (int i = 1 + r.below(8); i-- > 0;) s[r.chance(0.5) ? A + r.below(160) : r.below(s.size())] = (char)r.u64(); } else if (how == 3) { s = bytes(r, r.below(300000)); } else if (how == 4) { pb(s, A + 40, 3, 4); } else { for (int i = 44; i < 57; ++i) s[A + i] = (char)r.u64(); }
        write_file(p, s); string got[2]; bool ok[2]; int fd = count_fds(); for (int w = 0; w < 2; ++w) { vf_fill = w ? 0xAA : 0x11; std::unique_ptr<OpenMTP> o(new OpenMTP); string why; ok[w] = rd(*o, p, &why); if (ok[w]) { int nl = o->nlines(), np = o->npixels(); VEXPECT(nl >= 0 && np >= 0 && (size_t)nl * (np + 32) <= s.size(), "damaged", "%d x %d pixels are read from %zu bytes", nl, np, s.size()); if (nl > 0 && np > 0 && (size_t)nl * np < 300000) got[w].assign((char*)o->get_image(), (size_t)nl * np); got[w].append((char*)o->get_calibration(), 1024); std::ostringstream t; if (r.chance(0.15) && nl * np < 20000) { t << *o; evals(t.str().size()); } o->get_timestr(); o->get_datatimestr(); o->get_field_name(); o->is_subwindow(); } else { VEXPECT(!why.empty(), "damaged", "an error says nothing"); } if (r.chance(0.5)) { Mtp n = make(r); if (n.nl < 600) { string q = p + ".2"; write_file(q, n.file()); if (!rd(*o, q, &why)) viol("readable", "after a bad file: " + why); else compare(*o, n, "after a bad file"); unlink(q.c_str()); } } }
        VEXPECT(ok[0] == ok[1] && got[0] == got[1], "damaged", "the result depends on memory that was never written"); VEXPECT(count_fds() == fd, "descriptors", "descriptors are left open"); if (!whole) VEXPECT(!ok[0], "damaged", "a file cut to %zu bytes is read", s.size()); obs("damaged", fmt("%d %d", how, ok[0])); }
    OpenMTP o; string why; VEXPECT(!rd(o, "/nonexistent/file", &why), "damaged", "a missing file is read"); unlink(p.c_str());
}
static void tool(Rng& r) {
    string p = f() + ".in"; Mtp m = make(r); while (m.nl * m.np > 20000) m = make(r); string s = m.file(); bool bad = r.chance(0.4); if (bad) s.resize(r.below(s.size())); write_file(p, s); vt::Out o = vt::run("OMTPINFO", { p }); VEXPECT(!o.crashed(), "tool", "crashes: %s", o.err.substr(0, 300).c_str()); VEXPECT((o.status == 0) == !bad, "tool", "status %d for a %s file", o.status, bad ? "bad" : "good"); if (!bad && o.status == 0) { size_t i = o.out.find(m.ascii); if (i == string::npos) viol("tool", "the text header is not printed"); else printed(o.out.substr(i), m, "tool"); } if (r.chance(0.2)) { vt::Out q = vt::run("OMTPINFO", {}); VEXPECT(!q.crashed() && q.status != 0, "tool", "without a file: status %d", q.status); q = vt::run("OMTPINFO", { "/nonexistent" }); VEXPECT(!q.crashed() && q.status != 0, "tool", "with a missing file: status %d", q.status); } obs("tool", fmt("%d %d", bad, o.status)); unlink(p.c_str());
}
static void leaks(Rng& r) {
    string p = f() + ".l", q = p + "2"; Mtp m = make(r); while (m.nl < 20 || m.nl > 100) m = make(r); string s = m.file(); write_file(p, s); s.resize(A + m.h.size() + 40); write_file(q, s); size_t h0 = 0; int fd = count_fds(); for (int i = 0; i < 24; ++i) { if (i == 8) h0 = heap(); OpenMTP* o = new OpenMTP; rd(*o, p); if (i % 3 == 0) rd(*o, q); if (i % 4 == 0) rd(*o, p); delete o; } size_t h1 = heap(); VEXPECT(h1 < h0 + 4096, "leak", "the heap grows by %zu bytes in 16 readings", h1 - h0); VEXPECT(count_fds() == fd, "descriptors", "descriptors are left open"); unlink(p.c_str()); unlink(q.c_str()); obs("leaks", fmt("%d", m.nl / 10));
}
// the sizes and positions the formats are told apart by
static void formats(uint64_t idx, Rng& r) {
    Mtp m = make(r); bool vis = idx % 2; while (m.vis != vis) m = make(r); if (!vis) pb(m.h, 40, r.chance(0.85) ? r.range(4, 7) : r.below(3), 4); int k = vis ? 2 : 1; bool a = idx % 8 == 0 || idx % 8 == 1; int nl = (a ? 2500 : 625) * k, np = (a ? 2500 : 1250) * k, first = r.chance(0.8) ? 1810 * k : 1810 * (3 - k); if (!a && r.chance(0.1)) first += r.chance(0.5) ? 1 : -1; if (r.chance(0.15)) nl += r.chance(0.5) ? 1 : -1; if (r.chance(0.1)) np += r.chance(0.5) ? 1 : -1; if (r.chance(0.05)) { nl = 1250; np = 2500; } if (r.chance(0.05)) { nl = 625; np = 1250; }
    nl = std::min(nl, 5000); np = std::min(np, 5000); m.nl = nl; m.np = np; pb(m.h, 123, first, 4); pb(m.h, 131, nl, 4); pb(m.h, 135, np, 4); m.rows.clear(); m.heads.clear(); string noise = bytes(r, np + 997); for (int i = 0; i < nl; ++i) { m.heads.push_back(string(32, (char)i)); m.rows.push_back(noise.substr(i % 997, np)); }
    string p = f() + ".f"; write_file(p, m.file()); { std::unique_ptr<OpenMTP> o(new OpenMTP); string why; if (!rd(*o, p, &why)) viol("readable", why); else { compare(*o, m, "formats"); obs("format", fmt("channel %d %s", i4(m.h, 40), o->is_A_format() ? "A" : o->is_B_format() ? "B" : "sub-window")); } } unlink(p.c_str());
}
int main(int argc, char** argv) {
    parse_args(argc, argv); bool T = cfg().thorough;
    add_group("good", T ? 8000 : 320, 8, 30, [](uint64_t, Rng& r) { good(r); });
    add_group("damaged", T ? 8000 : 240, 8, 30, [](uint64_t, Rng& r) { damaged(r); });
    add_group("formats", T ? 1000 : 96, 8, 60, formats);
    add_group("tool", T ? 1500 : 64, 8, 60, [](uint64_t, Rng& r) { tool(r); });
    add_group("leaks", T ? 400 : 24, 4, 60, [](uint64_t, Rng& r) { leaks(r); });
    return run_all();
}
