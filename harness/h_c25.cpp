// C25: the msat command, on lists of files of all kinds
#include "synth.h"
#include "vgmem.h"
#include "toolutil.h"
#include <sys/resource.h>
#include <algorithm>
#include <sstream>
using namespace xs; using namespace vf; using std::string; using std::vector; typedef std::map<string, string> Md;
struct Band { vector<double> v; double scale = 1, offset = 0, nodata = 0; bool hasnd = false; string desc, unit; Md md; GDALDataType type; };
struct In { string path, kind; bool opens = true, whole = true; int w = 0, h = 0; double gt[6]; bool geo = false; string wkt; Md md; vector<Band> b; };
static string root;
static Md mdof(GDALMajorObject* o) { Md m; for (char** s = o->GetMetadata(); s && *s; ++s) { string t = *s; size_t e = t.find('='); m[t.substr(0, e)] = t.substr(e + 1); } return m; }
// what a file holds, through GDAL; pixels of a window
static bool load(In& in, bool pixels) {
    vg::DS d = vg::open(in.path); if (!d) return false; in.w = d->GetRasterXSize(); in.h = d->GetRasterYSize(); in.geo = d->GetGeoTransform(in.gt) == CE_None; in.wkt = d->GetProjectionRef() ? d->GetProjectionRef() : ""; in.md = mdof(d.get());
    for (int i = 1; i <= d->GetRasterCount(); ++i) { GDALRasterBand* r = d->GetRasterBand(i); Band b; b.type = r->GetRasterDataType(); int h = 0, q; b.nodata = r->GetNoDataValue(&h); b.hasnd = h; b.scale = r->GetScale(&q); b.offset = r->GetOffset(&q); b.desc = r->GetDescription(); b.unit = r->GetUnitType() ? r->GetUnitType() : ""; b.md = mdof(r); if (pixels) { b.v.resize((size_t)in.w * in.h); if (r->RasterIO(GF_Read, 0, 0, in.w, in.h, b.v.data(), in.w, in.h, GDT_Float64, 0, 0, nullptr) != CE_None) return false; } in.b.push_back(b); } return true;
}
static const vector<GDALDataType> TYPES = { GDT_Byte, GDT_UInt16, GDT_UInt16, GDT_Int16, GDT_Int32, GDT_UInt32, GDT_Float32, GDT_Float64 };
static string word(Rng& r) { static const char* W[] = { "IR_108", "VIS006", "alpha", "b.1", "10", "HRV", "two words", "!odd", "WV_062" }; return W[r.below(9)]; }
static In tif(Rng& r, const string& name, bool large) {
    In in; in.kind = large ? "large" : "tif"; in.path = root + "/in/" + name; int w = 1 + r.below(60), h = 1 + r.below(60), nb = 1 + r.below(4); if (large) { nb = 1; w = 200 + r.below(2500); h = r.chance(0.25) ? 1 + r.below(2) : 40 + r.below(60); if (h < 3) w += 2500; if (r.chance(0.5)) std::swap(w, h); } GDALDataType t = r.pick(TYPES);
    vg::DS d(GetGDALDriverManager()->GetDriverByName("MEM")->Create("", w, h, nb, t, nullptr)); if (r.chance(0.7)) { double g[6] = { r.real(-5e6, 5e6), vg::PS, 0, r.real(-5e6, 5e6), 0, -vg::PS }; d->SetGeoTransform(g); if (r.chance(0.8)) { OGRSpatialReference o = vg::geos(std::round(r.real(-60, 60))); d->SetSpatialRef(&o); } }
    for (int i = r.below(4); i-- > 0;) d->SetMetadataItem(fmt("KEY%d", i).c_str(), fmt("value %d", (int)r.below(100)).c_str());
    if (r.chance(0.7)) { static const char* T[] = { "2008-02-29 12:45:00", "2010-01-19 00:00:00", "1999-12-31 23:59:00", "2020/01/02 03:04", "../../2020 x" }; d->SetMetadataItem(MD_MSAT_DATETIME, T[r.below(r.chance(0.1) ? 5 : 3)]); } if (r.chance(0.7)) { static const char* I[] = { "55", "56", "57", "70", "3", "0x38", "abc" }; d->SetMetadataItem(MD_MSAT_SPACECRAFT_ID, I[r.below(7)]); } if (r.chance(0.7)) { static const char* N[] = { "MSG1", "MSG 2", "Meteosat 7", "a.b", "../../up", "/tmp/abs" }; d->SetMetadataItem(MD_MSAT_SPACECRAFT, N[r.below(r.chance(0.2) ? 6 : 4)]); }
    double nd = r.pick(vector<double>{ 0, 0, 17, 3 }); bool hn = r.chance(0.5), nan = t >= GDT_Float32 && hn && r.chance(0.3); if (nan) nd = NAN; bool cal = r.chance(0.5); double lim = t == GDT_Byte ? 250 : t == GDT_Int16 ? 32000 : t == GDT_UInt16 ? 65000 : 1e5;
    for (int i = 1; i <= nb; ++i) { GDALRasterBand* b = d->GetRasterBand(i); vector<double> v((size_t)w * h); double lo = r.real(0, lim / 2), hi = lo + 3 + r.real(0, lim / 2 - 4); bool steps = large; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double f = steps ? ((x / 16 + y / 16 * 3) % 4) / 3.0 : r.unit(); double q = lo + (hi - lo) * f; if (t <= GDT_Int32) q = std::floor(q); else q = (float)q - (nb > 2 ? 1000 : 0); v[(size_t)y * w + x] = q; } if (hn && !steps) for (auto& q : v) if (r.chance(0.1)) q = nd; if (b->RasterIO(GF_Write, 0, 0, w, h, v.data(), w, h, GDT_Float64, 0, 0, nullptr) != CE_None) viol("harness", "write"); if (hn) b->SetNoDataValue(nd); if (cal) { b->SetScale(r.real(0.01, 2)); b->SetOffset(r.real(-100, 100)); } if (r.chance(0.8)) b->SetDescription(word(r).c_str()); if (r.chance(0.5)) b->SetUnitType("K"); if (r.chance(0.6)) b->SetMetadataItem(MD_MSAT_CHANNEL, r.chance(0.1) ? "a/b" : word(r).c_str()); if (r.chance(0.6)) b->SetMetadataItem(MD_MSAT_CHANNEL_ID, fmt("%d", (int)r.below(15)).c_str()); if (r.chance(0.3)) b->SetMetadataItem("BKEY", fmt("bv %d", i).c_str()); if (name != "template.tif" && r.chance(0.4)) { double q[4]; b->ComputeStatistics(FALSE, q, q + 1, q + 2, q + 3, nullptr, nullptr); CPLErrorReset(); } }
    GDALDataset* o = GetGDALDriverManager()->GetDriverByName("GTiff")->CreateCopy(in.path.c_str(), d.get(), FALSE, nullptr, nullptr, nullptr); if (!o) { viol("harness", fmt("GTiff: %s", CPLGetLastErrorMsg())); in.opens = false; return in; } GDALClose(o); if (!load(in, true)) viol("harness", "reopen"); return in;
}
static In grib(Rng& r, const string& name) {
    In in; in.kind = "grib"; in.path = root + "/in/" + name; vg::Mem m; m.w = 10 + r.below(60); m.h = 10 + r.below(60); m.x0 = 1600 + r.below(300); m.y0 = 1600 + r.below(300); static const char* S[] = { "55", "56", "57" }; m.sat = S[r.below(3)]; m.chan = fmt("%d", 1 + (int)r.below(11)); m.has_nodata = false; for (int i = 0; i < m.w * m.h; ++i) m.v.push_back(i % 1000 + 1); vg::DS s = vg::mem(m); GDALDataset* o = GetGDALDriverManager()->GetDriverByName("MsatGRIB")->CreateCopy(in.path.c_str(), s.get(), FALSE, nullptr, nullptr, nullptr); if (!o) { viol("harness", fmt("GRIB: %s", CPLGetLastErrorMsg())); in.opens = false; return in; } GDALClose(o); if (!load(in, true)) viol("harness", "reopen GRIB"); return in;
}
static vector<Product> prods;
static In xrit(Rng& r, const string& name) {
    In in; in.kind = "xrit"; Product p = random_product(r, root + "/in/" + name, 1 + r.below(11), 1); p.seglines = 464; p.nsegs = 8; p.present.clear(); for (int i = 3; i <= 6; ++i) p.present.insert(i); p.lon = r.chance(0.5) ? 0 : 9.5; mkdir(p.dir.c_str(), 0755); write_product(p); prods.push_back(p); in.path = p.shortname()[0] == '/' ? p.shortname() : root + "/" + p.shortname(); if (!load(in, false)) viol("harness", fmt("%s: %s", in.path.c_str(), CPLGetLastErrorMsg())); return in;
}
static In bad(Rng& r, const string& name) {
    In in; in.opens = in.whole = false; in.path = root + "/in/" + name; switch (r.below(4)) { case 0: in.kind = "missing"; break; case 1: in.kind = "garbage"; { string s(r.below(3000), 0); for (auto& c : s) c = (char)(r.u64() | 0x80); write_file(in.path, s); } break; case 2: in.kind = "empty"; write_file(in.path, ""); break; default: in.kind = "no product"; in.path = root + "/in/H:MSG2:HRV:199901010000"; } return in;
}
struct Opt { string act, drv; vector<string> args; bool area = false, resize = false, cal = false, cmd = false, stretch = false; int x = 0, y = 0, w = 0, h = 0, ow = 0, oh = 0; double s0 = 0, s1 = 0; vector<string> bands; In tmpl; };
struct Want { bool ok = true, none = false; int x = 0, y = 0, w = 0, h = 0, ow = 0, oh = 0; vector<int> bands; string why; Md md; vector<Band> b; };
// what is to become of one file
static Want want(const In& in, const Opt& o) {
    Want w; auto no = [&](const char* why) { w.ok = false; w.why = why; return w; }; if (!in.opens) return no("bad file"); int n = in.b.size();
    if (!o.bands.empty()) { for (auto& s : o.bands) { bool num = !s.empty() && s.find_first_not_of("0123456789") == string::npos; if (num) { w.bands.push_back(s.size() > 9 ? 0 : atoi(s.c_str())); continue; } string t = s[0] == '!' ? s.substr(1) : s; for (int i = 0; i < n; ++i) if (in.b[i].desc == t) { w.bands.push_back(i + 1); break; } } if (w.bands.empty()) { w.none = true; return w; } } else for (int i = 1; i <= n; ++i) w.bands.push_back(i);
    for (int i : w.bands) if (i < 1 || i > n) return no("no such band");
    w.w = in.w; w.h = in.h; if (o.area) { w.x = o.x; w.y = o.y; w.w = o.w; w.h = o.h; if (w.x < 0 || w.y < 0 || w.w < 1 || w.h < 1 || w.x + w.w > in.w || w.y + w.h > in.h) return no("outside"); }
    w.ow = w.w; w.oh = w.h; if (o.resize) { w.ow = o.ow; w.oh = o.oh; if (w.ow < 1 || w.oh < 1) return no("no size"); } else if ((o.act == "jpg" || o.act == "png") && !o.area) { double f = std::max(1.0, std::max(in.w, in.h) / 1280.0); w.ow = std::max(1, (int)(in.w / f + 1e-9)); w.oh = std::max(1, (int)(in.h / f + 1e-9)); }
    if (o.cmd && !o.tmpl.opens) return no("no template"); if (o.act == "conv" && o.drv == "NoSuch") return no("no driver");
    w.md = in.md; for (int i : w.bands) w.b.push_back(in.b[i - 1]); if (o.cmd) { w.md = o.tmpl.md; for (size_t i = 0; i < w.b.size() && i < o.tmpl.b.size(); ++i) { w.b[i].md = o.tmpl.b[i].md; w.b[i].desc = o.tmpl.b[i].desc; } } return w;
}
static string esc(string s) { for (auto& c : s) if (c == ' ' || c == '.') c = '_'; return s; }
static string get(const Md& m, const char* k, const char* d) { auto i = m.find(k); return i == m.end() ? d : i->second; }
static string outname(const Want& w, int band) {      // -1: the whole
    int id = strtoul(get(w.md, MD_MSAT_SPACECRAFT_ID, "0").c_str(), nullptr, 10); bool sev = id == 55 || id == 56 || id == 57 || id == 70; string s = esc(get(w.md, MD_MSAT_SPACECRAFT, "unknown")) + (sev ? "_Seviri_" : "_unknown_"), t = get(w.md, MD_MSAT_DATETIME, "").substr(0, 16), u; for (char c : t) if (c == ' ') u += '_'; else if (c != '-' && c != ':') u += c;
    if (band < 0 && w.b.size() == 1) band = 0; if (band >= 0) { const Md& m = w.b[band].md; int c = strtoul(get(m, MD_MSAT_CHANNEL_ID, "99").c_str(), nullptr, 10); if (sev && c <= 12) s += "1_5_"; s += esc(get(m, MD_MSAT_CHANNEL, "")) + "_"; } s += u; for (auto& c : s) if (c == '/') c = '_'; return s;
}
static vector<string> words(const string& s, char sep) { vector<string> v; std::istringstream i(s); string t; while (std::getline(i, t, sep)) v.push_back(t); return v; }
static string trim(string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) ++i; return s.substr(i); }
static bool near(const string& t, double v, double tol = 1e-5) { char* e; double g = strtod(t.c_str(), &e); return e != t.c_str() && (fabs(g - v) <= tol * fabs(v) + 1e-9 || (std::isnan(g) && std::isnan(v))); }
// statistics that come with a band are those of its pixels
static void stats(const Md& m, const vector<double>& v, bool hasnd, double nodata, const char* line) {
    if (!m.count("STATISTICS_MINIMUM")) return; double lo = 1e300, hi = -1e300, s = 0; size_t n = 0; for (double q : v) { if (std::isnan(q) || (hasnd && q == nodata)) continue; lo = std::min(lo, q); hi = std::max(hi, q); s += q; ++n; } if (!n) return; auto g = [&](const char* k) { auto i = m.find(k); return i == m.end() ? NAN : atof(i->second.c_str()); }; double tol = 1e-5 * std::max(fabs(lo), fabs(hi)) + 1e-6;
    VEXPECT(fabs(g("STATISTICS_MINIMUM") - lo) <= tol && fabs(g("STATISTICS_MAXIMUM") - hi) <= tol && fabs(g("STATISTICS_MEAN") - s / n) <= tol, "statistics", "min %g max %g mean %g, but the pixels have %g %g %g (%s)", g("STATISTICS_MINIMUM"), g("STATISTICS_MAXIMUM"), g("STATISTICS_MEAN"), lo, hi, s / n, line); obs("statistics", "with the band"); }
static void view(const In& in, const Opt& o, const Want& w, const string& out, const char* line) {
    vector<string> L = words(out, '\n'); vector<vector<string>> part(1); for (auto& l : L) { if (l.compare(0, 11, "Raster band") == 0) part.emplace_back(); part.back().push_back(l); } if (!VEXPECT(part.size() == w.b.size() + 1, "view", "%d bands are shown instead of %d (%s)", (int)part.size() - 1, (int)w.b.size(), line)) return;
    auto field = [](const vector<string>& p, const char* k) { for (auto& l : p) { string t = trim(l); if (t.compare(0, strlen(k), k) == 0) return trim(t.substr(strlen(k))); } return string("(none)"); };
    auto& p = part[0]; VEXPECT(field(p, "Size:") == fmt("%dx%d", w.ow, w.oh), "view", "size %s, not %dx%d (%s)", field(p, "Size:").c_str(), w.ow, w.oh, line); VEXPECT(field(p, "Projection:") == in.wkt, "view", "projection %s (%s)", field(p, "Projection:").c_str(), line); string desc = field(p, "Dataset:"), wd = o.cmd ? o.tmpl.path : in.path; if (o.cmd || (!o.area && !o.resize && o.bands.empty())) VEXPECT(desc == wd || desc.find(wd.substr(wd.rfind('/') + 1)) != string::npos, "view", "dataset %s, not %s (%s)", desc.c_str(), wd.c_str(), line);
    double g[6] = { 0, 1, 0, 0, 0, 1 }; if (in.geo) { memcpy(g, in.gt, sizeof g); g[0] += w.x * g[1] + w.y * g[2]; g[3] += w.x * g[4] + w.y * g[5]; double fx = double(w.w) / w.ow, fy = double(w.h) / w.oh; g[1] *= fx; g[4] *= fx; g[2] *= fy; g[5] *= fy; } vector<string> nums; for (size_t i = 0; i < p.size(); ++i) if (p[i].compare(0, 12, "Geotransform") == 0) for (size_t j = i + 1; j < i + 3 && j < p.size(); ++j) for (auto& t : words(p[j], ',')) if (!trim(t).empty()) nums.push_back(trim(t)); bool ok = nums.size() == 6; for (int i = 0; ok && i < 6; ++i) ok = near(nums[i], g[i], 2e-5); VEXPECT(ok, "view", "geotransform is not %g %g %g %g %g %g (%s)", g[0], g[1], g[2], g[3], g[4], g[5], line);
    auto meta = [&](const vector<string>& q, const Md& m, const char* what) { std::set<string> have; bool on = false; for (auto& l : q) { string t = trim(l); if (t == "Metadata:") on = true; else if (t.compare(0, 10, "Metadata (") == 0 || t.compare(0, 11, "Pixel range") == 0) on = false; else if (on) have.insert(t); } std::set<string> must; for (auto& k : m) if (k.first.compare(0, 11, "STATISTICS_")) must.insert(trim(k.first + "=" + k.second)); for (auto& k : must) VEXPECT(have.count(k), "view", "%s: %s is not shown (%s)", what, k.c_str(), line); for (auto& k : have) if (k.compare(0, 11, "STATISTICS_")) VEXPECT(must.count(k), "view", "%s: %s is shown (%s)", what, k.c_str(), line); };
    meta(p, w.md, "dataset"); for (size_t i = 0; i < w.b.size(); ++i) { auto& q = part[i + 1]; const Band& b = w.b[i]; meta(q, b.md, "band"); VEXPECT(trim(q[0].substr(q[0].find(':') + 1)) == trim(b.desc), "view", "band is '%s', not '%s' (%s)", q[0].c_str(), b.desc.c_str(), line); VEXPECT(field(q, "Size:") == fmt("%dx%d", w.ow, w.oh), "view", "band size %s (%s)", field(q, "Size:").c_str(), line); bool cal = o.cal && b.type == GDT_UInt16; string ty = string("GDT_") + GDALGetDataTypeName(cal ? GDT_Float32 : b.type); VEXPECT(field(q, "Type:") == ty, "view", "type %s, not %s (%s)", field(q, "Type:").c_str(), ty.c_str(), line); VEXPECT(near(field(q, "Scale:"), cal ? 1 : b.scale) && near(field(q, "Offset:"), cal ? 0 : b.offset), "view", "scale %s offset %s, not %g %g (%s)", field(q, "Scale:").c_str(), field(q, "Offset:").c_str(), cal ? 1 : b.scale, cal ? 0 : b.offset, line); if (!cal) VEXPECT(field(q, "Unit:") == b.unit, "view", "unit %s, not %s (%s)", field(q, "Unit:").c_str(), b.unit.c_str(), line);
        if (!b.v.empty() && w.ow == w.w && w.oh == w.h) { Md m; for (auto& l : q) { string t = trim(l); size_t e = t.find('='); if (t.compare(0, 11, "STATISTICS_") == 0 && e != string::npos) m[t.substr(0, e)] = t.substr(e + 1); } vector<double> v; for (int y = 0; y < w.h; ++y) for (int x = 0; x < w.w; ++x) { double p = b.v[(size_t)(w.y + y) * in.w + w.x + x]; v.push_back(cal ? (b.hasnd && p == b.nodata ? NAN : p * b.scale + b.offset) : p); } stats(m, v, b.hasnd && !cal, b.nodata, line); }
        if (o.act == "viewmore" && !b.v.empty() && !cal && w.ow == w.w && w.oh == w.h) { double lo = 1e300, hi = -1e300, s = 0; size_t n = 0; for (int y = 0; y < w.h; ++y) for (int x = 0; x < w.w; ++x) { double v = b.v[(size_t)(w.y + y) * in.w + w.x + x]; if (std::isnan(v) || (b.hasnd && v == b.nodata)) continue; lo = std::min(lo, v); hi = std::max(hi, v); s += v; ++n; } string r = field(q, "Pixel range:"); double a, c, m; if (!n) VEXPECT(r == "(none)", "view", "range %s of nothing (%s)", r.c_str(), line); else VEXPECT(sscanf(r.c_str(), "min %lf max %lf mean %lf", &a, &c, &m) == 3 && fabs(a - lo) <= 1e-5 * fabs(lo) + 1e-6 && fabs(c - hi) <= 1e-5 * fabs(hi) + 1e-6 && fabs(m - s / n) <= 1e-5 * std::max(fabs(lo), fabs(hi)) + 1e-6, "view", "range %s, not min %g max %g mean %g (%s)", r.c_str(), lo, hi, s / n, line); obs("range", n ? GDALGetDataTypeName(b.type) : "none"); } }
    obs("view", fmt("%s %s%s%s%s%s", in.kind.c_str(), o.act.c_str(), o.area ? " area" : "", o.resize ? " resize" : "", o.cal ? " calibrated" : "", o.cmd ? " copymd" : ""));
}
// is this value the one at output pixel x, y?
static bool at(const In& in, const Want& w, const Band& b, int x, int y, const std::function<bool(double)>& f) {
    double fx = w.x + (x + 0.5) * w.w / w.ow, fy = w.y + (y + 0.5) * w.h / w.oh; int n = w.w == w.ow && w.h == w.oh ? 0 : 1; for (int dy = -n; dy <= n; ++dy) for (int dx = -n; dx <= n; ++dx) { int X = (int)floor(fx) + dx, Y = (int)floor(fy) + dy; if (X < w.x || Y < w.y || X >= w.x + w.w || Y >= w.y + w.h) continue; if (f(b.v[(size_t)Y * in.w + X])) return true; } return false;
}
static void converted(const In& in, const Opt& o, const Want& w, const std::map<string, string>& files, const string& dir, const char* line) {
    string name = outname(w, -1); const char* ext = o.drv == "GTiff" ? ".tif" : o.drv == "HFA" ? ".img" : o.drv == "VRT" ? ".vrt" : o.drv == "ENVI" ? "." : ".grb"; string fn = name + ext; if (o.drv == "ENVI") { for (auto& f : files) if (f.first.compare(0, name.size(), name) == 0 && f.first.find(".hdr") == string::npos && f.first.find(".xml") == string::npos) fn = f.first; }
    if (!VEXPECT(files.count(fn), "output", "no %s, but %s (%s)", fn.c_str(), files.empty() ? "nothing" : files.begin()->first.c_str(), line)) return; string stem = fn.substr(0, fn.rfind('.')); for (auto& f : files) VEXPECT(f.first.compare(0, stem.size(), stem) == 0, "output", "%s is also written (%s)", f.first.c_str(), line);
    In got; got.path = dir + "/" + fn; if (!VEXPECT(load(got, in.kind != "xrit" || o.area), "output", "%s cannot be read: %s (%s)", fn.c_str(), CPLGetLastErrorMsg(), line)) return; VEXPECT(got.w == w.ow && got.h == w.oh && got.b.size() == w.b.size(), "size", "%dx%d with %d bands, not %dx%d with %d (%s)", got.w, got.h, (int)got.b.size(), w.ow, w.oh, (int)w.b.size(), line); if (got.w != w.ow || got.h != w.oh || got.b.size() != w.b.size()) return;
    if (o.drv == "GTiff" || o.drv == "VRT") { for (auto& k : w.md) if (k.first != "AREA_OR_POINT") VEXPECT(got.md.count(k.first) && got.md[k.first] == k.second, "metadata", "%s is %s, not %s (%s)", k.first.c_str(), get(got.md, k.first.c_str(), "missing").c_str(), k.second.c_str(), line); if (o.cmd) for (auto& k : in.md) if (!w.md.count(k.first) && k.first != "AREA_OR_POINT") VEXPECT(!got.md.count(k.first), "metadata", "%s is still there (%s)", k.first.c_str(), line); for (size_t i = 0; i < w.b.size(); ++i) { for (auto& k : w.b[i].md) if (k.first.compare(0, 11, "STATISTICS_")) VEXPECT(got.b[i].md.count(k.first) && got.b[i].md[k.first] == k.second, "metadata", "band %d: %s is %s, not %s (%s)", (int)i, k.first.c_str(), get(got.b[i].md, k.first.c_str(), "missing").c_str(), k.second.c_str(), line); VEXPECT(got.b[i].desc == w.b[i].desc, "description", "band %d is '%s', not '%s' (%s)", (int)i, got.b[i].desc.c_str(), w.b[i].desc.c_str(), line); } }
    for (size_t i = 0; i < w.b.size(); ++i) { const Band& b = w.b[i]; Band& g = got.b[i]; if (b.v.empty() || g.v.empty()) continue; bool cal = o.cal && b.type == GDT_UInt16; size_t n = 0, first = 0; for (size_t k = 0; k < g.v.size(); ++k) { double q = g.v[k]; bool ok = at(in, w, b, k % w.ow, k / w.ow, [&](double v) { if (!cal) return v == q || (std::isnan(v) && std::isnan(q)); if (b.hasnd && v == b.nodata) return g.hasnd && q == g.nodata; return close_rel(q * g.scale + g.offset, v * b.scale + b.offset, 1e-5, 1e-5 * fabs(b.offset)+1e-6); }); if (!ok && !n++) first = k; } evals(g.v.size()); VEXPECT(n == 0, "value", "band %d: %d of %d pixels differ, first %d,%d: %.9g (%s)", (int)i, (int)n, (int)g.v.size(), (int)(first % w.ow), (int)(first / w.ow), g.v[first], line); stats(g.md, g.v, g.hasnd, g.nodata, line); if (!cal && o.drv != "ENVI") VEXPECT(g.type == b.type, "type", "%s, not %s (%s)", GDALGetDataTypeName(g.type), GDALGetDataTypeName(b.type), line); }
    obs("conversion", fmt("%s to %s%s%s%s%s%s", in.kind.c_str(), o.drv.c_str(), o.area ? " area" : "", o.resize ? " resize" : "", o.cal ? " calibrated" : "", o.cmd ? " copymd" : "", o.bands.empty() ? "" : " bands"));
}
static void image(const In& in, const Opt& o, const Want& w, const std::map<string, string>& files, const string& dir, const char* line) {
    std::map<string, int> names; for (size_t i = 0; i < w.b.size(); ++i) names[outname(w, i) + "." + o.act] = i; for (auto& f : files) VEXPECT(names.count(f.first), "output", "%s is written (%s)", f.first.c_str(), line);
    for (auto& k : names) { const Band& b = w.b[k.second]; if (!VEXPECT(files.count(k.first), "output", "no %s, but %s (%s)", k.first.c_str(), files.empty() ? "nothing" : files.begin()->first.c_str(), line)) continue; In got; got.path = dir + "/" + k.first; if (!VEXPECT(load(got, true), "output", "%s cannot be read: %s (%s)", k.first.c_str(), CPLGetLastErrorMsg(), line)) continue;
        int slack = o.resize || o.area ? 0 : 1; VEXPECT(abs(got.w - w.ow) <= slack && abs(got.h - w.oh) <= slack, "size", "%dx%d, not %dx%d (%s)", got.w, got.h, w.ow, w.oh, line); if (abs(got.w - w.ow) > slack || abs(got.h - w.oh) > slack || b.v.empty() || got.b.empty()) continue; Want u = w; u.ow = got.w; u.oh = got.h; double lo[2] = { 1e300, 1e300 }, hi[2] = { -1e300, -1e300 }; bool cal = o.cal && b.type == GDT_UInt16; auto val = [&](double v) { return cal ? (b.hasnd && v == b.nodata ? NAN : v * b.scale + b.offset) : v; };
        for (int y = 0; y < w.h; ++y) for (int x = 0; x < w.w; ++x) { double v = b.v[(size_t)(w.y + y) * in.w + w.x + x]; bool miss = b.hasnd && v == b.nodata; v = val(v); if (std::isnan(v)) continue; for (int a = 0; a < 2; ++a) { if (miss && b.hasnd) continue; if (!a && !cal && v == 0) continue; lo[a] = std::min(lo[a], v); hi[a] = std::max(hi[a], v); } }
        if (o.stretch) for (int a = 0; a < 2; ++a) { lo[a] = o.s0; hi[a] = o.s1; } if (!(lo[0] < hi[0]) || !(lo[1] < hi[1])) { obs("image", "flat"); continue; } bool same = u.w == u.ow && u.h == u.oh; if (!same && !o.stretch && in.kind != "large") { obs("image", "resized"); continue; } if (o.resize && in.kind == "large" && (u.ow * 8 < u.w || u.oh * 8 < u.h)) continue; if (in.kind == "large" && (u.w < 130 || u.h < 40)) continue;
        size_t n = 0, first = 0; double err = 0; auto& p = got.b[0].v; double full = 255; { vg::DS d = vg::open(got.path); const char* nb = d ? d->GetRasterBand(1)->GetMetadataItem("NBITS", "IMAGE_STRUCTURE") : nullptr; if (nb) full = (1 << atoi(nb)) - 1; else if (got.b[0].type == GDT_UInt16) full = 65535; } for (auto& q : p) q *= 255 / full; for (size_t i = 0; i < p.size(); ++i) { double q = p[i]; auto f = [&](double v) { if ((b.hasnd && v == b.nodata) || std::isnan(v)) return true; v = val(v); for (int a = 0; a < 2; ++a) { double t = (v - lo[a]) * 255 / (hi[a] - lo[a]); t = std::min(255.0, std::max(0.0, t)); if (fabs(t - q) <= 1.01 + 1e-6 * 255) return true; } return false; }; if (o.act == "png") { if (!at(in, u, b, i % u.ow, i / u.ow, f) && !n++) first = i; } else if (same) { double v = val(b.v[(size_t)(w.y + i / u.ow) * in.w + w.x + i % u.ow]); if (!std::isnan(v)) err += fabs(std::min(255.0, std::max(0.0, (v - lo[1]) * 255 / (hi[1] - lo[1]))) - q); } } evals(p.size());
        VEXPECT(n == 0, "pixel", "band %d: %d of %d pixels differ, first %d,%d: %g, source range %g %g (%s)", k.second, (int)n, (int)p.size(), (int)(first % u.ow), (int)(first / u.ow), p[first], lo[0], hi[0], line); if (o.act == "jpg" && in.kind == "large" && same) VEXPECT(err / p.size() < 20, "pixel", "the picture is off by %g on average (%s)", err / p.size(), line); obs("image", fmt("%s %s %s%s%s%s", o.act.c_str(), in.kind.c_str(), GDALGetDataTypeName(b.type), same ? "" : " scaled", cal ? " calibrated" : "", o.stretch ? " stretched" : "")); }
}
static std::map<string, string> tree() { std::map<string, string> m; for (auto& f : vt::files(root + "/in")) { if (f.second == "(dir)") for (auto& g : vt::files(root + "/in/" + f.first)) m[f.first + "/" + g.first] = g.second.substr(0, 200) + fmt(" %zu", g.second.size()); else m[f.first] = f.second; } return m; }
static void untouched(const std::map<string, string>& before, const Opt& o, const char* line) { auto now = tree(); for (auto& f : before) VEXPECT(now.count(f.first) && now[f.first] == f.second, "input", "%s changes (%s)", f.first.c_str(), line); for (auto& f : now) if (!before.count(f.first)) { VEXPECT(o.act == "viewmore" && f.first.size() > 8 && f.first.substr(f.first.size() - 8) == ".aux.xml", "input", "%s appears beside the input (%s)", f.first.c_str(), line); unlink((root + "/in/" + f.first).c_str()); } }
static Opt options(Rng& r, const vector<In>& ins, bool heavy) {
    Opt o; static const vector<string> A = { "view", "viewmore", "conv", "conv", "conv", "png", "png", "jpg" }, D = { "GTiff", "GTiff", "GTiff", "HFA", "VRT", "ENVI", "NoSuch" }; o.act = r.pick(A); if (heavy && (o.act != "view")) o.area = true; if (o.act == "view") { if (r.chance(0.5)) o.args.push_back("--view"); } else if (o.act == "conv") { o.drv = r.pick(D); if (o.drv == "NoSuch" && r.chance(0.6)) o.drv = "GTiff"; if (r.chance(0.5)) o.args.push_back("--conv=" + o.drv); else { o.args.push_back("-c"); o.args.push_back(o.drv); } } else o.args.push_back("--" + o.act);
    const In* ref = nullptr; for (auto& i : ins) if (i.opens) { ref = &i; break; } int W = ref ? ref->w : 30, H = ref ? ref->h : 30; for (auto& i : ins) if (i.opens && r.chance(0.9)) { W = std::min(W, i.w); H = std::min(H, i.h); }
    if (r.chance(0.4)) o.area = true; if (o.area) { o.w = 1 + r.below(std::min(W, 200)); o.h = 1 + r.below(std::min(H, 200)); o.x = r.below(W - o.w + 1); o.y = r.below(H - o.h + 1); if (heavy) { o.x = std::min(W - o.w, 1700 + (int)r.below(200)); o.y = std::min(H - o.h, 1700 + (int)r.below(200)); if (o.x < 0) o.x = 0; if (o.y < 0) o.y = 0; } if (r.chance(0.07)) o.x = W + r.below(3); if (r.chance(0.05)) o.y = -1; o.args.push_back(fmt("--area=%d,%d,%d,%d", o.x, o.w, o.y, o.h)); }
    if (r.chance(0.25)) { o.resize = true; o.ow = r.below(90) + (r.chance(0.95) ? 1 : 0); o.oh = r.below(90) + 1; o.args.push_back(fmt("--resize=%d,%d", o.ow, o.oh)); }
    if (r.chance(0.35)) for (int i = 1 + r.below(3); i-- > 0;) { string s; int n = ref ? ref->b.size() : 1; switch (r.below(6)) { case 0: case 1: s = fmt("%d", 1 + (int)r.below(n)); break; case 2: case 3: s = ref ? ref->b[r.below(n)].desc : "x"; if (s.empty()) s = "1"; if (s[0] == '!' || r.chance(0.5) || s.find_first_not_of("0123456789") == string::npos) s = "!" + s; break; case 4: s = word(r); break; default: s = r.chance(0.3) ? (r.chance(0.5) ? "4294967297" : "0") : r.chance(0.2) ? "99" : "!nothing"; } if (!s.empty() && s != "!") { o.bands.push_back(s); if (r.chance(0.5)) o.args.push_back("--band=" + s); else { o.args.push_back("-b"); o.args.push_back(s); } } }
    if (r.chance(0.2)) { o.cal = true; o.args.push_back("--force-calibration"); if (o.drv == "VRT") { for (auto& a : o.args) { if (a == "--conv=VRT") a = "--conv=GTiff"; if (a == "VRT") a = "GTiff"; } o.drv = "GTiff"; } }
    if (r.chance(0.2)) { o.cmd = true; if (r.chance(0.15)) { o.tmpl.opens = false; o.tmpl.path = root + "/in/none.tif"; } else o.tmpl = tif(r, "template.tif", false); o.args.push_back("--copymd=" + o.tmpl.path); }
    if ((o.act == "png" || o.act == "jpg") && r.chance(0.25)) { o.stretch = true; o.s0 = r.chance(0.4) ? 0 : r.below(60); o.s1 = o.s0 + 10 + r.below(180); o.args.push_back(o.s0 == 0 && r.chance(0.5) ? fmt("--stretch=%g", o.s1) : fmt("--stretch=%g:%g", o.s0, o.s1)); }
    if (r.chance(0.15)) o.args.push_back(r.chance(0.5) ? "-q" : "--quiet"); for (size_t i = o.args.size(); i-- > 1;) { size_t j = r.below(i + 1); bool pair = false; for (size_t k : { i, j }) if (o.args[k] == "-b" || o.args[k] == "-c" || (k && (o.args[k - 1] == "-b" || o.args[k - 1] == "-c"))) pair = true; if (!pair && o.args[i].compare(0, 6, "--band") && o.args[j].compare(0, 6, "--band")) std::swap(o.args[i], o.args[j]); } return o;
}
static string show(const vector<string>& a) { string s = "msat"; for (auto& x : a) s += " " + x; return s; }
static void cleanup() { for (auto& p : prods) { remove_product(p); rmdir(p.dir.c_str()); } prods.clear(); for (auto d : { "/in", "/work", "/all" }) { vt::clear(root + d); } }
static void setup() { static bool reg = false; vg::init(); if (!reg) { reg = true; GDALAllRegister(); } root = cfg().scratch + fmt("/c25.%d", (int)getpid()); if (root[0] != '/') { char c[4096]; if (getcwd(c, sizeof c)) root = string(c) + "/" + root; } mkdir(root.c_str(), 0755); for (auto d : { "/in", "/work", "/all" }) mkdir((root + d).c_str(), 0755); cleanup(); }
static vt::Out judged(const In& in, const Opt& o, std::map<string, string>& files, const Want& w) {
    vector<string> a = o.args; a.push_back(in.path); string ln = show(a); const char* line = ln.c_str(); string dir = root + "/work"; vt::clear(dir); auto before = tree(); vt::Out out = vt::run("MSAT", a, dir); files = vt::files(dir); note(ln); sample(ln); VEXPECT(!out.crashed(), "crash", "%s: signal %d: %.400s", line, out.sig, out.err.c_str()); untouched(before, o, line); if (out.crashed()) return out;
    if (w.none) { VEXPECT(out.status == 0 && files.empty() && out.out.empty(), "nothing", "%s: exit %d with %d files for bands that are not there", line, out.status, (int)files.size()); obs("outcome", "no such name"); return out; }
    if (!w.ok) { VEXPECT(out.status > 0, "status", "%s: exit %d though %s", line, out.status, w.why.c_str()); VEXPECT(files.empty() && out.out.empty() && !out.err.empty(), "failure", "%s: %d files, %d characters shown, says '%.100s' though %s", line, (int)files.size(), (int)out.out.size(), out.err.c_str(), w.why.c_str()); obs("outcome", w.why); return out; }
    if (o.act == "view" || o.act == "viewmore") { VEXPECT(out.status == 0, "status", "%s: exit %d: %.200s", line, out.status, out.err.c_str()); VEXPECT(files.empty(), "output", "%s writes %s", line, files.empty() ? "" : files.begin()->first.c_str()); if (!out.status) view(in, o, w, out.out, line); }
    else if (o.act == "conv") { bool mixed = false; for (auto& b : w.b) if (b.hasnd != w.b[0].hasnd || b.type != w.b[0].type || (b.nodata != w.b[0].nodata && !std::isnan(b.nodata))) mixed = true; if (mixed && out.status) { obs("outcome", "mixed bands"); return out; } VEXPECT(out.status == 0, "status", "%s: exit %d: %.200s", line, out.status, out.err.c_str()); if (!out.status) converted(in, o, w, files, dir, line); }
    else { VEXPECT(out.status == 0, "status", "%s: exit %d: %.200s", line, out.status, out.err.c_str()); if (!out.status) image(in, o, w, files, dir, line); }
    obs("outcome", "done"); return out;
}
static void lists(uint64_t idx, Rng& r) {
    setup(); vector<In> ins; int n = 1 + r.below(4); bool heavy = false; for (int i = 0; i < n; ++i) { string nm = fmt("f%d", i); switch (r.below(10)) { case 0: ins.push_back(grib(r, nm + ".grib")); break; case 1: if (!heavy) { heavy = true; ins.push_back(xrit(r, nm)); break; } case 2: case 3: ins.push_back(tif(r, nm + ".tif", true)); break; case 4: if (r.chance(0.6)) { ins.push_back(bad(r, nm)); break; } default: ins.push_back(tif(r, nm + (r.chance(0.1) ? " x" : "") + ".tif", false)); } }
    for (int k = 0; k < 3; ++k) {
        Opt o = options(r, ins, heavy); std::map<string, string> expect; string shown; int status = 0; bool judge = true;
        for (auto& in : ins) { Want w = want(in, o); std::map<string, string> f; vt::Out out = judged(in, o, f, w); if (out.crashed()) { judge = false; break; } if (o.act == "conv") { size_t i; for (auto& g : f) if ((i = g.first.rfind(".aux.xml")) != string::npos) expect.erase(g.first); } for (auto& g : f) expect[g.first] = g.second; shown += out.out; if (out.status) { status = out.status; break; } }
        if (ins.size() > 1 && judge) { vector<string> a = o.args; for (auto& in : ins) a.push_back(in.path); string ln = show(a); const char* line = ln.c_str(); string dir = root + "/all"; vt::clear(dir); auto before = tree(); vt::Out out = vt::run("MSAT", a, dir); auto f = vt::files(dir); untouched(before, o, line); VEXPECT(!out.crashed(), "crash", "%s: signal %d: %.400s", line, out.sig, out.err.c_str()); VEXPECT(out.status == status, "list", "%s: exit %d, alone %d", line, out.status, status); VEXPECT(out.out == shown, "list", "%s shows %.300s, alone %.300s", line, out.out.c_str(), shown.c_str());
            std::set<string> a1, a2; for (auto& g : expect) a1.insert(g.first); for (auto& g : f) a2.insert(g.first); VEXPECT(a1 == a2, "list", "%s writes %d files, alone %d", line, (int)a2.size(), (int)a1.size()); for (auto& g : f) if (expect.count(g.first)) VEXPECT(g.second == expect[g.first] || g.first.find(".aux.xml") != string::npos || o.drv == "HFA", "list", "%s: %s differs from the one written alone", line, g.first.c_str()); obs("list", fmt("%d files, %s, exit %d", (int)ins.size(), o.act.c_str(), status)); }
        unlink((root + "/in/template.tif").c_str()); unlink((root + "/in/template.tif.aux.xml").c_str());
    }
    cleanup();
}
// little room, full output, damaged data
static void faults(uint64_t, Rng& r) {
    setup(); In in = tif(r, "f.tif", r.chance(0.5)); string whole = read_file(in.path); auto files = [&]() { return vt::files(root + "/work"); }; for (int k = 0; k < 3; ++k) {
        static const vector<vector<string>> A = { { "--conv=GTiff" }, { "--conv=HFA" }, { "--conv=ENVI" }, { "--png" }, { "--jpg" }, { "--view" }, {}, { "--viewmore" } }; vector<string> a = r.pick(A); bool vw = a.empty() || a[0] == "--view" || a[0] == "--viewmore", img = !vw && a[0].size() == 5; string ln = show(a) + fmt(" %s, %dx%d", in.path.c_str(), in.w, in.h); const char* line = ln.c_str(); vector<string> b = a; b.push_back(in.path); note(ln);
        vt::clear(root + "/work"); vt::Out good = vt::run("MSAT", b, root + "/work"); auto fg = files(); if (good.status || good.crashed()) { bool mixed = true; VEXPECT(mixed && !good.crashed(), "crash", "%s", line); continue; } vt::clear(root + "/work"); unlink((in.path + ".aux.xml").c_str());
        if (vw) { vt::Out o = vt::run("MSAT", b, root + "/work", {}, []() { int f = open("/dev/full", O_WRONLY); dup2(f, 1); close(f); }); VEXPECT(!o.crashed() && o.status > 0, "full", "%s with standard output full: exit %d, signal %d", line, o.status, o.sig); obs("fault", "output full"); unlink((in.path + ".aux.xml").c_str()); continue; }
        if (r.chance(0.7)) { size_t big = 0; for (auto& f : fg) big = std::max(big, f.second.size()); rlim_t lim = r.below(big + 200); vt::Out o = vt::run("MSAT", b, root + "/work", {}, [&]() { signal(SIGXFSZ, SIG_IGN); struct rlimit l = { lim, lim }; setrlimit(RLIMIT_FSIZE, &l); }); auto f = files(); bool same = f.size() == fg.size(); for (auto& g : fg) if (!f.count(g.first) || (f[g.first] != g.second && (a[0] != "--conv=HFA" || f[g.first].size() != g.second.size()))) same = false; VEXPECT(!o.crashed(), "crash", "%s with at most %d bytes: %.300s", line, (int)lim, o.err.c_str()); VEXPECT(o.status > 0 || same || (!img && o.err.find("ERROR") == string::npos), "room", "%s with at most %d bytes a file: exit %d, but the output is not all there: %.400s %d of %d files", line, (int)lim, o.status, o.err.c_str(), (int)f.size(), (int)fg.size()); if (lim >= big + 1 && img) VEXPECT(o.status == 0 && same, "room", "%s with enough room: exit %d", line, o.status); obs("fault", fmt("%s %s", a[0].c_str(), o.status ? "fails" : "fits")); }
        else { string cut = whole.substr(0, whole.size() * r.real(0.3, 1)); if (r.chance(0.5)) { cut = whole; size_t at = r.below(cut.size()); for (size_t i = at; i < cut.size() && i < at + 40; ++i) cut[i] = 0; } string bp = root + "/in/cut.tif"; write_file(bp, cut); b.back() = bp; In c; c.path = bp; bool opens; { CPLErrorReset(); opens = load(c, true); } vt::Out o = vt::run("MSAT", b, root + "/work"); VEXPECT(!o.crashed(), "crash", "%s of a damaged file: %.300s", line, o.err.c_str()); if (!opens) VEXPECT(o.status > 0, "status", "%s of a damaged file (%s): exit %d", line, CPLGetLastErrorMsg(), o.status); obs("fault", fmt("damaged %s %d", opens ? "opens" : "fails", o.status != 0)); unlink(bp.c_str()); }
        vt::clear(root + "/work"); }
    cleanup();
}
// the command line itself
static void usage(uint64_t, Rng& r) {
    setup(); In in = tif(r, "f.tif", false); static const vector<vector<string>> BAD = { {}, { "--nonsense" }, { "--area=1,2,3" }, { "--area=x" }, { "--Area=1,2,3" }, { "--around=,,," }, { "--resize=100" }, { "-R" }, { "--conv" }, { "--band" }, { "--area" } }; vector<string> a = r.pick(BAD); bool file = !a.empty(); if (file && a[0] != "--conv" && a[0] != "--band" && a[0] != "--area") a.push_back(in.path); vt::Out o = vt::run("MSAT", a, root + "/work"); VEXPECT(!o.crashed() && o.status > 0 && !o.err.empty() && vt::files(root + "/work").empty(), "usage", "%s: exit %d, signal %d", show(a).c_str(), o.status, o.sig); obs("usage", a.empty() ? "nothing" : a[0]);
    for (auto h : { "--help", "--version" }) { o = vt::run("MSAT", { h }, root + "/work"); VEXPECT(!o.crashed() && o.status == 0 && !o.out.empty(), "usage", "%s: exit %d", h, o.status); } cleanup();
}
int main(int argc, char** argv) {
    parse_args(argc, argv); if (chdir(cfg().scratch.c_str())) return 96; bool t = cfg().thorough; setenv("GDAL_PAM_ENABLED", "YES", 1);
    add_group("lists", t ? 6000 : 240, 4, 300, lists); add_group("faults", t ? 3000 : 120, 4, 120, faults); add_group("usage", t ? 200 : 16, 2, 60, usage);
    return run_all();
}
