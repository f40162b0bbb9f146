// An encoder of ThornSDS databases
#pragma once
#include "toolutil.h"
#include <algorithm>
namespace th {
using namespace vf; using std::string; using std::vector;
typedef std::map<string, string> Ent;         // section:key to text
static const vector<string> CH = { "VIS006", "VIS008", "IR_016", "IR_039", "WV_062", "WV_073", "IR_087", "IR_097", "IR_108", "IR_120", "IR_134" };
struct Chan { string name; Ent cal; vector<uint16_t> raw; bool odd = false, has_cal = true; int info = 0; };
struct Db { Ent aoi, info; std::map<string, Chan> ch; bool has_aoi = true, has_info = true; };
static string text(Rng& r) { string s; int n = 1 + r.below(r.chance(0.05) ? 200 : 20); for (int i = 0; i < n; ++i) s += "abcdefgXYZ0123456789 ._-/:()"[r.below(28)]; while (!s.empty() && s[0] == ' ') s.erase(0, 1); while (!s.empty() && s.back() == ' ') s.pop_back(); return s.empty() ? "x" : s; }
static string flt(Rng& r) { return r.chance(0.3) ? fmt("%d", (int)r.range(-500, 500)) : fmt("%.*g", (int)r.range(1, 9), r.real(-1000, 1000) * pow(10, r.range(-6, 6))); }
static string boolean(Rng& r) { static const vector<string> B = { "yes", "no", "1", "0", "True", "false", "T", "n", "Yes", "FALSE" }; return r.pick(B); }
static string ini(Rng& r, const Ent& e) {      // sections in any order, keys in any order
    std::map<string, vector<string>> sec; for (auto& k : e) { size_t c = k.first.find(':'); string key = k.first.substr(c + 1), v = k.second; if (r.chance(0.3)) v = "\"" + v + "\""; sec[k.first.substr(0, c)].push_back(key + (r.chance(0.5) ? "=" : " = ") + v + (r.chance(0.05) ? " ; note" : "")); }
    string o; vector<string> names; for (auto& s : sec) if (!s.first.empty()) names.push_back(s.first); for (size_t i = names.size(); i > 1; --i) std::swap(names[i - 1], names[r.below(i)]); if (sec.count("")) names.insert(names.begin(), ""); const char* eol = r.chance(0.3) ? "\r\n" : "\n";
    for (auto& n : names) { if (!n.empty()) o += "[" + n + "]" + eol; auto& v = sec[n]; if (v.size() < 100) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); for (auto& l : v) { if (r.chance(0.03)) o += string("# comment") + eol; o += l + eol; } } return o;
}
static Db make(Rng& r, bool pic = false) {
    Db d; double some = r.chance(0.5) ? 1 : 0.7; auto in = [&](Ent& e, const string& k, const string& v) { if (r.chance(some)) e[k] = v; }; auto num = [&](int lo, int hi) { return std::to_string(r.range(lo, hi)); };
    int w = 1 + r.below(40), h = 1 + r.below(30); in(d.aoi, ":Name", text(r)); in(d.aoi, ":nPixels", std::to_string(w)); in(d.aoi, ":nLines", std::to_string(h)); in(d.aoi, ":Projection", r.chance(0.5) ? "GEOS" : text(r)); in(d.aoi, ":CFAC", num(-2147483647, 2147483647)); in(d.aoi, ":LFAC", num(-13642337, 13642337)); in(d.aoi, ":COFF", num(-5000, 5000)); in(d.aoi, ":LOFF", num(-5000, 5000));
    in(d.info, "Station:Name", text(r)); in(d.info, "Satellite:Name", text(r)); in(d.info, "Satellite:ID", num(0, 999)); in(d.info, "Satellite:Orbit", num(0, 99999)); for (auto k : { "Start", "End" }) in(d.info, string("Schedule:") + k, r.chance(0.6) ? fmt("%02d/%02d/%04d %02d:%02d:%02d.%03d", r.range(1, 28), r.range(1, 12), r.range(2000, 2030), r.below(24), r.below(60), r.below(60), r.below(1000)) : text(r)); in(d.info, "Schedule:Elevation", flt(r)); in(d.info, "Schedule:NorthSouth", boolean(r)); in(d.info, "Schedule:Location", text(r)); in(d.info, "Schedule:Day", boolean(r)); in(d.info, "Schedule:Slot", text(r)); in(d.info, "Image:Sensor", text(r));
    if (pic || r.chance(some)) { d.info["Image:Pixels"] = std::to_string(w); d.info["Image:Lines"] = std::to_string(h); } int bpp = pic ? 10 : r.chance(0.6) ? 10 : r.range(1, 12); if (r.chance(some) || bpp != 10) d.info["Image:BitsPerPixel"] = std::to_string(bpp); in(d.info, "Image:Protected", boolean(r)); in(d.info, "Image:nChannels", num(0, 12)); in(d.info, "Image:nProducts", num(0, 100));
    vector<string> names = CH; for (size_t i = names.size(); i > 1; --i) std::swap(names[i - 1], names[r.below(i)]); int n = 1 + r.below(11), slot = 0;
    for (int i = 0; i < n; ++i) { Chan c; c.name = names[i]; slot += 1 + (r.chance(0.2) && slot + n - i < 12 ? 1 : 0); if (slot > 12) break; c.info = slot; string p = fmt("Channel%d:", slot); d.info[p + "Name"] = c.name; string var = r.chance(0.4) ? "Temperature" : r.chance(0.7) ? "Radiance" : r.chance(0.5) ? "Reflectance of a very long name" : "Other"; if (r.chance(0.9)) d.info[p + "Variable"] = var; else var = "Undefined"; in(d.info, p + "Units", text(r)); in(d.info, p + "BitsPerPixel", num(1, 16)); in(d.info, p + "Table", boolean(r));
        if (r.chance(0.1)) continue;           // announced, not there
        for (auto k : { "Slope", "TargetCount", "Vc", "A", "B" }) in(c.cal, string("Calibration:") + k, flt(r)); int id = std::find(CH.begin(), CH.end(), c.name) - CH.begin() + 1; string code = var[0] == 'T' ? "T" : var[0] == 'R' ? (id <= 3 ? "V" : "N") : "U"; int lim = 1 << bpp; double keep = r.chance(0.7) ? 1 : 0.5; for (int k = 0; k < lim; ++k) if (r.chance(keep)) c.cal[var + ":" + code + fmt("(%d)", k)] = flt(r); if (r.chance(0.3)) c.cal["Other:X(1)"] = "5"; c.has_cal = !r.chance(0.1);
        size_t px = r.chance(0.8) || pic ? (size_t)w * h : r.below(2000) + 1; uint16_t top = r.chance(0.7) ? 1023 : 65535; for (size_t k = 0; k < px; ++k) c.raw.push_back(r.below(top + 1)); c.odd = r.chance(0.05); d.ch[c.name] = c; }
    if (r.chance(0.05)) d.has_aoi = false; return d;
}
static void clean(const string& dir) { vt::clear(dir); DIR* p = opendir(dir.c_str()); if (!p) return; while (dirent* e = readdir(p)) if (e->d_name[0] != '.') rmdir((dir + "/" + e->d_name).c_str()); closedir(p); }
static void put(Rng& r, const Db& d, const string& dir) { mkdir(dir.c_str(), 0755); clean(dir); if (d.has_aoi) write_file(dir + "/AoI", ini(r, d.aoi)); if (d.has_info) write_file(dir + "/INFO.DBI", ini(r, d.info)); for (auto& c : d.ch) { if (c.second.has_cal) write_file(dir + "/" + c.first + ".Calibration", ini(r, c.second.cal)); write_file(dir + "/" + c.first + ".RAW", string((const char*)c.second.raw.data(), c.second.raw.size() * 2) + (c.second.odd ? "z" : "")); } }
}
