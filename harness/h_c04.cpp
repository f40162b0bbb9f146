// C04: a product name selects exactly the files of that product
#include "synth.h"
#include "gdalutil.h"
#include <msat/xrit/fileaccess.h>
#include <msat/gdal/const.h>
#include <algorithm>
using namespace xs; using namespace vf;
using msat::xrit::FileAccess;

struct Id { std::string res, pid1, pid2, time; std::string num = "000", sat; 
    bool operator<(const Id& o) const { return std::tie(res, pid1, pid2, time) < std::tie(o.res, o.pid1, o.pid2, o.time); }
    bool same(const Id& o) const { return !(*this < o) && !(o < *this); } };
static std::string padded(std::string s, size_t n) { s.resize(std::max(n, s.size()), '_'); return s; }
static std::string seg(const Id& i, int s) { return i.res + "-" + i.num + "-" + i.sat + "-" + padded(i.pid1, 12) + "-" + padded(i.pid2, 9) + "-" + fmt("%06d___", s) + "-" + i.time + "-C_"; }
static std::string pe(const Id& i, const char* w) { return i.res + "-" + i.num + "-" + i.sat + "-" + padded(i.pid1, 12) + "-_________-" + w + "______-" + i.time + "-__"; }
static std::string base(const std::string& p) { size_t k = p.rfind('/'); return k == std::string::npos ? p : p.substr(k + 1); }

static void touch(const std::string& p) { write_file(p, "x"); }
static void wipe(const std::string& d) { DIR* h = opendir(d.c_str()); if (!h) return; while (dirent* e = readdir(h)) if (e->d_name[0] != '.' || (e->d_name[1] && e->d_name[1] != '.')) unlink((d + "/" + e->d_name).c_str()); closedir(h); rmdir(d.c_str()); }

struct World { std::string dir; std::vector<Id> ids; std::map<Id, std::set<int>> segs; std::set<std::string> pro, epi; size_t files = 0; };
static World world(uint64_t idx, Rng& r) {
    World w;
    static const char* deco[] = { "", " dir", "*", "?x", "[ab]", "a\\b", "dir-C_", "a:b", "{x,y}", "~", "-", "it's", "H-000" };
    w.dir = cfg().scratch + fmt("/w%llu", (unsigned long long)idx) + deco[r.chance(0.5) ? 0 : r.below(13)];
    mkdir(w.dir.c_str(), 0755);
    static const std::vector<std::string> pid1 = { "MSG1", "MSG2", "MSG3", "MSG4", "MSG2_RSS", "MSG1_RSS", "MSG10", "MSG", "MSG1_", "MET7__057E", "GOES-" , "TWELVECHARS_", "M_S_G_1" };
    static const std::vector<std::string> pid2 = { "HRV", "VIS006", "VIS008", "IR_016", "IR_039", "IR_108", "IR_10", "IR_1", "WV_062", "WV_073", "IR_120", "IR_134", "HRVX", "HR", "NINECHARS", "IR__016" };
    static const std::vector<std::string> time = { "200611141200", "200611141215", "200611141201", "201611141200", "20061114120", "200611141300", "2006111412000" };
    int n = 2 + r.below(12); bool cluster = r.chance(0.5);
    for (int k = 0; k < n; ++k) {
        Id i; i.res = r.chance(0.85) ? "H" : r.chance(0.5) ? "L" : "HH";
        do { i.pid1 = cluster ? pid1[r.below(6)] : r.pick(pid1); } while (i.pid1.find('-') != std::string::npos || (i.pid1.back() == '_'));
        i.pid2 = r.pick(pid2); i.time = cluster ? time[r.below(3)] : r.pick(time);
        i.sat = r.chance(0.9) ? i.pid1.substr(0, 4) : "MTP"; i.sat = padded(i.sat, 6);
        if (w.segs.count(i)) continue;
        for (auto& j : w.ids) if (j.res == i.res && j.pid1 == i.pid1 && j.time == i.time) i.sat = j.sat;   // one platform per product
        w.ids.push_back(i); std::set<int>& s = w.segs[i]; int c = 1 + r.below(6); while ((int)s.size() < c) s.insert(r.chance(0.9) ? 1 + r.below(24) : 1 + r.below(99999));
        for (int x : s) touch(w.dir + "/" + seg(i, x));
        std::string pk = i.res + "/" + i.pid1 + "/" + i.time;
        if (r.chance(0.93)) { touch(w.dir + "/" + pe(i, "PRO")); w.pro.insert(pk); }
        if (r.chance(0.93)) { touch(w.dir + "/" + pe(i, "EPI")); w.epi.insert(pk); }
    }
    // strays
    for (int k = r.below(8); k > 0; --k) {
        const Id& i = r.pick(w.ids); std::string s = seg(i, 1 + r.below(30)); 
        switch (r.below(10)) {
            case 0: s += ".tmp"; break; case 1: s = "." + s; break; case 2: s = "x" + s; break; case 3: s += "~"; break;
            case 4: s = s.substr(0, s.size() - 2) + "__"; break; case 5: s = pe(i, "PRO") + ".bak"; break; case 6: s = pe(i, "GTS"); break;
            case 7: s = s.substr(0, s.size() - 1); break; case 8: s = pe(i, "PRO").substr(0, pe(i, "PRO").size() - 2) + "C_"; break; default: s = "README"; }
        touch(w.dir + "/" + s);
    }
    return w;
}
static void verify(const World& w, const Id& want, FileAccess& fa, const std::string& via, const char* kind) {
    VEXPECT(fa.resolution == want.res && fa.productid1 == want.pid1 && fa.productid2 == want.pid2 && fa.timing == want.time, std::string("parse-") + kind,
        "%s gives %s", via.c_str(), fa.toString().c_str());
    std::string pk = want.res + "/" + want.pid1 + "/" + want.time;
    auto one = [&](const char* w2, const std::set<std::string>& have) {
        std::string got; bool thrown = false;
        try { got = std::string(w2) == "PRO" ? fa.prologueFile() : fa.epilogueFile(); } catch (std::exception&) { thrown = true; }
        if (have.count(pk)) VEXPECT(!thrown && base(got) == pe(want, w2), std::string("wrong-") + w2, "%s: %s", via.c_str(), thrown ? "error" : got.c_str());
        else VEXPECT(thrown, std::string("invented-") + w2, "%s: %s", via.c_str(), got.c_str());
        if (!thrown && !got.empty()) VEXPECT(access(got.c_str(), R_OK) == 0, "path", "%s does not exist", got.c_str());
    };
    one("PRO", w.pro); one("EPI", w.epi);
    std::set<std::string> exp, got; for (int s : w.segs.at(want)) exp.insert(seg(want, s));
    size_t n = 0; try { for (auto& f : fa.segmentFiles()) { got.insert(base(f)); ++n; if (access(f.c_str(), R_OK)) viol("path", f); } } catch (std::exception& e) { got.insert(std::string("error ") + e.what()); }
    std::string diff; for (auto& g : got) if (!exp.count(g)) diff += " +" + g; for (auto& g : exp) if (!got.count(g)) diff += " -" + g;
    VEXPECT(exp == got && n == exp.size(), std::string("segments-") + kind, "%s in %s:%s", via.c_str(), w.dir.c_str(), diff.c_str());
}
static void lookup(uint64_t idx, Rng& r) {
    World w = world(idx, r); note(w.dir);
    char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) _exit(95);
    for (auto& i : w.ids) {
        int s = *w.segs[i].begin(); std::string sh = i.res + ":" + i.pid1 + ":" + i.pid2 + ":" + i.time;
        struct { const char* kind; std::string name; bool rel; } forms[] = { { "segment", w.dir + "/" + seg(i, s), false }, { "short", w.dir + "/" + sh, false }, { "segment-rel", seg(i, *w.segs[i].rbegin()), true }, { "short-rel", sh, true },
            { "segment-dot", "./" + seg(i, s), true }, { "segment-slash", w.dir + "//" + seg(i, s), false } };
        for (auto& f : forms) {
            if (f.rel && chdir(w.dir.c_str())) _exit(95);
            VEXPECT(msat::xrit::isValid(f.name), "valid-name-refused", "%s", f.name.c_str());
            try { FileAccess fa(f.name); verify(w, i, fa, f.name, f.kind);
                if (r.chance(0.3)) { const Id& j = r.pick(w.ids); Id k = i; k.pid2 = j.pid2; if (w.segs.count(k)) { for (auto& q : w.ids) if (q.same(k)) k = q; FileAccess fb(fa, j.pid2); verify(w, k, fb, f.name + " channel " + j.pid2, "channel"); } }
            } catch (std::exception& e) { viol(std::string("refused-") + f.kind, f.name + ": " + e.what()); }
            if (f.rel && chdir(cwd)) _exit(95);
            obs("form", std::string(f.kind) + " " + i.res + " " + i.pid1 + " " + i.pid2);
        }
    }
    obs("world", fmt("%zu products dir %s", w.ids.size(), base(w.dir).c_str()));
    sample(fmt("%zu products in %s", w.ids.size(), w.dir.c_str()));
    wipe(w.dir);
}
// Names that are not product names: an error, or the product their fields name, never another
static void reject(uint64_t idx, Rng& r) {
    vg::init(); World w = world(idx, r); note(w.dir);
    for (int k = 0; k < 40; ++k) {
        const Id& i = r.pick(w.ids); std::vector<std::string> f = { i.res, i.num, i.sat, padded(i.pid1, 12), padded(i.pid2, 9), fmt("%06d___", *w.segs[i].begin()), i.time, "C_" };
        std::string name, kind; bool shrt = false;
        switch (r.below(14)) {
            case 0: { size_t d = r.below(8); f.erase(f.begin() + d); kind = fmt("field %zu missing", d); break; }
            case 1: { size_t d = 1 + r.below(6); f.insert(f.begin() + d, r.chance(0.5) ? "x" : f[d]); kind = fmt("field added at %zu", d); break; }
            case 2: kind = "empty"; break;
            case 3: { size_t d = std::vector<size_t>{0, 3, 4, 6}[r.below(4)]; f[d] = ""; kind = fmt("field %zu empty", d); break; }
            case 4: { size_t d = std::vector<size_t>{0, 3, 4, 6}[r.below(4)]; f[d] = "*"; kind = fmt("field %zu is *", d); break; }
            case 5: { size_t d = std::vector<size_t>{0, 3, 4, 6}[r.below(4)]; f[d][r.below(f[d].size())] = '?'; kind = fmt("? in field %zu", d); break; }
            case 6: { size_t d = std::vector<size_t>{0, 3, 4, 6}[r.below(4)]; std::string o = f[d]; f[d] = std::string("[") + o[0] + "z]" + o.substr(1); kind = fmt("[ in field %zu", d); break; }
            case 7: { size_t d = std::vector<size_t>{3, 4, 6}[r.below(3)]; while (f[d].size() > 1 && f[d].back() == '_') f[d].pop_back(); f[d].pop_back(); if (f[d].empty()) f[d] = "Q"; kind = fmt("field %zu cut", d); break; }
            case 8: { size_t d = std::vector<size_t>{3, 4, 6}[r.below(3)]; while (f[d].size() > 1 && f[d].back() == '_') f[d].pop_back(); f[d] += "Z"; kind = fmt("field %zu longer", d); break; }
            case 9: shrt = true; name = i.res + ":" + i.pid1 + ":" + i.pid2; kind = "short, no time"; break;
            case 10: shrt = true; name = r.chance(0.5) ? ":::" : i.res + ":" + i.pid1 + "::" + i.time; kind = "short, empty field"; break;
            case 11: shrt = true; name = i.res + ":" + i.pid1 + ":" + (r.chance(0.5) ? "*" : "?" + i.pid2.substr(1)) + ":" + i.time; kind = "short, wildcard"; break;
            case 12: shrt = true; name = i.res + ":" + i.pid1 + ":" + i.pid2 + ":" + i.time + (r.chance(0.5) ? ":x" : "*"); kind = "short, more"; break;
            case 13: shrt = true; { int n = r.below(60); for (int q = 0; q < n; ++q) name += "H-_:C*?[]\\/01\n~."[r.below(16)]; if (r.chance(0.5)) name += "-C_"; } kind = "noise"; break;
        }
        if (!shrt) { if (kind == "empty") name = r.chance(0.5) ? "-C_" : r.chance(0.5) ? "" : "C_"; else for (size_t q = 0; q < f.size(); ++q) name += (q ? "-" : "") + f[q]; }
        if (!shrt && f.size() == 8) { bool known = false; for (auto& j : w.ids) if (f[0] == j.res && f[3] == padded(j.pid1, 12) && f[4] == padded(j.pid2, 9) && f[6] == j.time) known = true; if (known) continue; }
        // names of the world that arise by chance
        bool real = false; for (auto& j : w.ids) { std::string b = base(name); if (b == j.res + ":" + j.pid1 + ":" + j.pid2 + ":" + j.time) real = true; for (int s : w.segs[j]) if (b == seg(j, s)) real = true; }
        if (real) continue;
        // shortened forms of padded ids denote the same product: compare without padding
        auto strip = [](std::string s) { while (s.size() > 1 && s.back() == '_') s.pop_back(); return s; };
        std::string full = w.dir + "/" + name; note(full);
        std::string got;
        try { FileAccess fa(full);
            auto check = [&](const std::string& p, int k2) { std::string b = base(p); for (auto& j : w.ids) { bool is = k2 == 0 ? b == pe(j, "PRO") : k2 == 1 ? b == pe(j, "EPI") : false; if (k2 == 2) for (int s : w.segs[j]) if (b == seg(j, s)) is = true;
                    if (is && (strip(fa.resolution) != j.res || strip(fa.productid1) != j.pid1 || (k2 == 2 && strip(fa.productid2) != j.pid2) || strip(fa.timing) != j.time)) got += " " + b;
                    // the right product, but through a name that is not one of its names
                    if (is && k2 == 2 && kind.find("missing") == std::string::npos && kind.find("added") == std::string::npos) {} else if (is && (kind.find("missing") != std::string::npos || kind.find("added") != std::string::npos)) got += " " + b + "!"; } };
            try { check(fa.prologueFile(), 0); } catch (std::exception&) {}
            try { check(fa.epilogueFile(), 1); } catch (std::exception&) {}
            try { for (auto& s : fa.segmentFiles()) check(s, 2); } catch (std::exception&) {}
        } catch (std::exception&) {}
        VEXPECT(got.empty(), "selects-other:" + kind.substr(0, kind.find(" at")), "%s (%s) selects%s", full.c_str(), kind.c_str(), got.c_str());
        vg::DS ds = vg::open(full);
        VEXPECT(ds == nullptr, "opens-non-name", "%s (%s)", full.c_str(), kind.c_str());
        obs("malformed", kind);
    }
    wipe(w.dir);
}
// Whole products side by side: what GDAL opens is the one named
static void open_right(uint64_t idx, Rng& r) {
    vg::init(); std::string dir = cfg().scratch + fmt("/o%llu", (unsigned long long)idx); std::vector<Product> ps;
    int n = 2 + r.below(3);
    for (int k = 0; k < n; ++k) {
        Product p = k ? ps[0] : random_product(r, dir, 1 + r.below(11), 1);
        if (k == 0) { p.seglines = 16; p.nsegs = 232; p.cols = 3712; p.present = { 5, 9 }; p.compr = 1; }
        else switch (r.below(4)) {
            case 0: p.channel = 1 + p.channel % 11; p.pid2 = CHANS[p.channel - 1].name; break;
            case 1: p.timing = "2015010112" + fmt("%02d", 10 + k); p.y = 2015; p.mo = 1; p.d = 1; p.hh = 12; p.mi = 10 + k; break;
            case 2: p.scid = 321 + p.scid % 4; p.pid1 = fmt("MSG%d", p.scid - 320); p.sat = p.pid1 + "__"; break;
            case 3: p.pid1 += "_RSS"; break; }
        p.seed = r.u64(); bool dup = false; for (auto& q : ps) if (q.shortname() == p.shortname()) dup = true; 
        // calibration and time live in the prologue, shared by the channels of one product
        if (!dup) ps.push_back(p);
    }
    // later products of the same prologue rewrite it identically only if time matches: keep one seed
    for (auto& p : ps) { p.dir = dir; write_product(p); }
    for (auto& p : ps) {
        std::string name = r.chance(0.5) ? p.shortname() : p.segpath(9); note(name);
        vg::DS ds = vg::open(name);
        if (!VEXPECT(ds != nullptr, "open-failed", "%s: %s", name.c_str(), CPLGetLastErrorMsg())) continue;
        std::string t = fmt("%04d-%02d-%02d %02d:%02d:00", p.y, p.mo, p.d, p.hh, p.mi);
        const char* got = ds->GetMetadataItem(MD_MSAT_DATETIME, MD_DOMAIN_MSAT), *ch = ds->GetRasterBand(1)->GetMetadataItem(MD_MSAT_CHANNEL_ID, MD_DOMAIN_MSAT);
        VEXPECT(got && t == got && ch && atoi(ch) == p.channel, "opened-other", "%s: time %s channel %s instead of %s %d", name.c_str(), got, ch, t.c_str(), p.channel);
        int row = 3712 - (8 * 16 + 5); std::vector<float> b(3712); int bad = 0; bool lin = p.channel < 4;
        if (ds->GetRasterBand(1)->RasterIO(GF_Read, 0, row, 3712, 1, b.data(), 3712, 1, GDT_Float32, 0, 0, nullptr) != CE_None) bad = 9999;
        else for (int c = 0; c < 3712; ++c) { double w = p.raster(row, c); if (!lin) { w = physical(p, w); if (std::isnan(w)) w = 0; } if (fabs(b[c] - w) > 0.02) ++bad; }
        VEXPECT(bad == 0, "data-of-other", "%s: %d samples differ", name.c_str(), bad);
        obs("opened", fmt("%s %s", p.pid1.c_str(), p.pid2.c_str()));
    }
    for (auto& p : ps) remove_product(p);
}
int main(int argc, char** argv) {
    parse_args(argc, argv); bool th = cfg().thorough;
    add_group("select", th ? 20000 : 2400, 20, 60, lookup);
    add_group("reject", th ? 20000 : 2400, 20, 60, reject);
    add_group("open", th ? 3000 : 320, 8, 60, open_right);
    return run_all();
}
