// C08: CDS, CUC and generalized times denote the instants the format defines
#include "synth.h"
#include <msat/hrit/MSG_HRIT.h>
#include <msat/hrit/MSG_time_cds.h>
#include <sstream>
#include <thread>
using namespace xs; using namespace vf;

static const std::vector<const char*> ZONES = { "UTC", "Europe/Rome", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<+1345>-13:45", "<-0930>9:30" };
static void zone(const char* z) { setenv("TZ", z, 1); tzset(); }
static int64_t unix_of(unsigned day, uint32_t ms) { return ((int64_t)civil_days(1958, 1, 1) + day) * 86400 + ms / 1000; }
static std::string date_of(int64_t sec) {
    long d = sec / 86400; long t = sec % 86400; if (t < 0) { t += 86400; --d; }
    int y, mo, dd; civil_from(d, y, mo, dd); return fmt("%04d-%02d-%02d %02ld:%02ld:%02ld", y, mo, dd, t / 3600, t / 60 % 60, t % 60);
}
static std::string be(uint64_t v, int n) { std::string s(n, 0); put_be(s, 0, v, n); return s; }

static void one(unsigned day, uint32_t ms, unsigned us, unsigned ns, const char* z) {
    std::string b = be(day, 2) + be(ms, 4) + be(us, 2) + be(ns, 2);
    // exactly sized heap copies, so that reading past the field is seen
    auto buf = [&](size_t n) { unsigned char* p = new unsigned char[n]; memcpy(p, b.data(), n); return std::unique_ptr<unsigned char[]>(p); };
    auto b6 = buf(6), b8 = buf(8), b10 = buf(10);
    MSG_time_cds_short s; size_t n1 = s.read_from(b6.get()); MSG_time_cds c; size_t n2 = c.read_from(b8.get()); MSG_time_cds_expanded e; size_t n3 = e.read_from(b10.get());
    MSG_time_cds_short s2(b6.get()); MSG_time_cds c2(b8.get()); MSG_time_cds_expanded e2(b10.get());
    auto at = [&]() { return fmt("day %u ms %u us %u ns %u, zone %s", day, ms, us, ns, z); };
    VEXPECT(n1 == 6 && n2 == 8 && n3 == 10, "size", "%s: consumed %zu %zu %zu", at().c_str(), n1, n2, n3);
    int64_t u = unix_of(day, ms);
    for (MSG_time_cds_short* t : { &s, (MSG_time_cds_short*)&c, (MSG_time_cds_short*)&e, &s2, (MSG_time_cds_short*)&c2, (MSG_time_cds_short*)&e2 }) {
        VEXPECT(t->get_day_from_epoch() == day && t->get_msec_in_day() == ms, "fields", "%s: %u %u", at().c_str(), t->get_day_from_epoch(), t->get_msec_in_day());
        VEXPECT((int64_t)t->get_unixtime() == u, "unixtime", "%s: %lld, expected %lld", at().c_str(), (long long)t->get_unixtime(), (long long)u);
        struct tm* tm = t->get_timestruct(); 
        if (VEXPECT(tm != nullptr, "timestruct", "%s: null", at().c_str())) {
            std::string g = fmt("%04d-%02d-%02d %02d:%02d:%02d", tm->tm_year + 1900, tm->tm_mon + 1, tm->tm_mday, tm->tm_hour, tm->tm_min, tm->tm_sec);
            VEXPECT(g == date_of(u), "timestruct", "%s: %s, expected %s", at().c_str(), g.c_str(), date_of(u).c_str());
            int y, mo, dd; civil_from(u >= 0 ? u / 86400 : (u - 86399) / 86400, y, mo, dd);
            VEXPECT(tm->tm_yday == civil_days(y, mo, dd) - civil_days(y, 1, 1), "yearday", "%s: %d", at().c_str(), tm->tm_yday);
        }
    }
    VEXPECT(c.get_microsecs() == us && e.get_microsecs() == us && e.get_nanosecs() == ns && c2.get_microsecs() == us && e2.get_nanosecs() == ns, "sub-ms", "%s: %u %u %u", at().c_str(), c.get_microsecs(), e.get_microsecs(), e.get_nanosecs());
    std::string m = fmt(" +%03u", ms % 1000), d = date_of(u);
    auto txt = [&](const char* k, const std::string& got, const std::string& want) { VEXPECT(got == want, std::string("text-") + k, "%s: '%s', expected '%s'", at().c_str(), got.c_str(), want.c_str()); };
    txt("short", s.get_timestring(), d + m + " msecs"); txt("short", ((const MSG_time_cds_short&)s).get_timestring(), d + m + " msecs"); txt("short", s.get_timechar(), d + m + " msecs");
    if (us < 1000 && ns < 1000) {
        std::string w8 = d + m + fmt(".%03u msecs", us), w10 = d + m + fmt(".%03u%03u msecs", us, ns);
        txt("cds", c.get_timestring(), w8); txt("cds", ((const MSG_time_cds&)c).get_timestring(), w8); txt("cds", c.get_timechar(), w8);
        txt("expanded", e.get_timestring(), w10); txt("expanded", ((const MSG_time_cds_expanded&)e).get_timestring(), w10); txt("expanded", e.get_timechar(), w10);
        std::ostringstream o; o << e; std::string want = fmt("Day from epoch      : %u (epoch is 1958-01-01)\nMsecs in day        : %u\nMicrosecs           : %u\nNanosecs            : %u\nActual date         : %s\n", day, ms, us, ns, w10.c_str());
        txt("dump", o.str(), want); std::ostringstream o2; o2 << c; txt("dump", o2.str(), fmt("Day from epoch      : %u (epoch is 1958-01-01)\nMsecs in day        : %u\nMicrosecs           : %u\nActual date         : %s\n", day, ms, us, w8.c_str()));
    } else { e.get_timestring(); c.get_timestring(); }
}
// every day count, with times of day at both ends and in between
static void days(uint64_t idx, Rng& r) {
    const char* z = ZONES[idx % ZONES.size()]; zone(z); int64_t prev = INT64_MIN;
    for (unsigned day = idx * 512; day < (idx + 1) * 512; ++day) {
        for (uint32_t ms : { 0u, 1u, 999u, 1000u, (uint32_t)r.below(86400000), 43199999u, 86399999u, 86400000u }) {
            one(day, ms, r.below(1000), r.below(1000), z);
        }
        std::string b = be(day, 2) + be(r.below(86400000), 4); MSG_time_cds_short s((const unsigned char*)b.data());
        VEXPECT((int64_t)s.get_unixtime() > prev, "order", "day %u is not after the day before", day); prev = s.get_unixtime();
    }
    one(r.below(65536), 0xffffffff, 65535, 65535, z); one(65535, r.u64(), r.below(65536), r.below(65536), z);
    obs("days", fmt("%llu", (unsigned long long)idx)); obs("zone", z); sample(fmt("days %llu..%llu in zone %s", (unsigned long long)idx * 512, (unsigned long long)idx * 512 + 511, z));
}
// the order of two times is the order of the instants
static void order(uint64_t, Rng& r) {
    for (int k = 0; k < 400; ++k) {
        unsigned d1 = r.below(65536), d2 = r.chance(0.5) ? d1 : std::min<unsigned>(65535, d1 + r.below(2)); uint32_t m1 = r.below(86400000), m2 = r.chance(0.3) ? m1 + r.below(3000) : r.below(86400000);
        std::string a = be(d1, 2) + be(m1, 4), b = be(d2, 2) + be(m2, 4); MSG_time_cds_short x((const unsigned char*)a.data()), y((const unsigned char*)b.data());
        int64_t e = unix_of(d1, m1) - unix_of(d2, m2), g = (int64_t)x.get_unixtime() - (int64_t)y.get_unixtime();
        VEXPECT(e == g, "difference", "%u/%u - %u/%u: %lld s, expected %lld", d1, m1, d2, m2, (long long)g, (long long)e);
        // texts of equal length sort as the instants do
        std::string t1 = x.get_timestring(), t2 = y.get_timestring(); int64_t e1 = unix_of(d1, m1) * 1000 + m1 % 1000, e2 = unix_of(d2, m2) * 1000 + m2 % 1000;
        VEXPECT((t1 < t2) == (e1 < e2), "text-order", "%s / %s", t1.c_str(), t2.c_str());
        obs("order", e1 < e2 ? "before" : e1 > e2 ? "after" : "same");
    }
}
static void cuc(uint64_t, Rng& r) {
    for (int k = 0; k < 400; ++k) {
        unsigned char* b = new unsigned char[7]; for (int i = 0; i < 7; ++i) b[i] = r.chance(0.2) ? 0 : r.chance(0.2) ? 255 : r.below(256);
        MSG_time_cuc t; size_t n = t.read_from(b); MSG_time_cuc t2(b); double e = 0; for (int i = 0; i < 7; ++i) e += b[i] * std::pow(2.0, 8 * (3 - i));
        VEXPECT(n == 7, "cuc-size", "%zu", n);
        VEXPECT(close_rel(t.get_time_cuc_r8(), e, 1e-14) && t2.get_time_cuc_r8() == t.get_time_cuc_r8(), "cuc-value", "%.6f expected %.6f", t.get_time_cuc_r8(), e);
        std::string c = fmt("%03u %03u %03u %03u", b[0], b[1], b[2], b[3]), f = fmt("%03u %03u %03u", b[4], b[5], b[6]);
        VEXPECT(t.get_coarse_time() == c && t.get_fine_time() == f, "cuc-text", "%s / %s", t.get_coarse_time().c_str(), t.get_fine_time().c_str());
        obs("cuc", fmt("%d", (int)(b[0] / 16))); delete[] b;
    }
}
static void generalized(uint64_t idx, Rng& r) {
    const char* z = ZONES[idx % ZONES.size()]; zone(z);
    for (int k = 0; k < 300; ++k) {
        int y = r.chance(0.9) ? 1958 + r.below(142) : r.below(9999) + 1, mo = 1 + r.below(12); static const int ML[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
        bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0; int d = 1 + r.below(ML[mo - 1] + (mo == 2 && leap)); if (r.chance(0.1) && mo == 2) d = 28 + leap;
        int h = r.below(24), mi = r.below(60), s = r.below(60); std::string t = fmt("%04d%02d%02d%02d%02d%02dZ", y, mo, d, h, mi, s);
        unsigned char* b = new unsigned char[15]; memcpy(b, t.data(), 15);
        MSG_time_generalized g; size_t n = g.read_from(b); MSG_time_generalized g2(b); delete[] b; VEXPECT(n == 15, "generalized-size", "%zu", n);
        std::string want = fmt("%04d-%02d-%02d %02d:%02d:%02d", y, mo, d, h, mi, s); int64_t u = (int64_t)civil_days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s;
        if (y >= 1000) { VEXPECT(g.get_timestring() == want && ((const MSG_time_generalized&)g2).get_timestring() == want && g.get_timechar() == want, "generalized-text", "%s: %s, zone %s", t.c_str(), g.get_timestring().c_str(), z); std::ostringstream o; o << g2; VEXPECT(o.str() == "Actual date         : " + want + "\n", "generalized-dump", "%s", o.str().c_str()); }
        struct tm* tm = g.get_timestruct(); VEXPECT(tm->tm_year == y - 1900 && tm->tm_mon == mo - 1 && tm->tm_mday == d && tm->tm_hour == h && tm->tm_min == mi && tm->tm_sec == s, "generalized-struct", "%s", t.c_str());
        VEXPECT((int64_t)g.get_unixtime() == u, "generalized-unix", "%s in zone %s: %lld, expected %lld", t.c_str(), z, (long long)g.get_unixtime(), (long long)u);
        if (y >= 1000) VEXPECT(g.get_timestring() == want, "generalized-stable", "%s prints as %s after a conversion", t.c_str(), g.get_timestring().c_str());
        obs("generalized zone", z); obs("generalized month", fmt("%d", mo));
    }
    // any fifteen bytes
    for (int k = 0; k < 100; ++k) { unsigned char* b = new unsigned char[15]; for (int i = 0; i < 15; ++i) b[i] = r.chance(0.7) ? '0' + r.below(10) : r.below(256); MSG_time_generalized g(b); g.get_timestring(); g.get_unixtime(); g.get_timechar(); delete[] b; evals(1); }
}
// the text one thread asked for stays its own
static void threads(uint64_t, Rng& r) {
    std::vector<std::thread> th; std::vector<std::string> bad(6); 
    for (int i = 0; i < 6; ++i) { uint64_t sd = r.u64(); th.emplace_back([i, sd, &bad]() { Rng q(sd); for (int k = 0; k < 500; ++k) { unsigned day = q.below(65536); uint32_t ms = q.below(86400000); std::string b = be(day, 2) + be(ms, 4);
        MSG_time_cds_short s((const unsigned char*)b.data()); const char* c = s.get_timechar(); sched_yield(); std::string want = date_of(unix_of(day, ms)) + fmt(" +%03u msecs", ms % 1000); if (c != want) bad[i] = std::string(c) + " for " + want; } }); }
    for (auto& t : th) t.join();
    for (auto& b : bad) VEXPECT(b.empty(), "thread-text", "%s", b.c_str());
    obs("threads", "6");
}
int main(int c, char** v) {
    parse_args(c, v); bool t = cfg().thorough;
    add_group("days", 128, 1, 60, days);
    add_group("order", t ? 400 : 40, 8, 30, order);
    add_group("cuc", t ? 400 : 40, 8, 30, cuc);
    add_group("generalized", t ? 700 : 70, 7, 30, generalized);
    add_group("threads", t ? 40 : 8, 1, 30, threads);
    return run_all();
}
