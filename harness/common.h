// Shared runtime for the monitors: seeded generation, case isolation in forked
// children, event log (one JSON object per line), violation reporting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __lsan_do_recoverable_leak_check(void);
extern "C" void __lsan_disable(void);
extern "C" void __lsan_enable(void);
#endif

namespace vf {

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed ^ 0x5bd1e995)) {}
    uint64_t u64() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    bool chance(double p) { return unit() < p; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Shared {            // survives a crash of the child
    volatile uint64_t evals;      // oracle comparisons made
    volatile uint64_t cases_done;
    volatile uint64_t next;       // next case index inside a batch
    volatile uint64_t sub;        // sub-step of the running case
    char note[1024];              // what the running case is
};

struct Config {
    uint64_t seed = 1;
    bool thorough = false;
    std::string out = "events.jsonl";
    std::string scratch = ".";
    std::string only;             // run just this case id (replay)
    std::string repo = "/repo";
    std::string prop;
    unsigned shard = 0, shards = 1;
};
inline Config& cfg() { static Config c; return c; }
inline Shared*& shm() { static Shared* s = nullptr; return s; }

inline std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    va_list ap; va_start(ap, f); char* p = nullptr;
    int n = vasprintf(&p, f, ap); va_end(ap);
    std::string r = n >= 0 ? std::string(p, n) : std::string(); free(p); return r;
}
inline int log_fd() {
    static int fd = -1; static pid_t owner = 0;
    if (fd < 0 || owner != getpid()) { if (fd >= 0) close(fd); fd = open(cfg().out.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644); owner = getpid(); }
    return fd;
}
inline void emit(const std::string& line) {
    int fd = log_fd();
    std::string l = line + "\n";
    if (write(fd, l.data(), l.size()) != (ssize_t)l.size()) { perror("event log"); _exit(97); }
}

struct CaseState {
    std::string id;
    std::map<std::string, int> viol;
    std::map<std::string, std::set<std::string>> obs;
    std::vector<std::string> samples;
};
inline CaseState& cur() { static CaseState c; return c; }

// Report a violation of the property. `key` names what failed, independent of
// the random parameters, and is what the known-findings file is matched with.
inline void viol(const std::string& key, const std::string& msg) {
    int& n = cur().viol[key];
    if (n++ < 3)
        emit("{\"t\":\"viol\",\"case\":\"" + jesc(cur().id) + "\",\"key\":\"" + jesc(key) + "\",\"msg\":\"" + jesc(msg.substr(0, 1500)) + "\"}");
}
inline bool expect(bool ok, const std::string& key, const std::function<std::string()>& msg) {
    if (shm()) shm()->evals = shm()->evals + 1;
    if (!ok) viol(key, msg());
    return ok;
}
#define VEXPECT(cond, key, ...) vf::expect((cond), (key), [&]() { return vf::fmt(__VA_ARGS__); })
inline void evals(uint64_t n) { if (shm()) shm()->evals = shm()->evals + n; }
// Record a distinct situation the monitor saw
inline void obs(const std::string& kind, const std::string& val) { cur().obs[kind].insert(val.size() > 160 ? val.substr(0, 160) : val); }
inline void sample(const std::string& s) { if (cur().samples.size() < 2) cur().samples.push_back(s.substr(0, 600)); }
inline void flush_case() {
    CaseState& c = cur();
    for (auto& k : c.obs) {
        std::string l = "{\"t\":\"obs\",\"case\":\"" + jesc(c.id) + "\",\"kind\":\"" + jesc(k.first) + "\",\"vals\":[";
        bool first = true;
        for (auto& v : k.second) { if (!first) l += ","; first = false; l += "\"" + jesc(v) + "\""; }
        emit(l + "]}");
    }
    for (auto& s : c.samples) emit("{\"t\":\"sample\",\"case\":\"" + jesc(c.id) + "\",\"s\":\"" + jesc(s) + "\"}");
    c = CaseState();
}
inline void note(const std::string& s) { if (shm()) { strncpy(shm()->note, s.c_str(), sizeof(shm()->note) - 1); } }

typedef std::function<void(Rng&)> CaseFn;

struct Group {
    std::string name;
    uint64_t n;                 // number of cases
    uint64_t batch;             // how many share one child process
    int timeout;                // seconds per case before it counts as hung
    std::function<void(uint64_t, Rng&)> fn;
};
inline std::vector<Group>& groups() { static std::vector<Group> g; return g; }
inline void add_group(const std::string& name, uint64_t n, uint64_t batch, int timeout, std::function<void(uint64_t, Rng&)> fn) {
    groups().push_back({name, n, batch, timeout, fn});
}

inline std::string read_file(const std::string& p, size_t maxn = (size_t)-1) {
    std::string r; FILE* f = fopen(p.c_str(), "rb"); if (!f) return r;
    char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) { r.append(b, n); if (r.size() >= maxn) break; }
    fclose(f); return r;
}
inline void write_file(const std::string& p, const std::string& d) {
    FILE* f = fopen(p.c_str(), "wb"); if (!f) { fprintf(stderr, "cannot write %s\n", p.c_str()); _exit(96); }
    if (fwrite(d.data(), 1, d.size(), f) != d.size()) _exit(96);
    if (fclose(f)) _exit(96);
}

inline int alarm_scale() { const char* e = getenv("VF_ALARM_SCALE"); int v = e ? atoi(e) : 1; return v > 0 ? v : 1; }
inline int run_child(const Group& g, uint64_t from, uint64_t to, const std::string& errfile) {
    shm()->next = from;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(95); }
    if (pid == 0) {
        int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 2);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        log_fd(); // open from the start, so that count_fds() does not see it come
        for (uint64_t i = from; i < to; ++i) {
            shm()->next = i; shm()->sub = 0; shm()->note[0] = 0;
            cur().id = g.name + ":" + std::to_string(i);
            alarm(g.timeout * alarm_scale());
            Rng r(mix(cfg().seed * 1000003ULL + mix(std::hash<std::string>()(g.name))) ^ mix(i + 17));
            g.fn(i, r);
            alarm(0);
            flush_case();
            shm()->cases_done = shm()->cases_done + 1;
        }
        shm()->next = to;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    return st;
}

// Run all registered groups. Every batch runs in a child; a child that dies is
// reported as a "crash" event with its stderr, and the rest of the batch goes on.
inline int run_all() {
    Config& c = cfg();
    shm() = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)shm(), 0, sizeof(Shared));
    std::string only_group; long long only_idx = -1;
    if (!c.only.empty()) {
        size_t p = c.only.rfind(':'); only_group = c.only.substr(0, p); only_idx = atoll(c.only.c_str() + p + 1);
    }
    std::string errfile = c.scratch + "/stderr.txt";
    for (auto& g : groups()) {
        if (!only_group.empty() && g.name != only_group) continue;
        uint64_t i = 0, n = g.n; int crashes = 0;
        if (only_idx >= 0) { i = only_idx; n = i + 1; }
        uint64_t cases_before = shm()->cases_done, mine = 0;
        while (i < n) {
            uint64_t to = std::min(n, (i / g.batch + 1) * g.batch);
            if (only_idx < 0 && (i / g.batch) % c.shards != c.shard) { i = to; continue; }
            mine += to - i;
            int st = run_child(g, i, to, errfile);
            std::string err = read_file(errfile);
            // Sanitizer reports that do not end the process (UBSan)
            bool died = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
            bool races = err.find("WARNING: ThreadSanitizer") != std::string::npos;
            if (died || races || err.find("runtime error:") != std::string::npos) {
                uint64_t at = died ? (uint64_t)shm()->next : i;
                int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
                int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
                size_t cap = races ? 2000000 : 60000;
                std::string e = err.size() > cap ? err.substr(0, cap / 2) + "\n...\n" + err.substr(err.size() - cap / 2) : err;
                emit("{\"t\":\"" + std::string(died ? "crash" : "report") + "\",\"case\":\"" + jesc(g.name + ":" + std::to_string(at)) +
                     "\",\"sub\":" + std::to_string((uint64_t)shm()->sub) + ",\"sig\":" + std::to_string(sig) + ",\"code\":" + std::to_string(code) +
                     ",\"timeout\":" + std::to_string(g.timeout) + ",\"note\":\"" + jesc(shm()->note) + "\",\"err\":\"" + jesc(e) + "\"}");
            }
            if (died) {
                mine -= to - (shm()->next + 1);
                i = shm()->next + 1;
                // one that hangs is likely to hang again: do not wait for each
                static int hangs = 0; if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++hangs;
                if (++crashes > 60 || hangs > 3) { emit("{\"t\":\"toomany\",\"group\":\"" + jesc(g.name) + "\"}"); break; }
            } else i = to;
        }
        emit("{\"t\":\"group\",\"name\":\"" + jesc(g.name) + "\",\"cases\":" + std::to_string((uint64_t)shm()->cases_done - cases_before) +
             ",\"planned\":" + std::to_string(mine) + "}");
    }
    emit("{\"t\":\"end\",\"evals\":" + std::to_string((uint64_t)shm()->evals) + ",\"cases\":" + std::to_string((uint64_t)shm()->cases_done) + "}");
    return 0;
}

inline void parse_args(int argc, char** argv) {
    Config& c = cfg();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") c.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier") c.thorough = val() == "thorough";
        else if (a == "--out") c.out = val();
        else if (a == "--scratch") c.scratch = val();
        else if (a == "--only") c.only = val();
        else if (a == "--repo") c.repo = val();
        else if (a == "--prop") c.prop = val();
        else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%u/%u", &c.shard, &c.shards); }
    }
}

// helpers -------------------------------------------------------------------
inline bool close_rel(double a, double b, double rel, double abs = 0) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
struct Bytes {                 // big-endian writer
    std::string b;
    void u1(unsigned v) { b += (char)(v & 255); }
    void u2(unsigned v) { u1(v >> 8); u1(v); }
    void u4(uint32_t v) { u2(v >> 16); u2(v & 0xffff); }
    void u8(uint64_t v) { u4((uint32_t)(v >> 32)); u4((uint32_t)v); }
    void r4(float f) { uint32_t v; memcpy(&v, &f, 4); u4(v); }
    void r8(double f) { uint64_t v; memcpy(&v, &f, 8); u8(v); }
    void str(const std::string& s) { b += s; }
    void pad(size_t n, char c = 0) { b.append(n, c); }
};
inline void put_be(std::string& s, size_t off, uint64_t v, int n) { for (int i = 0; i < n && off + i < s.size(); ++i) s[off + i] = (char)(v >> (8 * (n - 1 - i))); }
inline void put_r4(std::string& s, size_t off, float f) { uint32_t v; memcpy(&v, &f, 4); put_be(s, off, v, 4); }
inline void put_r8(std::string& s, size_t off, double f) { uint64_t v; memcpy(&v, &f, 8); put_be(s, off, v, 8); }
inline uint64_t get_be(const std::string& s, size_t off, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (off + i < s.size() ? (unsigned char)s[off + i] : 0); return v; }
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace vf { inline long long heap() { return (long long)__sanitizer_get_current_allocated_bytes(); } }
#endif
#include <dirent.h>
namespace vf {
inline int count_fds() {
    int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1;
    while (readdir(d)) ++n;
    closedir(d); return n;
}
}
