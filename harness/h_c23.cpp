// C23: files, trees and child processes, with faults at every system call
#include "common.h"
#include <msat/utils/sys.h>
#include <msat/utils/subprocess.h>
#include <algorithm>
#include <system_error>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/un.h>
#include <dirent.h>
using namespace vf; using std::string; using std::vector; namespace sys = msat::sys; namespace sp = msat::subprocess; namespace fs = std::filesystem;
extern char** environ;
static const bool QUICK_ID = true;
// ---- the system calls under the code, watched and made to fail
struct Faults { bool on = false, in_child = false, shorts = false, notype = false, child = false, swap = false; long at = 0, calls = 0; string fired, outside; int sw = 0; Rng* r = nullptr; vector<string> bad; pid_t forked = 0; std::set<pid_t> reaped; };
static Faults F;
static int errs(const char* n) { static std::map<string, vector<int>> E = { { "open", { EACCES, EMFILE, EIO } }, { "openat", { EACCES, EMFILE } }, { "read", { EIO, EINTR } }, { "write", { EIO, ENOSPC, EINTR } }, { "close", { EIO, EINTR } }, { "mmap", { ENOMEM } }, { "rename", { EACCES, ENOSPC } }, { "fork", { EAGAIN, ENOMEM } }, { "pipe", { EMFILE } }, { "waitpid", { EINTR } }, { "nanosleep", { EINTR } }, { "fdopendir", { ENOMEM } }, { "readdir", { EIO } }, { "fcntl", { EMFILE } }, { "dup2", { EBUSY } } }; auto i = E.find(n); return i == E.end() ? EIO : i->second[F.r ? F.r->below(i->second.size()) : 0]; }
static bool hit(const char* n) { if (!F.on || F.in_child != F.child) return false; if (++F.calls != F.at) return false; F.fired = n; errno = errs(n); return true; }
#define REAL(ret, name, ...) extern "C" ret __real_##name(__VA_ARGS__); extern "C" ret __wrap_##name(__VA_ARGS__)
REAL(ssize_t, read, int fd, void* b, size_t n) { if (hit("read")) return -1; if (F.on && F.shorts && n > 1) n = 1 + F.r->below(n); return __real_read(fd, b, n); }
REAL(ssize_t, write, int fd, const void* b, size_t n) { if (hit("write")) return -1; if (F.on && F.shorts && n > 1) n = 1 + F.r->below(n); return __real_write(fd, b, n); }
REAL(ssize_t, pread, int fd, void* b, size_t n, off_t o) { if (hit("pread")) return -1; if (F.on && F.shorts && n > 1) n = 1 + F.r->below(n); return __real_pread(fd, b, n, o); }
REAL(ssize_t, pwrite, int fd, const void* b, size_t n, off_t o) { if (hit("pwrite")) return -1; if (F.on && F.shorts && n > 1) n = 1 + F.r->below(n); return __real_pwrite(fd, b, n, o); }
REAL(int, close, int fd) { bool h = fd >= 0 && hit("close"); int e = errno, res = __real_close(fd); if (F.on && !F.in_child && fd >= 0 && res < 0 && errno == EBADF) F.bad.push_back(fmt("descriptor %d is closed twice", fd)); if (h) { errno = e; return -1; } return res; }
extern "C" int __real_open(const char*, int, ...); extern "C" int __wrap_open(const char* p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); if (hit("open")) return -1; return __real_open(p, f, m); }
extern "C" int __real_openat(int, const char*, int, ...); extern "C" int __wrap_openat(int d, const char* p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); if (hit("openat")) return -1; return __real_openat(d, p, f, m); }
extern "C" int __real_fcntl(int, int, ...); extern "C" int __wrap_fcntl(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); if (hit("fcntl")) return -1; return __real_fcntl(fd, c, a); }
REAL(int, fstat, int fd, struct stat* s) { if (hit("fstat")) return -1; return __real_fstat(fd, s); }
REAL(int, fstatat, int fd, const char* p, struct stat* s, int f) { if (hit("fstatat")) return -1; return __real_fstatat(fd, p, s, f); }
REAL(int, fchmod, int fd, mode_t m) { if (hit("fchmod")) return -1; return __real_fchmod(fd, m); }
REAL(void*, mmap, void* a, size_t n, int p, int f, int fd, off_t o) { if (fd >= 0 && hit("mmap")) return MAP_FAILED; return __real_mmap(a, n, p, f, fd, o); }
REAL(int, munmap, void* a, size_t n) { int res = __real_munmap(a, n); if (F.on && !F.in_child && a == MAP_FAILED) F.bad.push_back("MAP_FAILED is unmapped"); return res; }
REAL(int, rename, const char* a, const char* b) { if (hit("rename")) return -1; return __real_rename(a, b); }
REAL(int, unlinkat, int fd, const char* p, int f) { if (hit("unlinkat")) return -1; return __real_unlinkat(fd, p, f); }
REAL(int, unlink, const char* p) { return __real_unlink(p); }
REAL(int, mkstemp, char* p) { if (hit("mkstemp")) return -1; return __real_mkstemp(p); }
REAL(char*, mkdtemp, char* p) { if (hit("mkdtemp")) return nullptr; return __real_mkdtemp(p); }
REAL(DIR*, fdopendir, int fd) { if (hit("fdopendir")) return nullptr; return __real_fdopendir(fd); }
REAL(struct dirent*, readdir, DIR* d) {
    if (hit("readdir")) return nullptr; struct dirent* e = __real_readdir(d); if (!e || !F.on) return e;
    if (F.swap && e->d_type == DT_DIR && strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && F.sw-- == 0) { renameat(dirfd(d), e->d_name, AT_FDCWD, "moved"); symlinkat(F.outside.c_str(), dirfd(d), e->d_name); F.fired = "swap"; }
    if (F.notype) e->d_type = DT_UNKNOWN; return e; }
REAL(int, pipe, int p[2]) { if (hit("pipe")) return -1; return __real_pipe(p); }
REAL(int, dup2, int a, int b) { if (hit("dup2")) return -1; return __real_dup2(a, b); }
REAL(pid_t, fork, void) { if (hit("fork")) return -1; pid_t p = __real_fork(); if (p == 0) { F.in_child = true; F.calls = 0; } else if (F.on) F.forked = p; return p; }
REAL(pid_t, waitpid, pid_t p, int* s, int o) { if (hit("waitpid")) return -1; pid_t res = __real_waitpid(p, s, o); if (res > 0) F.reaped.insert(res); return res; }
REAL(int, nanosleep, const struct timespec* a, struct timespec* b) { if (hit("nanosleep")) { if (b) *b = *a; return -1; } return __real_nanosleep(a, b); }
REAL(int, kill, pid_t p, int s) { if (F.in_child || !F.on) return __real_kill(p, s); if (p <= 0) { F.bad.push_back(fmt("kill(%d) signals a group of processes", (int)p)); errno = EPERM; return -1; } if (F.reaped.count(p)) { F.bad.push_back("a process that was waited for is signalled"); errno = ESRCH; return -1; } return __real_kill(p, s); }
struct Watch { int fds; Watch(Rng& r, long at = 0) { fds = count_fds(); F = Faults(); F.r = &r; F.at = at; F.on = true; } ~Watch() { off(); } void off() { F.on = false; } void done(const char* what) { off(); int n = count_fds(); VEXPECT(n == fds, "descriptors", "%s: %d descriptors open, %d before (fault at %s)", what, n, fds, F.fired.c_str()); for (auto& b : F.bad) viol("double-release", fmt("%s: %s (fault at %s)", what, b.c_str(), F.fired.c_str())); } };
// ---- trees
struct Node { char type; string data; mode_t mode; bool operator==(const Node& o) const { return type == o.type && data == o.data && mode == o.mode; } };
typedef std::map<string, Node> Tree;
static void snap(const string& d, Tree& t, const string& rel = "") {
    DIR* h = opendir(d.c_str()); if (!h) return; vector<string> n; while (dirent* e = readdir(h)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name); closedir(h);
    for (auto& f : n) { string p = d + "/" + f; struct stat st; if (lstat(p.c_str(), &st)) continue; char k = S_ISDIR(st.st_mode) ? 'd' : S_ISREG(st.st_mode) ? 'f' : S_ISLNK(st.st_mode) ? 'l' : S_ISFIFO(st.st_mode) ? 'p' : S_ISSOCK(st.st_mode) ? 's' : S_ISCHR(st.st_mode) ? 'c' : 'b'; string data; if (k == 'f') data = vf::read_file(p); else if (k == 'l') { char b[5000]; ssize_t l = readlink(p.c_str(), b, sizeof b); data.assign(b, l > 0 ? l : 0); } t[rel + f] = { k, data, st.st_mode & 07777 }; if (k == 'd') snap(p, t, rel + f + "/"); }
}
static Tree snap(const string& d) { Tree t; snap(d, t); return t; }
static void wipe(const string& d) { Tree t = snap(d); for (auto i = t.rbegin(); i != t.rend(); ++i) { string p = d + "/" + i->first; if (i->second.type == 'd') { ::chmod(p.c_str(), 0700); ::rmdir(p.c_str()); } else __real_unlink(p.c_str()); } }
static string bytes(Rng& r, size_t n) { string s(n, 0); for (auto& c : s) c = (char)r.u64(); return s; }
static string content(Rng& r) { static const size_t S[] = { 0, 1, 511, 512, 4095, 4096, 4097, 8192, 65535, 65536, 65537 }; switch (r.below(5)) { case 0: return bytes(r, S[r.below(11)]); case 1: return string(r.below(3000), '\0'); case 2: return bytes(r, r.below(300000)); default: return bytes(r, r.below(200)); } }
static string fname(Rng& r) { switch (r.below(12)) { case 0: return "..."; case 1: return ".hidden" + fmt("%d", (int)r.below(99)); case 2: return "-rf" + fmt("%d", (int)r.below(99)); case 3: return "new\nline" + fmt("%d", (int)r.below(99)); case 4: return "sp ace " + fmt("%d", (int)r.below(99)); case 5: return "\xc3\xa8\xff" + fmt("%d", (int)r.below(99)); case 6: return string(200 + r.below(56), 'a' + r.below(26)); case 7: return "*"; case 8: return "..x"; default: return fmt("f%d", (int)r.below(100000)); } }
static string here() { char b[8192]; return getcwd(b, sizeof b); }
static void grow(Rng& r, const string& d, int depth, int wide, const string& out) {
    int n = r.below(wide + 1); for (int i = 0; i < n; ++i) { string p = d + "/" + fname(r); struct stat st; if (lstat(p.c_str(), &st) == 0 || p.size() > 3000) continue;
        switch (r.below(10)) { case 0: case 1: if (depth > 0) { ::mkdir(p.c_str(), 0755); grow(r, p, depth - 1, wide, out); if (r.chance(0.05)) ::chmod(p.c_str(), 0500); } break; case 2: ::symlink(out.c_str(), p.c_str()); break; case 3: ::symlink(r.chance(0.5) ? (out + "/keep").c_str() : r.chance(0.5) ? "missing" : "..", p.c_str()); break; case 4: ::mkfifo(p.c_str(), 0600); break; case 5: ::mknod(p.c_str(), S_IFSOCK | 0600, 0); break; case 6: ::mkdir(p.c_str(), 0700); break; default: vf::write_file(p, r.chance(0.3) ? "" : bytes(r, r.below(50))); if (r.chance(0.1)) ::chmod(p.c_str(), 0); } }
}
static string setup(Rng& r, bool deep = false) { wipe("."); ::mkdir("out", 0755); ::mkdir("out/sub", 0755); vf::write_file("out/keep", "keep me"); vf::write_file("out/sub/too", "and me"); ::symlink("keep", "out/link"); string out = here() + "/out"; ::mkdir("t", 0755); if (deep) { string p = "t"; for (int i = 5 + r.below(60); i-- > 0;) { p += "/" + fmt("d%d", i); ::mkdir(p.c_str(), 0755); if (r.chance(0.2)) ::symlink(out.c_str(), (p + "/o").c_str()); if (r.chance(0.2)) vf::write_file(p + "/f", "x"); } } grow(r, "t", 3, deep ? 6 : 12, out); if (!deep && r.chance(0.02)) for (int i = 0; i < 500; ++i) vf::write_file(fmt("t/w%d", i), ""); return out; }
static Tree under(const Tree& t, const string& p) { Tree o; for (auto& e : t) if (e.first.compare(0, p.size(), p) == 0) o.insert(e); return o; }
// everything but paths starting with one of these is as before
static void untouched(const Tree& a, const Tree& b, const string& but, const char* what) { for (auto& e : a) { if (!but.empty() && (e.first == but || e.first.compare(0, but.size() + 1, but + "/") == 0)) continue; auto i = b.find(e.first); if (i == b.end()) viol("outside", fmt("%s: '%s' is gone (fault at %s)", what, e.first.c_str(), F.fired.c_str())); else if (!(i->second == e.second)) viol("outside", fmt("%s: '%s' is changed (fault at %s)", what, e.first.c_str(), F.fired.c_str())); } for (auto& e : b) { if (!but.empty() && (e.first == but || e.first.compare(0, but.size() + 1, but + "/") == 0)) continue; if (!a.count(e.first)) viol("leftover", fmt("%s: there is '%s' now (fault at %s)", what, e.first.c_str(), F.fired.c_str())); } evals(a.size()); }
template<class Fn> static bool tryit(Fn fn, string* why = nullptr) { try { fn(); return true; } catch (std::exception& e) { if (why) *why = e.what(); return false; } }
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
// ---- one operation under one fault; true if the fault was reached
static bool one(uint64_t seed, int op, long at, bool shorts) {
    Rng r(seed); string out = setup(r, op == 4 && r.chance(0.3)); Tree before = snap("."); const char* W = "";
    auto arm = [&]() { F.shorts = shorts; F.notype = r.chance(0.3); };
    auto faulty = [&](bool ok, const string& why) { if (!ok && F.fired.empty()) viol("spurious", fmt("%s fails without a fault: %s", W, why.c_str())); };
    string why;
    switch (op) {
    case 0: { W = "read_file"; string d = content(r), got; int kind = r.below(8); string p = "t/it"; unlink(p.c_str()); if (kind == 0) p = "/proc/self/cmdline", d = vf::read_file(p); else if (kind == 1) { vf::write_file("t/real", d); ::symlink("real", p.c_str()); } else vf::write_file(p, d); Tree b2 = snap("."); bool ok; { Watch w(r, at); arm(); ok = tryit([&]() { got = r.chance(0.5) ? sys::read_file(p.c_str()) : sys::read_file(fs::path(p)); }, &why); w.done(W); } if (ok) VEXPECT(got == d, "read", "%zu bytes are read as %zu (fault at %s)", d.size(), got.size(), F.fired.c_str()); faulty(ok, why); untouched(b2, snap("."), "", W); obs("read", fmt("%d %s %d", kind < 2 ? kind : 2, F.fired.c_str(), ok)); break; }
    case 1: case 2: { bool atomic = op == 2; W = atomic ? "write_file_atomically" : "write_file"; static const char* T[] = { "t/it", "t/sub/it", "t/missing/it", "t/dir", "t/link" }; string old = content(r), d = content(r), p = T[r.chance(0.8) ? r.below(2) : r.below(atomic ? 4 : 5)]; wipe("t"); ::mkdir("t/sub", 0755); ::mkdir("t/dir", 0755); vf::write_file("t/dir/x", "x"); vf::write_file("t/target", "old target"); ::chmod("t/target", 0640); ::symlink("target", "t/link"); bool exists = r.chance(0.5); mode_t om = r.chance(0.5) ? 0600 : 0755; if (exists && (p == "t/it" || p == "t/sub/it")) { vf::write_file(p, old); ::chmod(p.c_str(), om); } else exists = false; before = snap(".");
        mode_t um = r.chance(0.5) ? 022 : r.below(01000), mode = r.chance(0.5) ? 0666 : r.below(01000), prev = ::umask(um); bool plainmode = r.chance(0.3); if (plainmode) mode = 0777; if (r.chance(0.2)) d.clear(); int form = r.below(3); bool ok; { Watch w(r, at); arm(); ok = tryit([&]() { if (atomic) { if (form == 0) { if (plainmode) sys::write_file_atomically(p.c_str(), d); else sys::write_file_atomically(p.c_str(), d, mode); } else if (form == 1) sys::write_file_atomically(fs::path(p), d.data(), d.size(), mode); else sys::write_file_atomically(fs::path(p), d, mode); } else { if (form == 0) { if (plainmode) sys::write_file(p.c_str(), d); else sys::write_file(p.c_str(), d, mode); } else if (form == 1) sys::write_file(fs::path(p), d.data(), d.size(), mode); else sys::write_file(fs::path(p), d, mode); } }, &why); w.done(W); } mode_t now = ::umask(prev); VEXPECT(now == um, "umask", "%s leaves umask %o instead of %o", W, now, um);
        Tree after = snap("."); string q = p == "t/link" ? "t/target" : p; bool can = p != "t/missing/it" && p != "t/dir"; if (!can) VEXPECT(!ok, "write", "writing %s succeeds", p.c_str()); else faulty(ok, why);
        if (ok) { auto& n = after[q]; VEXPECT(n.type == 'f' && n.data == d, "write", "%s: %zu bytes are written as %zu (fault at %s)", W, d.size(), n.data.size(), F.fired.c_str()); mode_t want = exists && !atomic ? om : q == "t/target" ? 0640 : mode & ~um; VEXPECT(n.mode == want, "mode", "%s: mode is %o, not %o", W, n.mode, want); untouched(before, after, q, W); }
        else if (atomic || !can) untouched(before, after, "", W); else { untouched(before, after, q, W); if (after.count(q)) { auto& n = after[q]; VEXPECT(d.compare(0, n.data.size(), n.data) == 0 || (before.count(q) && before[q] == n), "write", "%s fails and leaves something else", W); } } wipe("t"); obs(atomic ? "atomic" : "write", fmt("%s %s %d", p.c_str(), F.fired.c_str(), ok)); break; }
    case 3: { W = "walk"; ::chmod("t", 0755); std::map<string, char> got, want; for (auto& e : before) if (e.first.compare(0, 2, "t/") == 0) want[e.first.substr(2)] = e.second.type; bool ok; { Watch w(r, at); arm(); std::function<void(sys::Path&, string)> walk = [&](sys::Path& p, string rel) { int dots = 0; for (auto i = p.begin(); i != p.end(); ++i) { string n = i->d_name; if (n == "." || n == "..") { ++dots; if (!i.isdir()) got[rel + n] = '!'; continue; } string k; if (i.isdir()) k += 'd'; if (i.isreg()) k += 'f'; if (i.islnk()) k += 'l'; if (i.isfifo()) k += 'p'; if (i.issock()) k += 's'; if (i.ischr()) k += 'c'; if (i.isblk()) k += 'b'; if (got.count(rel + n)) k = "twice"; got[rel + n] = k.size() == 1 ? k[0] : '?'; if (k == "d") { sys::Path s = i.open_path(); walk(s, rel + n + "/"); } } if (dots != 2) got[rel + "dots"] = '?'; }; ok = tryit([&]() { sys::Path p("t"); walk(p, ""); }, &why); w.done(W); } faulty(ok, why); if (ok) { for (auto& e : want) VEXPECT(got.count(e.first) && got[e.first] == e.second, "walk", "'%s' of type %c is seen as '%c'", e.first.c_str(), e.second, got.count(e.first) ? got[e.first] : '-'); VEXPECT(got.size() == want.size(), "walk", "%zu entries instead of %zu", got.size(), want.size()); } untouched(before, snap("."), "", W); obs("walk", fmt("%zu %s %d %d", std::min<size_t>(want.size(), 50) / 5, F.fired.c_str(), ok, F.notype)); break; }
    case 4: { W = "rmtree"; static const char* P[] = { "t", "./t", "out/../t", "t/" }; string p = P[r.below(4)]; if (r.chance(0.3)) p = here() + "/t"; int form = r.below(4); bool ok, ret = true, swap = r.chance(0.3); { Watch w(r, at); arm(); if (swap && !at) { F.swap = true; F.sw = r.below(4); F.outside = out; } ok = tryit([&]() { if (form == 0) sys::rmtree(p); else if (form == 1) ret = sys::rmtree_ifexists(p.c_str()); else if (form == 2) ret = sys::rmtree_ifexists(fs::path(p)); else { sys::Path q{ fs::path(p) }; q.rmtree(); } }, &why); w.done(W); } Tree after = snap("."); bool swapped = F.fired == "swap"; if (swapped) { for (auto i = after.begin(); i != after.end();) if (i->first == "moved" || i->first.compare(0, 6, "moved/") == 0) i = after.erase(i); else ++i; } else faulty(ok, why); if (ok && !swapped) { VEXPECT(!after.count("t"), "rmtree", "the tree is still there (fault at %s)", F.fired.c_str()); VEXPECT(ret, "rmtree", "the tree is said not to exist"); } untouched(before, after, "t", W); for (auto& e : under(after, "t/")) { auto i = before.find(e.first); if (!swapped && (i == before.end() || !(i->second == e.second))) viol("rmtree", fmt("'%s' has changed", e.first.c_str())); }
        if (form == 1 || form == 2) { Watch w2(r); bool ret2 = true; if (tryit([&]() { ret2 = sys::rmtree_ifexists("t/not/there"); }) && !at) VEXPECT(!ret2, "rmtree", "a missing tree is said to exist"); w2.done("rmtree of nothing"); } if (!at) { vf::write_file("plain", "p"); Watch w3(r); bool ok3 = tryit([&]() { sys::rmtree("plain"); }); w3.done("rmtree of a file"); VEXPECT(!ok3 && vf::read_file("plain") == "p", "rmtree", "a file is removed as a tree"); bool ok4 = tryit([&]() { sys::rmtree("t/nothing"); }); VEXPECT(!ok4, "rmtree", "removing a missing tree succeeds"); } obs("rmtree", fmt("%zu %s %d %d %d", std::min<size_t>(before.size(), 100) / 10, F.fired.c_str(), ok, F.notype, form)); break; }
    case 5: { W = "temporaries"; bool keepf = r.chance(0.3), keepd = r.chance(0.3), now = r.chance(0.2), dir = r.chance(0.1); string fp, dp, d = content(r); bool ok; { Watch w(r, at); arm(); ok = tryit([&]() { sys::Tempfile f(r.chance(0.5) ? "t/tmp" : "t/"); fp = f.path(); if (keepf) f.unlink_on_exit(false); sys::Tempdir td(fs::path("t/dir")); dp = td.path(); if (keepd) td.rmtree_on_exit(false); f.write_all_or_retry(d.data(), d.size()); td.mkdirat("a"); td.symlinkat(out.c_str(), "a/o"); td.symlinkat("/dev/null", "n"); int fd = td.openat("file", O_WRONLY | O_CREAT, 0600); ::close(fd); if (vf::read_file(fp) != d) viol("temporary", "the temporary file has other contents"); if (now) f.unlink(); if (dir && now) { F.on = false; ::mkdir(fp.c_str(), 0700); vf::write_file(fp + "/x", ""); F.on = true; } }, &why); w.done(W); } faulty(ok, why); Tree after = snap("."); if (F.fired.empty()) { bool fthere = after.count(fp), dthere = after.count(dp); VEXPECT(fthere == ((keepf && !now) || (dir && now)), "temporary", "temporary file: there %d, kept %d, removed %d", fthere, keepf, now); VEXPECT(dthere == keepd, "temporary", "temporary directory: there %d, kept %d", dthere, keepd); for (auto i = after.begin(); i != after.end();) if ((!fp.empty() && i->first.compare(0, fp.size(), fp) == 0) || (!dp.empty() && i->first.compare(0, dp.size(), dp) == 0)) i = after.erase(i); else ++i; untouched(before, after, "", W); } else untouched(before, after, "t", W); obs("temporary", fmt("%s %d %d%d%d", F.fired.c_str(), ok, keepf, keepd, now)); break; }
    }
    return !F.fired.empty();
}
static void files(Rng& r) {
    string dir = cfg().scratch + fmt("/c23.%d", (int)getpid()); ::mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) return;
    for (int op = 0; op < 6; ++op) { uint64_t seed = r.u64(); one(seed, op, 0, false); one(seed, op, 0, true); int fired = 0; for (long at = 1; at <= 25; ++at) { if (!one(r.chance(0.7) ? seed : r.u64(), op, r.chance(0.8) ? at : r.range(1, 400), false)) { if (++fired > 3) break; } } }
    if (chdir(cfg().scratch.c_str())) return; wipe(dir); ::rmdir(dir.c_str()); sample("six operations under every fault");
}
// ---- queries
static void queries(Rng& r) {
    string dir = cfg().scratch + fmt("/c23q.%d", (int)getpid()); ::mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) return; string out = setup(r); vf::write_file("file", content(r)); ::mkdir("dir", 0755); ::mkfifo("fifo", 0600); ::mknod("sock", S_IFSOCK | 0600, 0); ::symlink("file", "lf"); ::symlink("dir", "ld"); ::symlink("fifo", "lp"); ::symlink("nothing", "dangling"); ::symlink("loop", "loop"); Tree before = snap("."); int fds = count_fds();
    static const char* P[] = { "file", "dir", "fifo", "sock", "lf", "ld", "lp", "dangling", "loop", "nothing", "dir/nothing", "file/under", "/dev/null", ".", "..", "dir/", "" };
    for (int k = 0; k < 40; ++k) { string p = P[r.below(17)]; if (r.chance(0.2)) { auto i = std::next(before.begin(), r.below(before.size())); p = i->first; } if (r.chance(0.2) && p[0] != '/' && !p.empty()) p = here() + "/" + p; struct stat st, ls; int e = ::stat(p.c_str(), &st) ? errno : 0, le = ::lstat(p.c_str(), &ls) ? errno : 0; string why;
        auto same = [&](const char* n, std::function<bool()> f, bool want, int err) { bool got = false, threw = !tryit([&]() { got = f(); }, &why); if (err && err != ENOENT) VEXPECT(threw, "query", "%s of '%s' reports no error", n, p.c_str()); else VEXPECT(!threw && got == (err ? false : want), "query", "%s of '%s' is %s", n, p.c_str(), threw ? why.c_str() : got ? "true" : "false"); };
        same("isdir", [&]() { return sys::isdir(p); }, S_ISDIR(st.st_mode), e); same("isreg", [&]() { return sys::isreg(p); }, S_ISREG(st.st_mode), e); same("ischr", [&]() { return sys::ischr(p); }, S_ISCHR(st.st_mode), e); same("isblk", [&]() { return sys::isblk(p); }, S_ISBLK(st.st_mode), e); same("isfifo", [&]() { return sys::isfifo(p); }, S_ISFIFO(st.st_mode), e); same("issock", [&]() { return sys::issock(p); }, S_ISSOCK(st.st_mode), e); same("islnk", [&]() { return sys::islnk(p); }, S_ISLNK(ls.st_mode), le);
        auto num = [&](const char* n, std::function<long()> f, std::function<long()> g, long want, long def) { long v = 0; bool threw = !tryit([&]() { v = f(); }); VEXPECT(threw == (e != 0) && (threw || v == want), "query", "%s of '%s' is %ld, not %ld (error %d)", n, p.c_str(), threw ? -1 : v, want, e); v = 0; threw = !tryit([&]() { v = g(); }); VEXPECT(threw == (e && e != ENOENT) && (threw || v == (e ? def : want)), "query", "%s of '%s' with a default is %ld (error %d)", n, p.c_str(), v, e); };
        num("timestamp", [&]() { return (long)sys::timestamp(p); }, [&]() { return (long)sys::timestamp(p, 77); }, st.st_mtime, 77); num("size", [&]() { return (long)sys::size(p); }, [&]() { return (long)sys::size(p, 78); }, st.st_size, 78); num("inode", [&]() { return (long)sys::inode(p); }, [&]() { return (long)sys::inode(p, 79); }, st.st_ino, 79);
        struct stat s2; bool threw = !tryit([&]() { auto q = r.chance(0.3) ? sys::stat(p.c_str()) : r.chance(0.5) ? sys::stat(p) : sys::stat(fs::path(p)); if ((bool)q != (e == 0) || (q && q->st_ino != st.st_ino)) viol("query", fmt("stat of '%s' is wrong", p.c_str())); }); VEXPECT(threw == (e && e != ENOENT), "query", "stat of '%s' %s (error %d)", p.c_str(), threw ? "throws" : "returns", e); threw = !tryit([&]() { if (r.chance(0.5)) sys::stat(p.c_str(), s2); else sys::stat(fs::path(p), s2); }); VEXPECT(threw == (e != 0) && (e || s2.st_ino == st.st_ino), "query", "stat of '%s' (error %d)", p.c_str(), e);
        int m = r.below(8); VEXPECT(sys::access(p, m) == (::access(p.c_str(), m) == 0), "query", "access of '%s'", p.c_str()); obs("query", fmt("%s %d", S_ISDIR(st.st_mode) ? "d" : "o", e)); }
    VEXPECT(sys::getcwd() == here(), "query", "getcwd"); { string a = sys::abspath("dir/../file"); VEXPECT(a == here() + "/file", "query", "abspath is %s", a.c_str()); a = sys::abspath("/x/./y//z"); VEXPECT(a == "/x/y/z", "query", "abspath is %s", a.c_str()); }
    { string s = sys::with_suffix("a/b.c", ".tmp").native(); VEXPECT(s == "a/b.c.tmp", "suffix", "%s", s.c_str()); VEXPECT(!tryit([&]() { sys::with_suffix("a/b/", ".x"); }), "suffix", "a directory gets a suffix"); VEXPECT(!tryit([&]() { sys::with_suffix("", ".x"); }), "suffix", "nothing gets a suffix"); }
    VEXPECT(snap(".") == before && count_fds() == fds, "outside", "queries change something");
    // changes
    auto chg = [&](const char* what, std::function<bool()> f, bool threw_want, bool want) { bool got = false, threw = !tryit([&]() { got = f(); }); VEXPECT(threw == threw_want && (threw || got == want), "change", "%s: %s, should be %s", what, threw ? "error" : got ? "true" : "false", threw_want ? "error" : want ? "true" : "false"); };
    chg("mkdir_ifmissing new", [&]() { return sys::mkdir_ifmissing("nd"); }, false, true); chg("mkdir_ifmissing old", [&]() { return sys::mkdir_ifmissing("nd"); }, false, false); chg("mkdir_ifmissing file", [&]() { return sys::mkdir_ifmissing("file"); }, true, false); chg("mkdir_ifmissing under nothing", [&]() { return sys::mkdir_ifmissing("no/thing"); }, true, false); chg("mkdir_ifmissing link", [&]() { return sys::mkdir_ifmissing("ld"); }, false, false);
    chg("makedirs", [&]() { return sys::makedirs("m/a/b/c"); }, false, true); VEXPECT(fs::is_directory("m/a/b/c"), "change", "makedirs made nothing"); chg("makedirs again", [&]() { return sys::makedirs("m/a/b/c"); }, false, false); chg("makedirs under a file", [&]() { return sys::makedirs("file/a"); }, true, false); 
    chg("unlink_ifexists", [&]() { vf::write_file("u", "1"); return sys::unlink_ifexists("u"); }, false, true); VEXPECT(::access("u", F_OK) != 0, "change", "unlink left the file"); chg("unlink_ifexists nothing", [&]() { return sys::unlink_ifexists(r.chance(0.5) ? fs::path("u") : fs::path("no/u")); }, false, false); chg("unlink_ifexists dir", [&]() { return sys::unlink_ifexists(string("dir")); }, true, false); chg("unlink_ifexists link", [&]() { ::symlink("file", "u"); return sys::unlink_ifexists(string("u")); }, false, true);
    chg("rename_ifexists nothing", [&]() { return sys::rename_ifexists("nothing", "n2"); }, false, false); chg("rename_ifexists", [&]() { vf::write_file("ra", "A"); vf::write_file("rb", "B"); return sys::rename_ifexists("ra", "rb"); }, false, true); VEXPECT(vf::read_file("rb") == "A" && ::access("ra", F_OK) != 0, "change", "rename did not rename"); chg("rename_ifexists to a missing directory", [&]() { return sys::rename_ifexists("rb", "no/where"); }, true, false); chg("rename_ifexists of a dangling link to a missing directory", [&]() { return sys::rename_ifexists("dangling", "no/where"); }, true, false); chg("rename_ifexists over a directory", [&]() { return sys::rename_ifexists("rb", "dir"); }, true, false); VEXPECT(vf::read_file("rb") == "A", "change", "a failed rename loses the file"); chg("rename", [&]() { sys::rename("rb", "rc"); return true; }, false, true); chg("rename nothing", [&]() { sys::rename("rb", "rc"); return true; }, true, true); VEXPECT(vf::read_file("rc") == "A", "change", "rename lost the file");
    { time_t ts = r.range(0, 4000000000LL); sys::touch("rc", ts); struct stat st; ::stat("rc", &st); VEXPECT(st.st_mtime == ts && st.st_atime == ts, "change", "touch sets %ld instead of %ld", (long)st.st_mtime, (long)ts); VEXPECT(!tryit([&]() { sys::touch("nothing", 1); }), "change", "touching nothing succeeds"); { int fd = ::open("rc", O_RDWR); { sys::PreserveFileTimes p{ sys::FileDescriptor(fd) }; if (::write(fd, "zz", 2) != 2) {} } ::stat("rc", &st); VEXPECT(st.st_mtime == ts && st.st_atime == ts, "change", "file times are not preserved"); { sys::PreserveFileTimes p{ sys::FileDescriptor(fd) }; ::close(fd); } } }
    chg("unlink nothing", [&]() { sys::unlink("nothing"); return true; }, true, true); chg("unlink dir", [&]() { sys::unlink("dir"); return true; }, true, true); chg("unlink", [&]() { sys::unlink("rc"); return true; }, false, true); chg("rmdir", [&]() { sys::rmdir("nd"); return true; }, false, true); chg("rmdir full", [&]() { sys::rmdir("m"); return true; }, true, true); chg("rmdir file", [&]() { sys::rmdir("file"); return true; }, true, true); sys::rmtree("m");
    { struct rlimit a, b; ::getrlimit(RLIMIT_CORE, &a); rlim_t half = a.rlim_max == RLIM_INFINITY ? 12345 : a.rlim_max / 2; { sys::OverrideRlimit o(RLIMIT_CORE, half); ::getrlimit(RLIMIT_CORE, &b); VEXPECT(b.rlim_cur == half && b.rlim_max == a.rlim_max, "change", "the limit is not overridden"); o.set(0); ::getrlimit(RLIMIT_CORE, &b); VEXPECT(b.rlim_cur == 0, "change", "the limit is not changed"); } ::getrlimit(RLIMIT_CORE, &b); VEXPECT(b.rlim_cur == a.rlim_cur && b.rlim_max == a.rlim_max, "change", "the limit is not restored"); }
    for (int i = 0; i < 10; ++i) { timespec a = { r.range(0, 5), r.range(0, 999999999) }, b = { r.range(0, 5), r.range(0, 999999999) }; long long d = (b.tv_sec - a.tv_sec) * 1000000000LL + b.tv_nsec - a.tv_nsec; unsigned long long g = sys::timesec_elapsed(a, b); VEXPECT((long long)g == std::max(0LL, d), "elapsed", "%llu instead of %lld", g, d); } { sys::Clock c(CLOCK_MONOTONIC); timespec t = { 0, 2000000 }; ::nanosleep(&t, nullptr); VEXPECT(c.elapsed() >= 2000000, "elapsed", "too little time has passed"); }
    Tree after = snap("."); untouched(before, after, "", "changes");
    // which
    { ::mkdir("p1", 0755); ::mkdir("p2", 0755); ::mkdir("p3", 0755); string name = fmt("prog%d", (int)r.below(100)), want = name, PATH; const char* old = getenv("PATH"); string saved = old ? old : ""; for (int i = 1; i <= 3; ++i) { string p = fmt("p%d", i), f = p + "/" + name; int k = r.below(5); if (k == 0) ::mkdir(f.c_str(), 0755); else if (k == 1) { vf::write_file(f, ""); ::chmod(f.c_str(), 0644); } else if (k == 2) { vf::write_file(f, ""); ::chmod(f.c_str(), 0755); } else if (k == 3) ::symlink("nowhere", f.c_str()); bool rel = r.chance(0.2); PATH += (i > 1 ? ":" : "") + (rel ? p : here() + "/" + p); if (k == 2 && want == name) want = here() + "/" + f; if (r.chance(0.2)) PATH += ":/missing/dir"; } setenv("PATH", PATH.c_str(), 1); string got = sys::which(name).native(); VEXPECT(got == want, "which", "'%s' in %s is found as '%s', not '%s'", name.c_str(), PATH.c_str(), got.c_str(), want.c_str()); got = sys::which("x/y").native(); VEXPECT(got == here() + "/x/y", "which", "x/y is %s", got.c_str()); got = sys::which("/x/y").native(); VEXPECT(got == "/x/y", "which", "/x/y is %s", got.c_str()); unsetenv("PATH"); got = sys::which(name).native(); VEXPECT(got == name, "which", "without PATH, %s", got.c_str()); setenv("PATH", saved.c_str(), 1); obs("which", want == name ? "none" : want.substr(here().size(), 3)); }
    if (chdir(cfg().scratch.c_str())) return; wipe(dir); ::rmdir(dir.c_str()); sample("queries of every kind of file");
}
// ---- descriptors: a history on a few objects against a model
static void descriptors(Rng& r) {
    string dir = cfg().scratch + fmt("/c23d.%d", (int)getpid()); ::mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) return; setup(r);
    for (int k = 0; k < 6; ++k) { for (int i = 0; i < 4; ++i) vf::write_file(fmt("f%d", i), ""); vector<string> model(4); Watch w(r); F.shorts = r.chance(0.3);
        { vector<sys::File> v; vector<int> which; vector<off_t> pos; for (int i = 0; i < 4; ++i) { v.emplace_back(fs::path(fmt("f%d", i)), O_RDWR); which.push_back(i); pos.push_back(0); }
        int steps = r.below(150); for (int s = 0; s < steps; ++s) { int i = r.below(4), j = r.below(4); string why; int op = r.below(16); auto need = [&]() { if (v[i].is_open()) return true; return false; }; string& m = model[which[i] < 0 ? 0 : which[i]];
            if (op < 2) { if (i == j) continue; v[i] = std::move(v[j]); which[i] = which[j]; pos[i] = pos[j]; if (v[j].is_open()) viol("move", "a moved file is still open"); which[j] = -1; continue; }
            if (op == 2) { sys::File f(std::move(v[i])); if (v[i].is_open()) viol("move", "a moved file is still open"); v[i] = std::move(f); continue; }
            if (op == 3) { if (!need() || !r.chance(0.3)) continue; v[i].close(); v[i].close(); which[i] = -1; if (v[i].is_open() || (int)v[i] != -1) viol("close", "a closed file is open"); continue; }
            if (which[i] < 0) { if (r.chance(0.5)) { int f = r.below(4); v[i] = sys::File(fs::path(fmt("f%d", f)), O_RDWR); which[i] = f; pos[i] = 0; } else { VEXPECT(!tryit([&]() { char c; v[i].read(&c, 1); }), "closed", "a closed file can be read"); } continue; }
            if (op == 4) { string d = bytes(r, r.below(300)); v[i].write_all_or_retry(d); if (m.size() < (size_t)pos[i] + d.size()) m.resize(pos[i] + d.size()); m.replace(pos[i], d.size(), d); pos[i] += d.size(); }
            else if (op == 5) { size_t n = r.below(300); string b(n, 'x'); bool ret = false, ok = tryit([&]() { ret = v[i].read_all_or_retry(&b[0], n); }, &why); size_t avail = pos[i] < (off_t)m.size() ? m.size() - pos[i] : 0; bool full = avail >= n; VEXPECT(ok == (full || avail == 0) && (!ok || ret == full), "read", "%zu bytes where %zu are left: %s %d", n, avail, ok ? "returns" : why.c_str(), ret); if (ok && full) VEXPECT(m.compare(pos[i], n, b) == 0, "read", "other bytes are read"); pos[i] = v[i].lseek(0, SEEK_CUR); VEXPECT(pos[i] <= (off_t)std::max<size_t>(m.size(), pos[i]), "read", "position"); }
            else if (op == 6) { off_t o = r.below(400); int wh = r.below(3); bool can = !(wh == 2 && o > (off_t)m.size()); off_t want = wh == 0 ? o : wh == 1 ? pos[i] + o : (off_t)m.size() - o; off_t got = -1; bool ok = tryit([&]() { got = v[i].lseek(wh == 2 ? -o : o, wh == 0 ? SEEK_SET : wh == 1 ? SEEK_CUR : SEEK_END); }); VEXPECT(ok == can && (!ok || got == want), "seek", "to %ld instead of %ld", (long)got, (long)want); if (ok) pos[i] = got; }
            else if (op == 7) { off_t o = r.below(500); string d = bytes(r, 1 + r.below(100)); size_t n = v[i].pwrite(d, o); VEXPECT(n >= 1 && n <= d.size() && (F.shorts || n == d.size()), "write", "pwrite writes %zu of %zu", n, d.size()); if (m.size() < o + n) m.resize(o + n); m.replace(o, n, d, 0, n); }
            else if (op == 8) { off_t o = r.below(500); string b(1 + r.below(100), 'x'); size_t n = v[i].pread(&b[0], b.size(), o), avail = o < (off_t)m.size() ? m.size() - o : 0; VEXPECT(n <= std::min(avail, b.size()) && (F.shorts ? n > 0 || !avail : n == std::min(avail, b.size())) && (!n || m.compare(o, n, b, 0, n) == 0), "read", "pread"); }
            else if (op == 9) { off_t n = r.below(600); v[i].ftruncate(n); m.resize(n); }
            else if (op == 10) { struct stat st; v[i].fstat(st); VEXPECT(st.st_size == (off_t)m.size(), "stat", "size %ld instead of %zu", (long)st.st_size, m.size()); mode_t md = r.below(01000) | 0600; v[i].fchmod(md); v[i].fstat(st); VEXPECT((st.st_mode & 07777) == md, "stat", "mode"); VEXPECT((v[i].getfl() & O_ACCMODE) == O_RDWR, "stat", "flags"); v[i].fsync(); v[i].fdatasync(); }
            else if (op == 11 && !m.empty()) { sys::MMap a = v[i].mmap(m.size(), PROT_READ, MAP_SHARED); VEXPECT(a.size() == m.size() && !memcmp((const char*)a, m.data(), m.size()), "mmap", "other bytes are mapped"); sys::MMap b(std::move(a)); VEXPECT(a.size() == 0, "mmap", "a moved map has a size"); string why2; bool ok = tryit([&]() { a = std::move(b); }, &why2); VEXPECT(ok && !memcmp((const char*)a, m.data(), m.size()), "mmap", "a moved map: %s", why2.c_str()); if (r.chance(0.5)) { a.munmap(); ok = tryit([&]() { a = v[i].mmap(m.size(), PROT_READ, MAP_PRIVATE); }, &why2); VEXPECT(ok, "mmap", "assigning to an unmapped map: %s", why2.c_str()); } }
            else if (op == 12) { int d = v[i].dup(); VEXPECT(d >= 0 && d != (int)v[i], "dup", "dup"); ::close(d); }
            else if (op == 13) { string d = bytes(r, 1 + r.below(100)); bool ok = tryit([&]() { v[i].write_all_or_throw(d); }); VEXPECT(ok || F.shorts, "write", "write_all_or_throw fails"); pos[i] = v[i].lseek(0, SEEK_CUR); struct stat st; v[i].fstat(st); if (ok) { off_t p0 = pos[i] - (off_t)d.size(); if (m.size() < (size_t)pos[i]) m.resize(pos[i]); m.replace(p0, d.size(), d); } else m = vf::read_file(fmt("f%d", which[i])); }
            else if (op == 14) { flock l = {}; l.l_type = F_WRLCK; l.l_whence = SEEK_SET; l.l_len = 10; sys::File o(fs::path(fmt("f%d", which[i])), O_RDWR); VEXPECT(v[i].ofd_setlk(l), "lock", "a free lock is refused"); flock t = l; t.l_pid = 0; VEXPECT(!o.ofd_setlk(t), "lock", "a taken lock is given"); t = l; t.l_pid = 0; VEXPECT(!o.ofd_getlk(t), "lock", "a taken lock is said to be free"); l.l_type = F_UNLCK; v[i].ofd_setlk(l); t = l; t.l_type = F_WRLCK; t.l_pid = 0; VEXPECT(o.ofd_getlk(t), "lock", "a free lock is said to be taken"); t.l_type = F_WRLCK; VEXPECT(o.ofd_setlkw(t), "lock", "a free lock is not given"); }
            else if (op == 15) { v[i].open(O_RDWR); pos[i] = 0; }
            obs("op", fmt("%d", op)); }
        F.shorts = false; for (int i = 0; i < 4; ++i) { string g = vf::read_file(fmt("f%d", i)); VEXPECT(g == model[i], "history", "file %d has %zu bytes, not %zu, or other ones", i, g.size(), model[i].size()); } }
        w.done("a history on files"); }
    { Watch w(r); { sys::File f(fs::path("out/keep"), O_RDONLY); int fd = f; ::close(fd); bool ok = tryit([&]() { f.close(); }); VEXPECT(!ok && !f.is_open(), "close", "closing a closed descriptor: %d, open %d", ok, f.is_open()); F.bad.clear(); } w.done("a failing close"); }
    { Watch w(r); { sys::File f(fs::path("nothing")); VEXPECT(!f.open_ifexists(O_RDONLY), "open", "a missing file opens"); VEXPECT(!tryit([&]() { f.open(O_RDONLY); }), "open", "a missing file opens"); VEXPECT(!tryit([&]() { sys::File g(fs::path("out"), O_RDWR); }), "open", "a directory opens"); sys::File h(fs::path("out/keep")); VEXPECT(h.open_ifexists(O_RDONLY), "open", "a file does not open"); } w.done("opening"); }
    { Watch w(r); { sys::Path p{ fs::path("out") }; auto i = p.begin(); auto j = std::move(i); VEXPECT(j.path == &p, "walk", "a moved iterator has no path"); int n = 0; for (; j != p.end(); ++j) ++n; VEXPECT(n == 5, "walk", "%d entries instead of 5", n); struct stat st; VEXPECT(!p.fstatat_ifexists("no", st) && !p.lstatat_ifexists("no", st) && p.lstatat_ifexists("link", st) && S_ISLNK(st.st_mode) && p.fstatat_ifexists("link", st) && S_ISREG(st.st_mode), "walk", "stat below a path"); VEXPECT(p.readlinkat("link") == "keep", "walk", "readlinkat"); string lng(300 + r.below(3000), 'q'); p.symlinkat(lng.c_str(), "long"); VEXPECT(p.readlinkat("long") == lng, "walk", "long links are cut"); string l256(256, 'w'); p.symlinkat(l256.c_str(), "l256"); VEXPECT(p.readlinkat("l256") == l256, "walk", "links of 256 characters"); p.unlinkat("long"); p.unlinkat("l256"); p.mkdirat("nd"); p.rmdirat("nd"); VEXPECT(!tryit([&]() { p.rmdirat("sub"); }) && !tryit([&]() { p.unlinkat("sub"); }), "walk", "a full directory can be removed"); VEXPECT(p.openat_ifexists("no", O_RDONLY) == -1, "walk", "a missing file opens"); VEXPECT(p.faccessat("keep", R_OK) && !p.faccessat("no", F_OK), "walk", "faccessat"); sys::Path q(p, "sub"); VEXPECT(q.path() == "out/sub", "walk", "path of a sub path is %s", q.path().c_str()); sys::Path e{ fs::path("out/sub") }; e.close(); int z = 0; for (auto x = e.begin(); x != e.end(); ++x) ++z; VEXPECT(z == 0, "walk", "a closed path has entries"); } w.done("a path"); }
    if (chdir(cfg().scratch.c_str())) return; wipe(dir); ::rmdir(dir.c_str());
}
// ---- children
struct Report { bool ran = false; vector<string> args, env; string cwd, sid, pid, in; std::map<int, string> fds; };
static Report report(const string& dir) { Report o; string s = vf::read_file(dir + "/report"); if (::access((dir + "/report").c_str(), F_OK)) return o; o.ran = true; size_t p = 0; while (p < s.size()) { size_t nl = s.find('\n', p); string h = s.substr(p, nl - p); size_t sp = h.find(' '), n = std::stoul(h.substr(sp + 1)); string k = h.substr(0, sp), v = s.substr(nl + 1, n); p = nl + 1 + n + 1; if (k == "arg") o.args.push_back(v); else if (k == "env") o.env.push_back(v); else if (k == "cwd") o.cwd = v; else if (k == "sid") o.sid = v; else if (k == "pid") o.pid = v; else if (k == "stdin") o.in = v; else if (k == "fds") { size_t q = 0; while (q < v.size()) { size_t e = v.find(';', q), c = v.find(':', q); o.fds[atoi(v.c_str() + q)] = v.substr(c + 1, e - c - 1); q = e + 1; } } } return o; }
static string ident(int fd, bool acc = true) { struct stat st; if (__real_fstat(fd, &st)) return "closed"; return fmt("%lx:%lx:%lx", (long)st.st_dev, (long)st.st_ino, (long)st.st_rdev) + (acc ? fmt(":%d", __real_fcntl(fd, F_GETFL) & O_ACCMODE) : string()); }
struct StdFds { int saved[3]; StdFds(Rng& r, bool holes) { for (int i = 0; i < 3; ++i) saved[i] = __real_fcntl(i, F_DUPFD_CLOEXEC, 200); for (int i = 0; i < 3; ++i) { __real_close(i); } for (int i = 0; i < 3; ++i) { int fd = __real_open(fmt("std%d", i).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd != i) { __real_dup2(fd, i); __real_close(fd); } } if (holes) for (int i = 0; i < 3; ++i) if (r.chance(0.5)) __real_close(i); } ~StdFds() { for (int i = 0; i < 3; ++i) { __real_dup2(saved[i], i); __real_close(saved[i]); } } };
static string drain(int fd) { string s; char b[65536]; ssize_t n; while ((n = __real_read(fd, b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) s.append(b, n); return s; }
static void quiet(int) {}
static string word(Rng& r) { switch (r.below(6)) { case 0: return ""; case 1: return "a b\tc\n"; case 2: return "$HOME;`ls`\"'\\"; case 3: { string s; for (int i = r.below(40); i-- > 0;) s += (char)r.range(1, 255); return s; } case 4: return string(r.below(5000), 'x'); default: return fmt("w%d", (int)r.below(1000)); } }
static bool popen_one(uint64_t seed, long at, bool in_child) {
    Rng r(seed); wipe("."); string dir = here() + "/run", exe = dir + "/it"; ::mkdir("run", 0755); ::mkdir("work", 0755); ::symlink(getenv("VF_TOOL_CHILD"), exe.c_str());
    struct timeval none = {}; (void)none; bool fired;
    { bool holes = r.chance(0.15); StdFds std_(r, holes); int code = r.chance(0.3) ? 0 : r.below(256), sig = 0; static const int S[] = { SIGKILL, SIGTERM, SIGABRT, SIGSEGV, SIGPIPE, SIGUSR1 }; if (r.chance(0.25)) sig = S[r.below(6)];
    // extra descriptors
    vector<int> extra; std::map<int, string> inherit; for (int i = r.below(6); i-- > 0;) { string n = fmt("x%d", i); int fd = __real_open(n.c_str(), O_RDWR | O_CREAT | (r.chance(0.3) ? O_CLOEXEC : 0), 0600); bool ce = __real_fcntl(fd, F_GETFD) & FD_CLOEXEC; if (fd < 3 || r.chance(0.3)) { int d = __real_fcntl(fd, ce ? F_DUPFD_CLOEXEC : F_DUPFD, r.chance(0.5) ? 3 : 20 + r.below(60)); __real_close(fd); fd = d; } extra.push_back(fd); }
    std::map<int, string> parent; for (int i = 0; i < 300; ++i) if (ident(i) != "closed" && !(__real_fcntl(i, F_GETFD) & FD_CLOEXEC)) parent[i] = ident(i);
    size_t nout = 0, nerr = 0; bool rin = false; string data, want[3]; int kind[3]; string got_out, got_err; char fill = 'a' + r.below(20); bool threw = false, started = false, skip = false; string why; int rc = -1, raw = 0; pid_t pid = 0; string pipeid[3]; string mode; bool sess = r.chance(0.3), closes = r.chance(0.75), newcwd = r.chance(0.4), badcwd = false, badexe = false; vector<string> args, env; vector<int> pass; bool customenv = r.chance(0.5), pathsearch = false; Watch w(r, at); F.child = in_child; int fds0 = w.fds;
    { sp::Popen p; bool twice = r.chance(0.1); for (int i = 0; i < 3; ++i) { kind[i] = r.below(i == 2 ? 5 : 4); for (int pass2 = twice ? 0 : 1; pass2 < 2; ++pass2) { int kk = pass2 ? kind[i] : (int)r.below(4); int fd = -1; if (kk == 3) { vector<int> c = extra; for (int j = 0; j < 3; ++j) if (ident(j) != "closed") c.push_back(j); if (c.empty()) kk = kind[i] = 0; else { fd = r.pick(c); } } auto set = [&](sp::Redirect v) { if (i == 0) p.set_stdin(v); else if (i == 1) p.set_stdout(v); else p.set_stderr(v); }; switch (kk) { case 0: set(sp::Redirect::UNCHANGED); want[i] = ident(i); break; case 1: set(sp::Redirect::PIPE); want[i] = "pipe"; break; case 2: set(sp::Redirect::DEVNULL); { int n = __real_open("/dev/null", O_RDWR); want[i] = ident(n); __real_close(n); } break; case 3: if (i == 0) p.set_stdin(fd); else if (i == 1) p.set_stdout(fd); else p.set_stderr(fd); want[i] = ident(fd); break; case 4: set(sp::Redirect::STDOUT); want[i] = "stdout"; break; } } }
      rin = kind[0] == 1 && r.chance(0.8); if (rin) data = bytes(r, r.chance(0.2) ? r.below(300000) : r.below(300)); nout = r.chance(0.2) ? r.below(200000) : r.below(100); if (kind[2] == 1 && kind[1] == 1) nerr = r.below(30000); else nerr = r.below(100); if (kind[1] != 1) nout = std::min<size_t>(nout, 1000); if (kind[2] == 1 && kind[1] != 1) nerr = r.below(100000);
      bool splitpipe = kind[1] == 1 && kind[2] == 1; if (splitpipe) nout = r.below(100000); p.args.push_back(r.chance(0.5) ? "it" : word(r)); for (int i = r.below(6); i-- > 0;) p.args.push_back(word(r)); int how = r.below(10); if (how < 7) p.executable = exe; else if (how < 9) p.args[0] = exe; else { pathsearch = true; p.args[0] = "it"; } args = p.args; if (r.chance(0.06)) { badexe = true; p.executable = r.chance(0.3) ? "/nonexistent/prog" : r.chance(0.5) ? dir : dir + "/ctl"; pathsearch = false; } p.start_new_session = sess; p.close_fds = closes; if (newcwd) p.cwd = r.chance(0.5) ? here() + "/work" : "work"; if (r.chance(0.05)) { p.cwd = "run/nothing"; badcwd = true; }
      if (customenv) { if (r.chance(0.3)) { p.setenv("STALE", "1"); p.copy_env_from_parent(); for (char** e = environ; *e; ++e) env.push_back(*e); } for (int i = 1 + r.below(6); i-- > 0;) { static const char* K[] = { "A", "AB", "ABC", "PATHX", "LANG", "ENV WITH SPACE", "A_B" }; string k = K[r.below(7)], v = word(r); p.setenv(k, v); bool f = false; for (auto& e : env) if (e.compare(0, k.size() + 1, k + "=") == 0) { e = k + "=" + v; f = true; break; } if (!f) env.push_back(k + "=" + v); } } else for (char** e = environ; *e; ++e) env.push_back(*e);
      for (int fd : extra) if (!(__real_fcntl(fd, F_GETFD) & FD_CLOEXEC) && r.chance(0.4)) { pass.push_back(fd); } p.pass_fds = pass; if (!pass.empty()) closes = true;
      vf::write_file(dir + "/ctl", fmt("%d %d %zu %zu %d 0 %c", code, sig, nout, nerr, rin, fill)); string savedpath; if (pathsearch) { savedpath = getenv("PATH") ? getenv("PATH") : ""; env.clear(); p.env.clear(); setenv("PATH", ("/nonexistent:" + dir).c_str(), 1); for (char** e = environ; *e; ++e) env.push_back(*e); }
      if (p.started() || p.pid() || p.get_stdin() != -1 || p.get_stdout() != -1 || p.get_stderr() != -1) viol("state", "a child that was not started has a pid or pipes"); if (r.chance(0.1)) { VEXPECT(!tryit([&]() { p.poll(); }) && !tryit([&]() { p.wait(); }) && !tryit([&]() { p.wait(1); }), "state", "a child that was not started can be waited for"); VEXPECT(!tryit([&]() { p.terminate(); }) && !tryit([&]() { p.send_signal(0); }), "state", "a child that was not started can be signalled"); }
      started = tryit([&]() { p.fork(); }, &why); if (pathsearch) setenv("PATH", savedpath.c_str(), 1); pid = p.pid(); threw = !started; bool inchild = F.in_child; if (inchild) _exit(99);
      if (!started && !pid) VEXPECT(count_fds() == fds0 || (F.on = false, false), "descriptors", "a child that does not start leaves %d descriptors, %d before (fault at %s)", count_fds(), fds0, F.fired.c_str());
      if (pid) { bool nofault = F.on; for (int i = 0; i < 3; ++i) if (want[i] == "pipe") { int fd = i == 0 ? p.get_stdin() : i == 1 ? p.get_stdout() : p.get_stderr(); if (fd < 0) { if (started) viol("pipe", fmt("there is no pipe for %d", i)); pipeid[i] = "none"; } else pipeid[i] = ident(fd, false) + (i == 0 ? ":0" : ":1"); } if (started) VEXPECT(p.started() && !p.terminated(), "state", "a started child is not started");
        if (started) VEXPECT(!tryit([&]() { p.set_stdin(1); }) && !tryit([&]() { p.set_stdout(sp::Redirect::PIPE); }) && !tryit([&]() { p.set_stderr(2); }), "state", "a running child can be redirected");
        F.on = false; signal(SIGPIPE, SIG_IGN); if (rin && p.get_stdin() >= 0) { size_t d = 0; while (d < data.size()) { ssize_t n = __real_write(p.get_stdin(), data.data() + d, data.size() - d); if (n <= 0) break; d += n; } } F.on = nofault; p.close_stdin(); F.on = false;
        if (started && kind[1] == 1) got_out = drain(p.get_stdout()); if (started && kind[2] == 1) got_err = drain(p.get_stderr()); F.on = nofault; if (!started) { p.close_stdout(); p.close_stderr(); }
        int wk = r.below(4); bool interrupted = r.chance(0.3); struct itimerval it = { { 0, 3000 }, { 0, 3000 } }, off = {}; struct sigaction sa = {}, oa; sa.sa_handler = quiet; sigaction(SIGALRM, nullptr, &oa); (void)oa; struct sigaction ch = {}, ch2; (void)ch; sigaction(SIGUSR1, &sa, &oa); timer_t tm = nullptr; struct sigevent sev = {}; sev.sigev_notify = SIGEV_SIGNAL; sev.sigev_signo = SIGUSR1; bool timer = interrupted && !timer_create(CLOCK_MONOTONIC, &sev, &tm); if (timer) { struct itimerspec its = { { 0, 2000000 }, { 0, 1000000 } }; timer_settime(tm, 0, &its, nullptr); } (void)it; (void)off; (void)ch2;
        string ww; bool okw = tryit([&]() { if (wk == 0) rc = p.wait(); else if (wk == 1) { for (int n = 0; !p.poll(); ++n) { struct timespec t = { 0, 500000 }; __real_nanosleep(&t, nullptr); } rc = p.returncode(); } else { for (int n = 0; !p.wait(wk == 2 ? 20000 : 7) && n < 20000; ++n) {} rc = p.returncode(); } }, &ww); if (timer) timer_delete(tm); sigaction(SIGUSR1, &oa, nullptr);
        bool eintr = F.fired == "waitpid"; if (!okw && !eintr) viol("wait", fmt("waiting fails: %s (interrupted %d)", ww.c_str(), interrupted)); if (!okw && eintr && wk == 0) viol("wait", "waiting fails when it is interrupted"); if (!okw) { F.on = false; tryit([&]() { rc = p.wait(); }); F.on = nofault; } raw = p.raw_returncode(); VEXPECT(p.terminated(), "state", "a child that was waited for has not terminated"); int again = -1; bool t2 = false, t3 = false; string w2; bool ok2 = tryit([&]() { again = p.wait(); t2 = p.wait(5); t3 = p.poll(); }, &w2); VEXPECT(ok2 && again == rc && t2 && t3 && p.returncode() == rc, "status", "asked again: %s %d instead of %d, in time %d, terminated %d", w2.c_str(), again, rc, t2, t3); if (r.chance(0.3)) VEXPECT(!tryit([&]() { p.kill(); }), "state", "a child that has terminated can be killed"); mode = fmt("wait%d%s", wk, interrupted ? "i" : ""); } }
    w.done("a child"); fired = !F.fired.empty() || in_child; (void)skip; (void)threw;
    if (pid && started) { VEXPECT(__real_waitpid(pid, &raw, WNOHANG) == -1, "zombie", "a child that was waited for is still there"); Report rep = report(dir); bool bad = badexe || badcwd; bool nostd = kind[2] == 4 && (want[1] == "closed"); string desc = fmt("stdin %d stdout %d stderr %d%s", kind[0], kind[1], kind[2], holes ? " with closed descriptors" : "");
        if (!rep.ran) { VEXPECT(rc != 0, "status", "a child that could not be set up has status 0 (%s)", F.fired.c_str()); if (!bad && !fired && !nostd) viol("start", fmt("the program was not run: status %d exe %s arg %s cwd %d path %d (%s) %s", rc, badexe ? "bad" : "ok", args[0].substr(0,30).c_str(), newcwd, pathsearch, desc.c_str(), (got_err + vf::read_file("std2")).substr(0, 200).c_str())); }
        else { if (bad) viol("start", fmt("the program runs %s", badexe ? "although it cannot" : "in a missing directory")); VEXPECT(sig ? rc < 0 || rc > 128 : rc == code, "status", "status %d for exit code %d, signal %d", rc, code, sig); if (sig) VEXPECT(rc != 0, "status", "a killed child has status 0");
            VEXPECT(rep.args == args, "args", "%zu arguments arrive as %zu, or differ", args.size(), rep.args.size()); VEXPECT(rep.env == env, "env", "%zu variables arrive as %zu, or differ: %s", env.size(), rep.env.size(), rep.env.empty() ? "" : rep.env[0].substr(0, 60).c_str()); VEXPECT(rep.cwd == (newcwd && !badcwd ? here() + "/work" : here()), "cwd", "runs in %s", rep.cwd.c_str()); VEXPECT(rep.pid == std::to_string(pid), "pid", "pid %s is %d", rep.pid.c_str(), (int)pid); VEXPECT((rep.sid == rep.pid) == sess && (sess || rep.sid == std::to_string(getsid(0))), "session", "session %s of %s (new %d)", rep.sid.c_str(), rep.pid.c_str(), sess);
            for (int i = 0; i < 3; ++i) { string wt = want[i] == "pipe" ? pipeid[i] : want[i] == "stdout" ? (rep.fds.count(1) ? rep.fds[1] : "closed") : want[i], g = rep.fds.count(i) ? rep.fds[i] : "closed"; VEXPECT(g == wt, "redirect", "%d is %s, not %s (%s)", i, g.c_str(), wt.c_str(), desc.c_str()); }
            for (auto& e : rep.fds) if (e.first > 2) { bool ok = closes ? std::find(pass.begin(), pass.end(), e.first) != pass.end() : parent.count(e.first) > 0; VEXPECT(ok && (!parent.count(e.first) || parent[e.first] == e.second), "inherited", "descriptor %d (%s) is open in the child (close_fds %d; %s)", e.first, e.second.c_str(), closes, desc.c_str()); } for (auto& e : parent) if (e.first > 2) { bool should = closes ? std::find(pass.begin(), pass.end(), e.first) != pass.end() : true; if (should) VEXPECT(rep.fds.count(e.first), "inherited", "descriptor %d is not open in the child (close_fds %d; %s)", e.first, closes, desc.c_str()); }
            if (rin) VEXPECT(rep.in == data, "pipe", "%zu bytes of input arrive as %zu", data.size(), rep.in.size()); string wo = string(nout, fill), we = string(nerr, fill + 1); if (kind[1] == 1) VEXPECT(got_out == (kind[2] == 4 ? wo + we : kind[2] == 3 && want[2] == "x" ? wo : wo), "pipe", "%zu bytes of output arrive as %zu", wo.size(), got_out.size()); if (kind[2] == 1) VEXPECT(got_err == we, "pipe", "%zu bytes of errors arrive as %zu", we.size(), got_err.size()); }
        string f = sp::Child::format_raw_returncode(rc < 0 ? -rc : rc << 8); VEXPECT(f == (rc < 0 ? fmt("was interrupted, killed by signal %d", -rc) : rc ? fmt("exited with code %d", rc) : "terminated successfully"), "format", "status %d is '%s'", rc, f.c_str());
        obs("child", fmt("%d%d%d%s %s", kind[0], kind[1], kind[2], holes ? "h" : "", rep.ran ? "ran" : "not run")); obs("status", sig ? fmt("signal %d", sig) : fmt("code %d", code / 16)); obs("waited", mode); obs("setup", fmt("%d%d%d%d%d %zu", closes, sess, newcwd, customenv, pathsearch, pass.size())); }
    if (fired) obs("fault", (in_child ? "any" : F.fired) + (in_child ? " in the child" : "") + fmt(" %d", started));
    for (int fd : extra) __real_close(fd); }
    return fired;
}
static void children(Rng& r) {
    string dir = cfg().scratch + fmt("/c23c.%d", (int)getpid()); ::mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) return; struct rlimit l = { 400, 400 }; ::setrlimit(RLIMIT_NOFILE, &l); int fds = count_fds();
    for (int i = 0; i < 12; ++i) { note(fmt("child %d", i)); popen_one(r.u64(), 0, false); } uint64_t seed = r.u64(); for (long at = 1; at < 12; ++at) if (!popen_one(r.chance(0.5) ? seed : r.u64(), at, false) && r.chance(0.5)) break; for (int i = 0; i < 4; ++i) popen_one(r.u64(), r.range(1, 12), true);
    VEXPECT(count_fds() == fds, "descriptors", "%d descriptors after all children, %d before", count_fds(), fds); if (chdir(cfg().scratch.c_str())) return; wipe(dir); ::rmdir(dir.c_str()); sample("children with every kind of redirection");
}
// ---- time limits and signals on a child that runs until told
struct Fn : sp::Child { std::function<int()> f; int main() noexcept override { return f(); } };
static double since(const timespec& a) { timespec b; clock_gettime(CLOCK_MONOTONIC, &b); return (b.tv_sec - a.tv_sec) * 1e3 + (b.tv_nsec - a.tv_nsec) / 1e6; }
static void info(int, siginfo_t*, void*) {}
static void waiting(Rng& r) {
    for (int k = 0; k < 4; ++k) { Watch w(r); struct sigaction a = {}, b = {}, old; a.sa_sigaction = info; a.sa_flags = SA_SIGINFO | SA_NODEFER; sigaddset(&a.sa_mask, SIGUSR2); sigaction(SIGCHLD, &a, &old); int rc = 0; pid_t pid = 0; int code = r.below(256), sig = r.chance(0.4) ? (r.chance(0.5) ? SIGTERM : r.chance(0.5) ? SIGKILL : SIGUSR2) : 0; string body;
        { Fn c; string rd; c.set_stdin(sp::Redirect::PIPE); c.set_stdout(sp::Redirect::PIPE); if (r.chance(0.3)) c.cwd = "/"; c.f = [&]() { F.on = false; signal(SIGTERM, SIG_DFL); signal(SIGUSR2, SIG_DFL); char buf[16]; if (__real_write(1, "r", 1) != 1) return 1; while (__real_read(0, buf, 16) > 0) {} return code + (r.chance(0.2) ? 256 : 0); }; c.fork(); pid = c.pid(); char ready = 0; if (__real_read(c.get_stdout(), &ready, 1) != 1) viol("start", "the child does not start"); int ms = r.chance(0.3) ? 0 : r.range(1, 60); if (r.chance(0.05)) ms = 1000 + r.range(0, 99); bool tick = r.chance(0.4); struct sigaction sa = {}, oa; sa.sa_handler = quiet; sigaction(SIGUSR1, &sa, &oa); timer_t tm; struct sigevent sev = {}; sev.sigev_notify = SIGEV_SIGNAL; sev.sigev_signo = SIGUSR1; bool timer = tick && !timer_create(CLOCK_MONOTONIC, &sev, &tm); if (timer) { struct itimerspec its = { { 0, 3000000 }, { 0, 3000000 } }; timer_settime(tm, 0, &its, nullptr); }
          timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0); bool done = true; string why; bool ok = tryit([&]() { done = c.wait(ms); }, &why); double el = since(t0); VEXPECT(ok && !done, "timeout", "waiting %d ms for a running child: %s, finished %d", ms, why.c_str(), done); VEXPECT(el >= ms - 2, "timeout", "waiting %d ms takes %.1f", ms, el); VEXPECT(!c.terminated() && !c.poll(), "state", "a running child has terminated");
          if (sig) { ok = tryit([&]() { if (sig == SIGTERM) c.terminate(); else if (sig == SIGKILL) c.kill(); else c.send_signal(sig); }); VEXPECT(ok, "signal", "a running child cannot be signalled"); } else c.close_stdin();
          int how = r.below(3); if (how == 0) { ok = tryit([&]() { done = c.wait(60000); }, &why); VEXPECT(ok && done, "timeout", "a child that ends is not waited for: %s", why.c_str()); } else if (how == 1) { siginfo_t si; while (waitid(P_PID, pid, &si, WEXITED | WNOWAIT) < 0) {} ok = tryit([&]() { done = c.wait(0); }, &why); VEXPECT(ok && done, "timeout", "a child that has ended is not seen: %s", why.c_str()); } else ok = tryit([&]() { c.wait(); }, &why); rc = c.returncode(); if (timer) timer_delete(tm); sigaction(SIGUSR1, &oa, nullptr);
          VEXPECT(sig ? rc != 0 && WIFSIGNALED(c.raw_returncode()) && WTERMSIG(c.raw_returncode()) == sig : rc == code, "status", "status %d (%x) for code %d, signal %d", rc, c.raw_returncode(), code, sig); bool t2 = false; tryit([&]() { t2 = c.wait(1); }); VEXPECT(t2, "timeout", "a child that has terminated with %d is said to time out", rc); obs("waiting", fmt("%d %d %d %d", ms ? 1 + ms / 20 : 0, tick, sig, how)); }
        sigaction(SIGCHLD, &old, &b); VEXPECT(b.sa_sigaction == a.sa_sigaction && (b.sa_flags & (SA_SIGINFO | SA_NODEFER)) == (SA_SIGINFO | SA_NODEFER) && sigismember(&b.sa_mask, SIGUSR2), "sigchld", "the handler of SIGCHLD is not what it was"); w.done("waiting"); }
}
int main(int argc, char** argv) {
    parse_args(argc, argv); bool T = cfg().thorough;
    add_group("files", T ? 4000 : 64, 4, 60, [](uint64_t, Rng& r) { files(r); });
    add_group("queries", T ? 4000 : 160, 8, 30, [](uint64_t, Rng& r) { queries(r); });
    add_group("descriptors", T ? 6000 : 240, 8, 30, [](uint64_t, Rng& r) { descriptors(r); });
    add_group("children", T ? 3000 : 120, 4, 60, [](uint64_t, Rng& r) { children(r); });
    add_group("waiting", T ? 2000 : 120, 4, 60, [](uint64_t, Rng& r) { waiting(r); });
    return run_all();
}
