// C23: a program that reports how it was started, next to the link it was started by
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/auxv.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
extern char** environ;
using std::string;
static string all(int fd) { string s; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); return s; }
static void put(string& o, const char* k, const string& v) { char b[64]; snprintf(b, sizeof b, "%s %zu\n", k, v.size()); o += b + v + "\n"; }
static void out(int fd, const string& s) { size_t d = 0; while (d < s.size()) { ssize_t n = write(fd, s.data() + d, s.size() - d); if (n <= 0) break; d += n; } }
int main(int argc, char** argv) {
    string self = (const char*)getauxval(AT_EXECFN), dir = self.substr(0, self.rfind('/') + 1), o, fds;
    for (int i = 0; i < 300; ++i) { struct stat st; if (fstat(i, &st)) continue; char b[128]; snprintf(b, sizeof b, "%d:%lx:%lx:%lx:%d;", i, (long)st.st_dev, (long)st.st_ino, (long)st.st_rdev, fcntl(i, F_GETFL) & O_ACCMODE); fds += b; }
    for (int i = 0; i < argc; ++i) put(o, "arg", argv[i]);
    for (char** e = environ; *e; ++e) put(o, "env", *e);
    char cwd[65536]; put(o, "cwd", getcwd(cwd, sizeof cwd) ? cwd : "?"); put(o, "fds", fds); put(o, "sid", std::to_string(getsid(0))); put(o, "pid", std::to_string(getpid()));
    int c = open((dir + "ctl").c_str(), O_RDONLY | O_CLOEXEC); string ctl = all(c); close(c);
    size_t nout = 0, nerr = 0; int code = 0, sig = 0, in = 0, ms = 0; char fill; sscanf(ctl.c_str(), "%d %d %zu %zu %d %d %c", &code, &sig, &nout, &nerr, &in, &ms, &fill);
    if (in) put(o, "stdin", all(0));
    int f = open((dir + "report.tmp").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); out(f, o); close(f); rename((dir + "report.tmp").c_str(), (dir + "report").c_str());
    out(1, string(nout, fill)); out(2, string(nerr, fill + 1));
    if (ms) { struct timespec t = { ms / 1000, ms % 1000 * 1000000L }; nanosleep(&t, nullptr); }
    if (sig) { signal(sig, SIG_DFL); raise(sig); } _exit(code);
}
