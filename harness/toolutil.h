// Runs a command line tool of the repository (built with the same
// instrumentation) in a directory of its own
#pragma once
#include "common.h"
#include <fcntl.h>
#include <dirent.h>
#include <map>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
namespace vt {
struct Out { int status = -1, sig = 0; std::string out, err; bool crashed() const { return sig || err.find("AddressSanitizer") != std::string::npos || err.find("runtime error:") != std::string::npos || err.find("terminate called") != std::string::npos; } };
inline Out run(const char* tool, const std::vector<std::string>& args, const std::string& dir = ".", const std::vector<std::string>& env = {}, const std::function<void()>& pre = nullptr) {
    const char* exe = getenv(vf::fmt("VF_TOOL_%s", tool).c_str()); if (!exe) { vf::viol("harness", vf::fmt("no tool %s", tool)); return Out(); }
    std::string so = vf::cfg().scratch + vf::fmt("/tool.out.%d", (int)getpid()), se = vf::cfg().scratch + vf::fmt("/tool.err.%d", (int)getpid());
    pid_t pid = fork();
    if (pid == 0) {
        if (chdir(dir.c_str())) _exit(97);
        int o = open(so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(se.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), n = open("/dev/null", O_RDONLY); dup2(n, 0); dup2(o, 1); dup2(e, 2); close(o); close(e); close(n);
        for (auto& s : env) putenv(strdup(s.c_str())); alarm(60); if (pre) pre();
        std::vector<char*> av; av.push_back(strdup(exe)); for (auto& a : args) av.push_back(strdup(a.c_str())); av.push_back(nullptr); execv(exe, av.data()); _exit(98);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} Out r; if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.status = WEXITSTATUS(st);
    r.out = vf::read_file(so); r.err = vf::read_file(se); unlink(so.c_str()); unlink(se.c_str()); return r;
}
inline std::map<std::string, std::string> files(const std::string& dir) {      // name to contents
    std::map<std::string, std::string> m; DIR* d = opendir(dir.c_str()); if (!d) return m; while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat st; if (stat((dir + "/" + n).c_str(), &st) == 0 && S_ISREG(st.st_mode)) m[n] = vf::read_file(dir + "/" + n); else m[n] = "(dir)"; } closedir(d); return m;
}
inline void clear(const std::string& dir) { for (auto& f : files(dir)) unlink((dir + "/" + f.first).c_str()); }
}
