// The sanitizers' own interceptor of glob() does not understand GLOB_DOOFFS and
// reads the reserved null entries: call the C library's directly.
#include <dlfcn.h>
#include <glob.h>
extern "C" int __wrap_glob(const char* p, int f, int (*e)(const char*, int), glob_t* g) {
    typedef int (*fn)(const char*, int, int (*)(const char*, int), glob_t*);
    static fn real = (fn)dlsym(dlopen("libc.so.6", RTLD_LAZY), "glob");
    return real(p, f, e, g);
}
