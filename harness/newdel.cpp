// Replacement allocation functions: memory starts out with a chosen byte, and a
// request larger than any well-formed file can cause fails as it would on a
// real system, with std::bad_alloc.
#include <cstdlib>
#include <cstring>
#include <new>
unsigned char vf_fill = 0xAA;
size_t vf_new_cap = (size_t)1 << 30;
static void* get(size_t n) {
    if (n > vf_new_cap) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (n <= (64u << 20)) memset(p, vf_fill, n);
    return p;
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return n > vf_new_cap ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return n > vf_new_cap ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
