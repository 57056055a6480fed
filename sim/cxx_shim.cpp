// Calls the allocator's C++ operators (renamed by the build) and reports exceptions as a result.
#include <cstddef>
#include <cstdint>
#include <new>
#define N(m) __asm__("hook_" m) __attribute__((weak))
// An operator the allocator does not replace is the standard library's, which is defined by the one it forwards to.
extern "C" {
void *n0(size_t) N("_Znwm");
void *n1(size_t) N("_Znam");
void *n2(size_t, const std::nothrow_t &) N("_ZnwmRKSt9nothrow_t");
void *n3(size_t, const std::nothrow_t &) N("_ZnamRKSt9nothrow_t");
void *n4(size_t, std::align_val_t) N("_ZnwmSt11align_val_t");
void *n5(size_t, std::align_val_t) N("_ZnamSt11align_val_t");
void *n6(size_t, std::align_val_t, const std::nothrow_t &) N("_ZnwmSt11align_val_tRKSt9nothrow_t");
void *n7(size_t, std::align_val_t, const std::nothrow_t &) N("_ZnamSt11align_val_tRKSt9nothrow_t");
void *n8(size_t, std::align_val_t, std::nothrow_t &) N("_ZnwmSt11align_val_tRSt9nothrow_t");
void *n9(size_t, std::align_val_t, std::nothrow_t &) N("_ZnamSt11align_val_tRSt9nothrow_t");
void e8(void *, std::align_val_t, std::nothrow_t &) N("_ZdlPvSt11align_val_tRSt9nothrow_t");
void e9(void *, std::align_val_t, std::nothrow_t &) N("_ZdaPvSt11align_val_tRSt9nothrow_t");
void d0(void *) N("_ZdlPv");
void d1(void *) N("_ZdaPv");
void d2(void *, const std::nothrow_t &) N("_ZdlPvRKSt9nothrow_t");
void d3(void *, const std::nothrow_t &) N("_ZdaPvRKSt9nothrow_t");
void d4(void *, std::align_val_t) N("_ZdlPvSt11align_val_t");
void d5(void *, std::align_val_t) N("_ZdaPvSt11align_val_t");
void d6(void *, std::align_val_t, const std::nothrow_t &) N("_ZdlPvSt11align_val_tRKSt9nothrow_t");
void d7(void *, std::align_val_t, const std::nothrow_t &) N("_ZdaPvSt11align_val_tRKSt9nothrow_t");
void d8(void *, size_t) N("_ZdlPvm");
void d9(void *, size_t) N("_ZdaPvm");
int cxx_new(int which, size_t n, size_t align, void **out);
void cxx_delete(int which, void *p, size_t n, size_t align);
}
static std::nothrow_t mine; // not constant: such an argument selects other overloads
static void *nt(void *(*f)(size_t, std::align_val_t), size_t n, std::align_val_t a) {
    try {
        return f(n, a);
    } catch(...) {
        return nullptr;
    }
}
int cxx_new(int which, size_t n, size_t align, void **out) {
    std::align_val_t a = (std::align_val_t) align;
    try {
        switch(which & 7) {
        case 0: *out = n0(n); break;
        case 1: *out = n1(n); break;
        case 2: *out = n2(n, std::nothrow); break;
        case 3: *out = n3(n, std::nothrow); break;
        case 4: *out = n4(n, a); break;
        case 5: *out = n5(n, a); break;
        case 6: *out = n8 && (n & 2) ? n8(n, a, mine) : n6 ? n6(n, a, std::nothrow) : nt(n4, n, a); break;
        case 7: *out = n9 && (n & 2) ? n9(n, a, mine) : n7 ? n7(n, a, std::nothrow) : nt(n5, n, a); break;
        }
    } catch(const std::bad_alloc &) {
        *out = nullptr;
        return 1;
    }
    return 0;
}
void cxx_delete(int which, void *p, size_t n, size_t align) {
    std::align_val_t a = (std::align_val_t) align;
    switch(which) {
    case 0: d0(p); break;
    case 1: d1(p); break;
    case 2: d2(p, std::nothrow); break;
    case 3: d3(p, std::nothrow); break;
    case 4: d4(p, a); break;
    case 5: d5(p, a); break;
    case 6: e8 && (n & 4) ? e8(p, a, mine) : d6 ? d6(p, a, std::nothrow) : d4(p, a); break;
    case 7: e9 && (n & 4) ? e9(p, a, mine) : d7 ? d7(p, a, std::nothrow) : d5(p, a); break;
    case 8: d8(p, n); break;
    default: d9(p, n); break;
    }
}
