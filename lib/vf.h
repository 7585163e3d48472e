// Interface between harnesses and the symbolic executor (or, when compiled
// natively, the replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vf_sym(const char *name, unsigned bits);
void vf_symbytes(void *p, size_t n, const char *name);
void vf_assume(int cond);
void vf_assert(int cond, const char *id);
[[noreturn]] void vf_fail(const char *id);
void vf_cover(const char *id);
[[noreturn]] void vf_done();
uint64_t vf_concretize(uint64_t v);
uint64_t vf_param(const char *name, uint64_t def);
void vf_print(const char *what, uint64_t v);
void *vf_malloc(size_t n, size_t align, int kind);
void vf_free(void *p, int kind);
uint64_t vf_heap_live();
uint64_t vf_extent(const void *p);
int vf_in_object(const void *p, size_t n);
void vf_poison(void *p, size_t n);
void vf_spawn(void (*fn)(void *), void *arg);
void vf_join();
void vf_yield();
int vf_tid();
}
enum { VF_NEW = 2, VF_NEWARR = 3, VF_MALLOC = 4, VF_HARNESS = 5 };

// fresh input below `n` (one path for all values)
inline uint64_t vf_below(const char *name, uint64_t n, unsigned bits = 32) {
    uint64_t v = vf_sym(name, bits);
    vf_assume(v < n);
    return v;
}
// fresh input in [0, n), one path per value
inline unsigned vf_pick(const char *name, unsigned n) {
    return static_cast<unsigned>(vf_concretize(vf_below(name, n, 8)));
}
inline uint64_t vf_range(const char *name, uint64_t lo, uint64_t hi,
                         unsigned bits = 64) {
    uint64_t v = vf_sym(name, bits);
    vf_assume(lo <= v && v <= hi);
    return v;
}
#ifdef VF_NATIVE
#define VF_HARNESS_FN(name) extern "C" void name()
#else
#define VF_HARNESS_FN(name) extern "C" __attribute__((used)) void name()
#endif
