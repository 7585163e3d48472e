// M09: host memory resource on a modelled C allocator
#include "vecmem/memory/host_memory_resource.hpp"

#include "res.hpp"
using namespace vfh;

static sym_upstream<6> *os;
static int osFrees, osBad;
static bool osMayFail;
extern "C" {
#ifdef VF_NATIVE
void *vf_user_aligned_alloc(size_t a, size_t n) {
#else
void *aligned_alloc(size_t a, size_t n) {
#endif
    // glibc refuses alignments that are no power of two
    if (!os || (a & (a - 1)) != 0)
        return nullptr;
    if (osMayFail && vf_pick("fail", 2)) {
        ++os->fails;
        return nullptr;
    }
    try {
        return os->allocate(n, a);
    } catch (const std::bad_alloc &) {
        return nullptr;
    }
}
#ifdef VF_NATIVE
bool vf_user_free(void *p) {
    if (!os)
        return false;
    const u64 x = addr(p);
    bool mine = false;
    for (int i = 0; i < os->n; ++i)
        mine = mine || os->b[i].p == x;
    if (!mine)
        return false;
#else
void free(void *p) {
    if (!p)
        return;
    const u64 x = addr(p);
#endif
    ++osFrees;
    int found = 0;
    for (int i = 0; i < os->n; ++i) {
        int m = os->b[i].live & int(os->b[i].p == x);
        found += m;
        os->b[i].live &= 1 ^ m;
    }
    osBad |= found != 1;
#ifdef VF_NATIVE
    return true;
#endif
}
}

VF_HARNESS_FN(host_history) {
    const int ops = (int)vf_param("ops", 2);
    sym_upstream<6> mem;
    mem.quiet = true;
    if (vf_param("narrow", 0))
        mem.narrow(24, 20);
    else
        mem.hi = u64(1) << 62, mem.maxN = u64(1) << 50;
    osFrees = osBad = 0;
    osMayFail = vf_param("mayFail", 1);
    os = &mem;
    clients<6> cl;
    vecmem::host_memory_resource mr, other;
    for (int i = 0; i < ops; ++i) {
        int live = cl.liveCount();
        unsigned k = vf_pick("op", 1 + live);
        const int f0 = mem.fails, fr0 = osFrees;
        if (k == 0) {
            u64 n = vf_range("n", 1, ~u64(0));
            u64 a = u64(1) << (vf_param("maxLog", 63) < 63 ? vf_param("step", 6) * vf_pick("log", (unsigned)vf_param("maxLog", 63))
                                                           : vf_pick("log", 64));
            void *q;
            try {
                q = mr.allocate(n, a);
            } catch (const std::bad_alloc &) {
                check(int(mem.fails > f0) | int(n > u64(1) << 62) | int(a > u64(1) << 40), "throws-only-without-memory");
                vf_cover("no-memory");
                continue;
            }
            check(mem.fails == f0, "failure-reported");
            cl.add(mem, q, n, a);
            vf_cover("allocated");
        } else {
            int j = cl.nth(k - 1);
            cl.live[j] = false;
            // host resources are interchangeable
            (vf_pick("through", 2) ? other : mr).deallocate(ptr(cl.p[j]), cl.n[j], cl.a[j]);
            check(osFrees == fr0 + 1 && !osBad, "frees-that-block-once");
            cl.still_valid(mem);
            vf_cover("returned");
        }
    }
    for (int j = 0; j < cl.cnt; ++j)
        if (cl.live[j]) {
            mr.deallocate(ptr(cl.p[j]), cl.n[j], cl.a[j]);
            check(!osBad, "frees-that-block-once");
        }
    check(mem.live() == 0, "nothing-leaks");
    check(osFrees == cl.cnt, "one-free-per-block");
    os = nullptr;
}
