// M08: contiguous memory resource
#include "vecmem/memory/contiguous_memory_resource.hpp"

#include "res.hpp"
using namespace vfh;

// full: every power of two (one path each); otherwise a spread of them
static u64 alignment(int i, int ops) {
    if (i == 0 && vf_param("a0", 99) != 99)
        return u64(1) << vf_param("a0", 0);
    if (vf_param("full", 0) && i + 1 == ops)
        return u64(1) << (vf_param("lo", 0) + vf_pick("align", (unsigned)vf_param("cnt", 64)));
    static const unsigned char l[6] = {0, 4, 33, 1, 12, 63};
    return u64(1) << l[vf_pick("align", (unsigned)vf_param("aligns", 3))];
}

// Any buffer size and place, any sequence of requests (any size, any
// power-of-two alignment) and deallocations.
VF_HARNESS_FN(m08_sequence) {
    const int ops = (int)vf_param("ops", 3);
    sym_upstream<1> up;
    const bool wide = vf_param("wide", 0);
    if (!wide)
        up.narrow();
    u64 S = wide ? vf_range("size", 1, u64(1) << 45) : vf_range("size", 1, 1 << 12, 16);
    {
        vecmem::contiguous_memory_resource mr(up, S);
        check(up.allocs == 1 && up.lastN == S, "takes-one-buffer-of-the-given-size");
        u64 base = up.b[0].p, end = base + S, next = base;
        u64 last = 0, lastN = 1;
        for (int i = 0; i < ops; ++i) {
            if (last && (i + 1 == ops || vf_param("dealloc", 0)) && vf_pick("dealloc", 2)) {
                mr.deallocate(ptr(last), lastN, 1);
                vf_cover("dealloc");
            }
            u64 n = wide && i + 1 == ops ? vf_range("n", 1, ~u64(0))
                                         : vf_range("n", 1, 0xffff, 16);
            u64 a = alignment(i, ops);
            u64 al = (next - 1 + a) & (0 - a);
            // fits: aligned start does not wrap, and room is left
            bool fits = int(al >= next) & int(al <= end) & int(n <= end - al);
            u64 x = 0;
            bool threw = false;
            try {
                x = addr(mr.allocate(n, a));
            } catch (const std::bad_alloc &) {
                threw = true;
            }
            if (threw) {
                check(!fits, "throws-only-when-it-does-not-fit");
                vf_cover("threw");
            } else {
                check(x >= next, "after-all-earlier-blocks");
                check(int(x <= end) & int(n <= end - x), "inside-the-buffer");
                check((x & (a - 1)) == 0, "aligned");
                next = x + n;
                last = x;
                lastN = n;
                vf_cover("allocated");
            }
            check(up.allocs == 1 && up.frees == 0, "no-further-upstream-traffic");
        }
    }
    check(up.frees == 1 && up.live() == 0, "buffer-returned-exactly-once");
}

// A failing upstream: construction fails, nothing is returned.
VF_HARNESS_FN(m08_fault) {
    sym_upstream<1> up;
    up.mayFail = true;
    u64 S = vf_range("size", 1, u64(1) << 45);
    bool threw = false;
    try {
        vecmem::contiguous_memory_resource mr(up, S);
        vf_cover("built");
    } catch (const std::bad_alloc &) {
        threw = true;
        vf_cover("failed");
    }
    check(threw == (up.fails == 1), "failure-reaches-the-caller");
    check(up.live() == 0 && up.frees == up.n, "nothing-left-behind");
}
