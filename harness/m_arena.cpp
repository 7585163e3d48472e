// M06, M07, M17-M19, M21: arena memory resource
#include "vecmem/memory/arena_memory_resource.hpp"

#include <utility>

#include "res.hpp"
using namespace vfh;
using mr_t = vecmem::arena_memory_resource;

struct ar_state {
    sym_upstream<8> up;
    clients<10> cl;
    int P;
    int alloc(mr_t &mr, u64 n) {
        const int b0 = up.allocs, f0 = up.fails;
        void *q;
        try {
            q = mr.allocate(n);
        } catch (const std::bad_alloc &) {
            check(int(up.fails > f0) | int(n > u64(1) << 63), "fails-only-when-upstream-fails");
            vf_cover("upstream-failed");
            return -1;
        }
        check(up.fails == f0, "upstream-failure-reaches-caller");
        if (P == 7)
            check(up.allocs <= b0 + 1, "at-most-one-upstream-request");
        if (up.allocs > b0)
            vf_cover("new-superblock");
        else
            vf_cover("served-from-held-memory");
        return cl.add(up, q, n, 1, false);
    }
    void give(mr_t &mr, int j) {
        cl.live[j] = false;
        const int f0 = up.frees;
        mr.deallocate(ptr(cl.p[j]), cl.n[j]);
        check(up.frees == f0, "memory-kept-until-destruction");
    }
};

VF_HARNESS_FN(arena_history) {
    const int ops = (int)vf_param("ops", 3), P = (int)vf_param("P", 6);
    const u64 script = vf_param("script", 0), lo = vf_param("lo", 1), hi = vf_param("hi", 2048);
    ar_state s;
    s.P = P;
    s.cl.quiet = P != 6 && P != 19;
    s.up.quiet = P != 7;
    s.up.narrow(34, 28);
    {
        const u64 init = vf_param("init", 0) ? vf_param("init", 0) : vf_range("init", 256, vf_param("maxInit", 2048));
        mr_t mr(s.up, init, u64(1) << 40);
        s.up.mayFail = P == 19;
        check(s.up.allocs == 1 && s.up.lastN >= init, "initial-block-taken");
        for (int i = 0; i < ops; ++i) {
            int live = s.cl.liveCount();
            unsigned k = i == 0 ? 0
                         : script == 0 ? vf_pick("op", 1 + live)
                         : (script >> i) & 1 ? 1 + vf_pick("which", live)
                                             : 0;
            if (k == 0) {
                u64 n = vf_range("n", lo, hi);
                if (s.alloc(mr, n) < 0) {
                    s.up.mayFail = false;
                    if (P == 19)
                        check(s.alloc(mr, n) >= 0, "served-after-recovery");
                    s.up.mayFail = P == 19;
                }
            } else {
                s.give(mr, s.cl.nth(k - 1));
                vf_cover("returned");
            }
        }
        if (vf_param("move", 0)) {
            mr_t m2(std::move(mr));
            for (int j = 0; j < s.cl.cnt; ++j)
                if (s.cl.live[j])
                    s.give(m2, j);
            int j = s.alloc(m2, 300);
            s.give(m2, j);
            vf_cover("moved");
        } else {
            if (P == 7 && vf_pick("keep", 2) == 0) {
                // returned memory is available again
                int last = -1;
                for (int j = 0; j < s.cl.cnt; ++j)
                    if (s.cl.live[j])
                        s.give(mr, j);
                const int b0 = s.up.allocs;
                if (init >= 256) {
                    u64 n = vf_range("n", 1, init / 256 * 256);
                    vf_assume(n <= (256u << 10) - 256);
                    last = s.alloc(mr, n);
                    check(s.up.allocs == b0, "initial-block-available-again");
                    vf_cover("reused");
                }
            }
            if (P != 7)
                for (int j = 0; j < s.cl.cnt; ++j)
                    if (s.cl.live[j])
                        s.give(mr, j);
        }
    }
    if (P == 7 || P == 19)
        check(s.up.live() == 0, "everything-returned-upstream");
}
