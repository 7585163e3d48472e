// M04, M05, M17-M19, M21: binary page memory resource
#include "vecmem/memory/binary_page_memory_resource.hpp"

#include <utility>

#include "res.hpp"
using namespace vfh;
using mr_t = vecmem::binary_page_memory_resource;

static const u64 MIN_PAGE = 256;
template <int N>
static void narrow(sym_upstream<N> &u) { u.narrow(34, 28); }
template <class U>
static void narrow(U &) {}

struct bp_state {
#ifdef VF_MANY
    fix_upstream<40> up;
    clients<90> cl;
#else
    sym_upstream<6> up;
    clients<20> cl;
#endif
    int P;
    // does some held upstream block have a free, aligned place of 2^g bytes?
    bool freePlace(u64 rounded) const {
        for (int i = 0; i < up.n; ++i) {
            const u64 size = vf_concretize(up.b[i].n);
            if (!up.b[i].live || rounded > size || rounded < size / 256)
                continue;
            const u64 page = size / 256;
            for (u64 off = 0; off < size; off += rounded) {
                bool used = false;
                for (int j = 0; j < cl.cnt && !used; ++j) {
                    if (!cl.live[j])
                        continue;
                    u64 r = page;
                    while (r < cl.n[j])
                        r *= 2;
                    const u64 d = cl.p[j] - up.b[i].p;
                    used = d < size && off < d + r && d < off + rounded;
                }
                if (!used)
                    return true;
            }
        }
        return false;
    }
    int alloc(mr_t &mr, u64 n, u64 a) {
        const int b0 = up.allocs, f0 = up.fails;
        u64 rounded = MIN_PAGE;
        while (rounded < n && rounded < u64(1) << 63)
            rounded *= 2;
        bool had = P == 5 && freePlace(rounded);
        void *q;
        try {
            q = mr.allocate(n, a);
        } catch (const std::bad_alloc &) {
            // nothing bigger than half the address space can exist
            check(int(up.fails > f0) | int(n > u64(1) << 63), "fails-only-when-upstream-fails");
            vf_cover("upstream-failed");
            return -1;
        }
        check(up.fails == f0, "upstream-failure-reaches-caller");
        if (P == 5) {
            check(up.allocs <= b0 + 1, "at-most-one-upstream-request");
            if (had) {
                check(up.allocs == b0, "free-memory-serves-request");
                vf_cover("served-from-held-memory");
            }
        }
        if (up.allocs > b0)
            vf_cover("new-superpage");
        int j = cl.add(up, q, n, a, false);
        if (P == 4) {
            int ok = 0;
            for (int i = 0; i < up.n; ++i) {
                const u64 d = cl.p[j] - up.b[i].p;
                ok |= up.b[i].live & int(d < up.b[i].n) & int((d & (rounded - 1)) == 0);
            }
            check(ok, "starts-at-multiple-of-rounded-size");
        }
        return j;
    }
    void give(mr_t &mr, int j) {
        cl.live[j] = false;
        const int f0 = up.frees;
        mr.deallocate(ptr(cl.p[j]), cl.n[j], cl.a[j]);
        check(up.frees == f0, "memory-kept-until-destruction");
    }
};

VF_HARNESS_FN(bpage_history) {
    const int ops = (int)vf_param("ops", 3);
    const u64 script = vf_param("script", 0), lo = vf_param("lo", 1), hi = vf_param("hi", 2048);
    bp_state s;
    s.P = (int)vf_param("P", 4);
    s.cl.quiet = s.P != 4 && s.P != 19;
    s.up.quiet = s.P != 5;
    s.up.mayFail = s.P == 19;
    narrow(s.up);
    {
        mr_t mr(s.up);
        for (int i = 0; i < ops; ++i) {
            int live = s.cl.liveCount();
            unsigned k = i == 0 ? 0
                         : script == 0 ? vf_pick("op", 1 + live)
                         : (script >> i) & 1 ? 1 + vf_pick("which", live)
                                             : 0;
            if (k == 0) {
                // keep the classes apart: one path per rounded size
                u64 n = vf_range("n", i == 0 && vf_param("lo0", 0) ? vf_param("lo0", 0) : lo,
                                 i == 0 && vf_param("hi0", 0) ? vf_param("hi0", 0) : hi);
                if (s.alloc(mr, n, 1) < 0) {
                    s.up.mayFail = false;
                    if (s.P == 19)
                        check(s.alloc(mr, n, 1) >= 0, "served-after-recovery");
                    s.up.mayFail = s.P == 19;
                }
            } else {
                s.give(mr, s.cl.nth(k - 1));
                vf_cover("returned");
            }
        }
        if (vf_param("move", 0)) {
            mr_t m2(std::move(mr));
            for (int j = 0; j < s.cl.cnt; ++j)
                if (s.cl.live[j])
                    s.give(m2, j);
            int j = s.alloc(m2, 300, 8);
            s.give(m2, j);
            vf_cover("moved");
        } else {
            for (int j = 0; j < s.cl.cnt; ++j)
                if (s.cl.live[j] && (s.P != 5 || vf_pick("keep", 2) == 0))
                    s.give(mr, j);
            if (s.P == 5) {
                // everything held is available again
                u64 n = vf_range("n", lo, vf_param("hiLast", hi));
                s.alloc(mr, n, 1);
            }
        }
    }
    if (s.P == 5 || s.P == 19)
        check(s.up.live() == 0, "everything-returned-upstream");
}
// Fill one superpage completely with blocks of equal size, in any order of
// returns, then ask for the whole.
VF_HARNESS_FN(bpage_full) {
    bp_state s;
    s.P = 5;
    s.cl.quiet = true;
    narrow(s.up);
    {
        mr_t mr(s.up);
        const int parts = (int)vf_param("parts", 4);
        const u64 whole = u64(1) << vf_param("log", 16);
        int j = s.alloc(mr, whole, 1);
        const u64 size = vf_concretize(s.up.b[0].n);
        s.give(mr, j);
        for (int i = 0; i < parts; ++i)
            s.alloc(mr, vf_range("n", size / parts / 2 + 1, size / parts), 1);
        check(s.up.allocs == 1, "parts-fill-the-superpage");
        for (int i = 0; i < parts; ++i)
            s.give(mr, s.cl.nth(vf_pick("which", parts - i)));
        s.alloc(mr, vf_range("n", size / 2 + 1, size), 1);
        check(s.up.allocs == 1, "merged-memory-serves-the-whole");
        vf_cover("merged");
    }
    check(s.up.live() == 0, "everything-returned-upstream");
}

// Many superpages in use: free memory is found wherever it is.
VF_HARNESS_FN(bpage_many) {
    bp_state s;
    s.P = 17;
    s.cl.quiet = true;
    s.up.quiet = true;
#ifdef VF_MANY
    s.up.down = vf_pick("down", 2);
#endif
    {
        mr_t mr(s.up);
        const int n = (int)vf_param("n", 12);
        const bool part = vf_param("part", 0);
        int j = s.alloc(mr, u64(1) << vf_param("log", 20), 1);
        const u64 size = vf_concretize(s.up.b[0].n);
        for (int i = 1; i < n; ++i)
            s.alloc(mr, size, 1);
        for (int i = 0; i < n; ++i)
            s.give(mr, j + i);
        for (int i = 0; i < n; ++i) {
            s.alloc(mr, part ? size / 2 : size, 1);
            if (part)
                s.alloc(mr, size / 2, 1);
        }
        check(s.up.allocs == n, "one-superpage-each");
        const int first = s.cl.cnt - n * (1 + part);
        const int x = (int)vf_pick("which", (unsigned)(n * (1 + part)));
        const int y = (int)vf_pick("also", 3);
        s.give(mr, first + x);
        int freed = 1;
        if (y) {
            const int z = y == 1 ? x + 1 : x + n / 2;
            if (z < n * (1 + part)) {
                s.give(mr, first + z);
                ++freed;
            }
        }
        const u64 whole = part ? size / 2 : size;
        for (int i = 0; i < freed; ++i)
            s.alloc(mr, vf_range("n", whole / 2 + 1, whole), 1);
        check(s.up.allocs == n, "free-memory-serves-request");
        for (int k = 0; k < s.cl.cnt; ++k)
            for (int l = k + 1; l < s.cl.cnt && s.cl.live[k]; ++l)
                if (s.cl.live[l] && l >= s.cl.cnt - freed)
                    check(int(s.cl.p[l] >= s.cl.p[k] + s.cl.n[k]) | int(s.cl.p[k] >= s.cl.p[l] + s.cl.n[l]), "separate");
        vf_cover("found");
    }
    check(s.up.live() == 0, "everything-returned-upstream");
}
