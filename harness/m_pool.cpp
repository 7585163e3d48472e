// M01-M03, M17-M19, M21: pool memory resource
#include "vecmem/memory/pool_memory_resource.hpp"

#include <stdexcept>
#include <utility>

#include "res.hpp"
using namespace vfh;
using opt_t = vecmem::pool_memory_resource::options;

// 0 default; 1 small chunks, cached; 2 small, not cached; 3 small, pool
// alignment below the smallest block; 4 chunk sizes given in bytes; 5 one
// block size only; 6 symbolic limits; 7 one block size, growing chunks
static opt_t config(int c) {
    opt_t o;
    if (c == 0)
        return o;
    o.min_blocks_per_chunk = 1;
    o.min_bytes_per_chunk = 16;
    o.max_blocks_per_chunk = 3;
    o.max_bytes_per_chunk = 192;
    o.smallest_block_size = 16;
    o.largest_block_size = 64;
    o.alignment = 16;
    o.cached_size_cutoff_factor = 4;
    o.cached_alignment_cutoff_factor = 8;
    if (c == 2)
        o.cache_oversized = false;
    if (c == 3) {
        o.smallest_block_size = 32;
        o.alignment = 8;
    }
    if (c == 4) {
        o.min_blocks_per_chunk = 2;
        o.min_bytes_per_chunk = 128;
        o.max_blocks_per_chunk = 8;
        o.max_bytes_per_chunk = 256;
    }
    if (c == 5) {
        o.smallest_block_size = 64;
        o.alignment = 64;
    }
    if (c == 6) {
        o.min_blocks_per_chunk = vf_below("minBlocks", 4);
        o.max_blocks_per_chunk = vf_below("maxBlocks", 5);
        o.min_bytes_per_chunk = vf_below("minBytes", 129);
        o.max_bytes_per_chunk = vf_below("maxBytes", 300);
        o.largest_block_size = 32;
        o.cache_oversized = vf_pick("cache", 2);
        o.cached_size_cutoff_factor = vf_below("sizeCutoff", 5);
    }
    if (c == 7) {
        o.largest_block_size = 16;
        o.min_blocks_per_chunk = 2;
        o.min_bytes_per_chunk = 32;
        o.max_blocks_per_chunk = vf_range("maxBlocks", 2, 6);
        o.max_bytes_per_chunk = vf_range("maxBytes", 32, 128);
    }
    return o;
}
static u64 pickAlign() {
    static const unsigned char l[4] = {0, 6, 4, 12};
    return u64(1) << l[vf_pick("align", (unsigned)vf_param("aligns", 2))];
}

VF_HARNESS_FN(pool_history) {
    const int ops = (int)vf_param("ops", 4), P = (int)vf_param("P", 1);
    const int cfg = (int)vf_param("cfg", 1);
    const opt_t o = config(cfg);
    sym_upstream<8> up;
    up.quiet = P != 2;
    up.mayFail = P == 19;
    const u64 maxN = vf_param("maxN", 1u << 12);
    const bool wide = vf_param("wide", 0);
    if (!wide)
        up.narrow(24, 20);
    const bool scripted = vf_param("script", 0) != 0;
    const u64 script = vf_param("script", 0);
    clients<12> cl;
    cl.quiet = P != 1 && P != 19;
    try {
        vecmem::pool_memory_resource mr(up, o);
        auto alloc = [&](u64 n, u64 a) {
            const int b0 = up.allocs, f0 = up.fails, n0 = up.n;
            const u64 r = n < o.smallest_block_size ? o.smallest_block_size : n;
            const bool over = int(r > o.largest_block_size) | int(a > o.alignment);
            void *q;
            try {
                q = mr.allocate(n, a);
            } catch (const std::bad_alloc &) {
                check(up.fails > f0, "fails-only-when-upstream-fails");
                vf_cover("upstream-failed");
                return -1;
            }
            check(up.fails == f0, "upstream-failure-reaches-caller");
            if (P == 3) {
                check(up.allocs <= b0 + 1, "at-most-one-upstream-request");
                if (over) {
                    if (up.allocs > b0) {
                        check(int(up.lastN == r) & int(up.lastA == a),
                              "oversized-request-forwarded-exactly");
                        vf_cover("oversized-fresh");
                    } else {
                        check(o.cache_oversized, "no-cached-block-without-caching");
                        int ok = 0;
                        for (int i = 0; i < n0; ++i)
                            if (up.b[i].a >= a && up.b[i].a / a < o.cached_alignment_cutoff_factor)
                                ok |= int(up.b[i].p == addr(q)) & int(up.b[i].n >= r) &
                                      // block / request < cut-off
                                      int(up.b[i].n < r * o.cached_size_cutoff_factor);
                        check(ok, "cached-block-fits-within-cutoffs");
                        vf_cover("oversized-from-cache");
                    }
                } else if (up.allocs > b0) {
                    u64 bs = 16;
                    while (bs < r)
                        bs *= 2;
                    const u64 k = up.lastN;
                    check(up.lastA == o.alignment, "chunk-alignment");
                    check((k & (bs - 1)) == 0, "chunk-is-whole-blocks");
                    check(int(k <= o.max_bytes_per_chunk) & int(k <= o.max_blocks_per_chunk * bs),
                          "chunk-within-maximum");
                    check(int(k >= o.min_blocks_per_chunk * bs) & int(k >= bs) &
                              int(k + bs > o.min_bytes_per_chunk),
                          "chunk-above-minimum");
                    vf_cover("new-chunk");
                }
            }
            if (over)
                vf_cover("oversized");
            else
                vf_cover("pooled");
            return cl.add(up, q, n, a);
        };
        auto give = [&](int j) {
            cl.live[j] = false;
            mr.deallocate(ptr(cl.p[j]), cl.n[j], cl.a[j]);
        };
        int frees0 = 0;
        for (int i = 0; i < ops; ++i) {
            int live = cl.liveCount();
            // script: bit i set: give back, else allocate
            unsigned k = i == 0 ? 0
                         : !scripted ? vf_pick("op", 1 + live)
                         : (script >> i) & 1 ? 1 + vf_pick("which", live)
                                             : 0;
            if (k == 0) {
                u64 n = vf_range("n", 1, maxN);
                if (i == 0 && vf_param("first", 9) != 9)
                    vf_assume(vf_param("first", 0) == 0   ? n <= 16
                              : vf_param("first", 0) == 1 ? int(n > 16) & int(n <= 64)
                                                          : n > 64);
                if (vf_param("over", 0))
                    vf_assume(n > o.largest_block_size);
                u64 a = pickAlign();
                if (alloc(n, a) < 0) {
                    up.mayFail = false;
                    if (P == 19) {  // once upstream recovers the request succeeds
                        check(alloc(n, a) >= 0, "served-after-recovery");
                        up.mayFail = true;
                    }
                }
            } else {
                give(cl.nth(k - 1));
                vf_cover("returned");
            }
            if ((P == 2 || P == 19) && up.frees != frees0)
                cl.still_valid(up);
            frees0 = up.frees;
        }
        if (P == 3 && cl.liveCount() > 0) {
            // give one back and ask for the same again
            int j = cl.nth(vf_pick("again", cl.liveCount()));
            const u64 n = cl.n[j], r = n < o.smallest_block_size ? o.smallest_block_size : n;
            const bool over = int(r > o.largest_block_size) | int(cl.a[j] > o.alignment);
            int own = 1;
            if (over) {
                own = 0;
                for (int i = 0; i < up.n; ++i)
                    own |= int(up.b[i].p == cl.p[j]) & int(up.b[i].n == r) &
                           int(up.b[i].a == cl.a[j]);
            }
            give(j);
            if (!over || (o.cache_oversized && own && o.cached_size_cutoff_factor > 1)) {
                const int b0 = up.allocs;
                alloc(n, cl.a[j]);
                check(up.allocs == b0, "returned-block-serves-identical-request");
                vf_cover("reused");
            }
        }
        if (vf_param("move", 0)) {  // M21
            vecmem::pool_memory_resource m2(std::move(mr));
            for (int j = 0; j < cl.cnt; ++j)
                if (cl.live[j] && vf_pick("early", 2)) {
                    cl.live[j] = false;
                    m2.deallocate(ptr(cl.p[j]), cl.n[j], cl.a[j]);
                }
            void *q = m2.allocate(24, 8);
            int j = cl.add(up, q, 24, 8);
            cl.live[j] = false;
            m2.deallocate(q, 24, 8);
            for (int j = 0; j < cl.cnt; ++j)
                if (cl.live[j]) {
                    cl.live[j] = false;
                    m2.deallocate(ptr(cl.p[j]), cl.n[j], cl.a[j]);
                }
            vf_cover("moved");
        } else
            for (int j = 0; j < cl.cnt; ++j)
                if (cl.live[j]) {
                    give(j);
                    if (P == 2 && up.frees != frees0)
                        cl.still_valid(up);
                    frees0 = up.frees;
                }
    } catch (const std::invalid_argument &) {
        check(cfg == 6, "valid-options-accepted");
        vf_cover("options-rejected");
    }
    if (P == 2 || P == 19)
        check(up.live() == 0, "everything-returned-upstream");
}

// M03: accepted exactly when consistent.
VF_HARNESS_FN(pool_options) {
    static const u64 sizes[8] = {0, 1, 8, 16, 24, 64, u64(1) << 20, u64(1) << 40};
    opt_t o;
    const u64 sb = o.smallest_block_size = sizes[vf_pick("smallest", 8)];
    const u64 lb = o.largest_block_size = sizes[vf_pick("largest", 8)];
    const u64 al = o.alignment = sizes[2 + vf_pick("alignment", 4)];
    const u64 minB = o.min_blocks_per_chunk = vf_sym("minBlocks", 64);
    const u64 maxB = o.max_blocks_per_chunk = vf_sym("maxBlocks", 64);
    const u64 minY = o.min_bytes_per_chunk = vf_sym("minBytes", 64);
    const u64 maxY = o.max_bytes_per_chunk = vf_sym("maxBytes", 64);
    o.cache_oversized = false;
    auto p2 = [](u64 x) { return x != 0 && (x & (x - 1)) == 0; };
    sym_upstream<2> up;
    bool threw = false, other = false;
    try {
        vecmem::pool_memory_resource mr(up, o);
        vf_cover("accepted");
    } catch (const std::invalid_argument &) {
        threw = true;
        vf_cover("rejected");
    } catch (...) {
        other = true;
    }
    check(!other, "rejected-with-invalid-argument");
    bool shape = p2(sb) && p2(lb) && p2(al) && sb <= lb && al <= sb;
    if (!shape)
        check(threw, "impossible-block-sizes-rejected");
    else {
        // a first chunk must hold a block, and fit the limits
        const u64 q = maxY / lb, big = minY / sb + ((minY & (sb - 1)) != 0);
        bool good = int(minB <= maxB) & int(minY <= maxY) & int(minB <= q) &
                    int(maxB >= big) & int(maxB != 0) & int(maxY != 0);
        bool useless = int(minB == 0) & int(minY < lb);
        if (threw)
            check(int(!good) | int(minB == 0), "consistent-options-accepted");
        else
            check(int(good) & int(!useless), "inconsistent-options-rejected");
    }
    check(up.allocs == 0, "no-memory-taken-yet");
}
