// Long histories: many live blocks, several waves of requests and returns.
// The sizes follow patterns, one of them in the middle is any size; every
// order of returns of a list, and an upstream whose k-th request fails.
#include <cmath>
#include <stdexcept>

#include "vecmem/utils/memory_monitor.hpp"

#include "kinds.hpp"
#include "res.hpp"
using namespace vfh;

static const int BLOCKS = 160;

// Far apart addresses that go up, down or alternate, aligned as asked.
class far_upstream : public base_t {
public:
    int dir = 0, failAt = -1, fails = 0, cnt = 0, frees = 0, live = 0, bad = 0, refuseFrom = 0, refuseTo = 0;
    u64 p[BLOCKS], n[BLOCKS], a[BLOCKS];
    bool on[BLOCKS];
    u64 base = u64(1) << 44;
    int inside(u64 x, u64 k) const {
        int r = 0;
        for (int i = 0; i < cnt; ++i)
            if (on[i])
                r |= int(x >= p[i]) & int(x - p[i] <= n[i]) & int(k <= n[i] - (x - p[i]));
        return r;
    }

private:
    void *do_allocate(std::size_t k, std::size_t al) override {
        // refuses what lies in [refuseFrom, refuseTo) and its k-th request
        if ((failAt >= 0 && failAt-- == 0) || (int(k >= (u64)refuseFrom) & int(k < (u64)refuseTo))) {
            ++fails;
            throw std::bad_alloc();
        }
        if (cnt >= BLOCKS)
            vf_fail("harness:too-many-upstream-blocks");
        al = vf_concretize(al);
        const u64 step = u64(1) << 28, i = (u64)cnt;
        u64 x = base + (dir == 0 ? i : dir == 1 ? BLOCKS - i : i % 2 ? BLOCKS + i : BLOCKS - i) * step;
        x += al;
        p[cnt] = x;
        n[cnt] = k;
        a[cnt] = al;
        on[cnt++] = true;
        ++live;
        return ptr(x);
    }
    void do_deallocate(void *q, std::size_t k, std::size_t al) override {
        ++frees;
        int found = 0;
        for (int i = 0; i < cnt; ++i)
            if (on[i] && p[i] == addr(q)) {
                found = int(n[i] == k) & int(a[i] == al);
                on[i] = false;
                --live;
                break;
            }
        bad |= 1 ^ found;
    }
    bool do_is_equal(const base_t &o) const noexcept override { return this == &o; }
};

static u64 pattern(unsigned pat, unsigned i) {
    switch (pat) {
        case 0: return 1 + (i * 37) % 100;
        case 1: return 24;
        case 2: return u64(1) << (i % 12);
        default: return (u64(i) * i * 131) % 5000 + 1;
    }
}

struct long_history_s {
    template <class R>
    void operator()() {
        using namespace vecmem;
        constexpr bool pool = std::is_same_v<R, pool_memory_resource>, page = std::is_same_v<R, binary_page_memory_resource>,
                       arena = std::is_same_v<R, arena_memory_resource>, one = std::is_same_v<R, contiguous_memory_resource>,
                       own = pool || page || arena || one, instr = std::is_same_v<R, instrumenting_memory_resource>,
                       debug = std::is_same_v<R, debug_memory_resource>;
        constexpr bool aligned = !page && !arena;
        const unsigned N = (unsigned)vf_param("n", 20), waves = (unsigned)vf_param("waves", 2);
        const bool faults = vf_param("faults", 0), deep = vf_param("deep", 0);
        far_upstream up;
        up.dir = faults && !deep ? 2 : (int)vf_pick("places", 3);
        counters ct;
        const unsigned pat = vf_pick("sizes", 4), order = faults && !deep ? 1 + 2 * vf_pick("order", 2) : vf_pick("order", 5);
        u64 sum = 0, peak = 0, now = 0, count = 0;
        int events = 0;
        {
            std::unique_ptr<R> r = make<R>(up, ct);
            base_t &mr = *r;
            std::unique_ptr<memory_monitor> mon;
            if constexpr (instr)
                mon = std::make_unique<memory_monitor>(*r);
            if (faults)
                up.failAt = (int)vf_pick("failAt", deep ? 12 : 6);
            static clients<BLOCKS> cl;
            cl.cnt = 0;
            bool any = false;
            auto alloc = [&](unsigned i, unsigned wave) {
                u64 n = pattern(pat, i), a = aligned && pat == 3 && i % 4 == 1 ? 64 : 1;
                if (i == N / 2 && wave == 0 && !any) {
                    n = vf_range("n", 1, 200);
                    any = true;
                }
                for (int t = 0; t < 2; ++t) {
                    const int b0 = up.cnt, f0 = up.fails;
                    void *q;
                    if (instr)
                        ++events;
                    try {
                        q = mr.allocate(n, a);
                    } catch (const std::bad_alloc &) {
                        if (!one)
                            check(t == 0 && up.fails > f0, "fails-only-when-upstream-fails");
                        vf_cover("failed");
                        if (one)
                            return -1;
                        continue;
                    }
                    sum += n;
                    ++count;
                    now += n;
                    peak = peak > now ? peak : now;
                    check(up.fails == f0, "failure-reaches-caller");
                    check(up.cnt <= b0 + 1, "at-most-one-upstream-request");
                    const int j = cl.add(up, q, n, a, aligned);
                    if (!own)
                        check(int(up.cnt == b0 + 1) & int(up.n[b0] == n) & int(up.a[b0] == a) & int(up.p[b0] == cl.p[j]),
                              "forwarded-unchanged");
                    return j;
                }
                vf_fail("served-after-recovery");
            };
            auto give = [&](int j) {
                const int f0 = up.frees;
                cl.live[j] = false;
                now -= cl.n[j];
                if constexpr (debug) {
                    int threw = 0;
                    try {
                        mr.deallocate(ptr(cl.p[j] + 1), cl.n[j], cl.a[j]);
                    } catch (const std::logic_error &) {
                        threw = 1;
                    }
                    check(threw && up.frees == f0, "wrong-return-detected");
                    try {
                        mr.deallocate(ptr(cl.p[j]), cl.n[j] + 1, cl.a[j]);
                    } catch (const std::logic_error &) {
                        threw = 2;
                    }
                    check(threw == 2 && up.frees == f0, "wrong-size-detected");
                }
                if (instr)
                    ++events;
                mr.deallocate(ptr(cl.p[j]), cl.n[j], cl.a[j]);
                if (own && !pool)
                    check(up.frees == f0, "memory-kept-until-destruction");
                if (!own)
                    check(up.frees == f0 + 1 && !up.bad, "returned-unchanged");
            };
            int got[64];
            for (unsigned w = 0; w < waves; ++w) {
                for (unsigned i = 0; i < N; ++i) {
                    got[i] = alloc(i, w);
                    if (order == 4 && i >= 5 && got[i - 5] >= 0) {
                        give(got[i - 5]);
                        got[i - 5] = -1;
                    }
                }
                cl.still_valid(up);
                for (unsigned i = 0; i < N; ++i) {
                    unsigned k = order == 0   ? i
                                 : order == 1 ? N - 1 - i
                                 : order == 2 ? (2 * i < N ? 2 * i : 2 * (i - (N + 1) / 2) + 1)
                                              : (i * 7 + 3) % N;
                    if (order == 4)
                        k = i;
                    if (k < N && got[k] >= 0 && (w + 1 == waves || k % 6 != 5)) {
                        give(got[k]);
                        got[k] = -1;
                    }
                }
                cl.still_valid(up);
                if (!one)
                    vf_cover("wave");
            }
            for (int j = 0; j < cl.cnt; ++j)
                if (cl.live[j])
                    give(j);
            up.failAt = -1;
            // everything is back: what is held serves again
            if (pool || page || (arena && !faults)) {
                const int b0 = up.cnt;
                u64 n = pool ? 64 : page ? up.n[0] : 1024;
                if (!pool || pat == 0 || pat == 2) {  // (patterns with a block of that class)
                    void *q = mr.allocate(n, 1);
                    check(up.cnt == b0, "held-memory-serves-again");
                    mr.deallocate(q, n, 1);
                    vf_cover("served-again");
                }
            }
            if constexpr (instr) {
                check(int(r->get_events().size()) == events, "one-event-per-request");
                check(mon->total_allocation() == sum && mon->outstanding_allocation() == now && mon->maximal_allocation() == peak,
                      "statistics");
            }
            vf_cover("done");
        }
        check(up.live == 0 && !up.bad, "upstream-settled");
    }
};
VF_HARNESS_FN(long_history) { dispatch(long_history_s{}); }

// Several upstream resources, many live blocks.
VF_HARNESS_FN(long_routes) {
    const unsigned N = (unsigned)vf_param("n", 24);
    const bool choice = vf_param("choice", 0);
    far_upstream up[3];
    for (int k = 0; k < 3; ++k) {
        up[k].base = u64(k + 1) << 44;
        up[k].dir = (int)((k + vf_pick("places", 3)) % 3);
    }
    if (!choice) {
        up[0].refuseFrom = 50, up[0].refuseTo = 1 << 20;
        up[1].refuseFrom = 80, up[1].refuseTo = 1 << 20;
    }
    const unsigned order = vf_pick("order", 4);
    int want = 0;
    std::unique_ptr<base_t> r;
    if (choice)
        r = std::make_unique<vecmem::choice_memory_resource>([&](std::size_t, std::size_t) -> base_t & { return up[want]; });
    else
        r = std::make_unique<vecmem::coalescing_memory_resource>(std::vector<std::reference_wrapper<base_t>>{up[0], up[1], up[2]});
    u64 p[BLOCKS], n[BLOCKS];
    int who[BLOCKS];
    unsigned cnt = 0;
    for (unsigned w = 0; w < 2; ++w) {
        for (unsigned i = 0; i < N; ++i, ++cnt) {
            n[cnt] = i == N / 2 && w == 0 ? vf_range("n", 1, 200) : 1 + (i * 37) % 100;
            want = choice ? int(i * 5 % 7 % 3) : 0;
            who[cnt] = choice ? want : n[cnt] < 50 ? 0 : n[cnt] < 80 ? 1 : 2;
            far_upstream &u = up[who[cnt]];
            const int c0 = u.cnt, all = up[0].cnt + up[1].cnt + up[2].cnt;
            p[cnt] = addr(r->allocate(n[cnt], 8));
            check(up[0].cnt + up[1].cnt + up[2].cnt == all + 1 && u.cnt == c0 + 1, "served-by-the-right-one");
            check(int(u.p[c0] == p[cnt]) & int(u.n[c0] == n[cnt]) & int(u.a[c0] == 8), "forwarded-unchanged");
        }
        for (unsigned i = 0; i < N; ++i) {
            const unsigned k = order == 0 ? i : order == 1 ? N - 1 - i : order == 2 ? (i * 7 + 3) % N : (i * 5 + 1) % N;
            if (w == 0 && k % 6 == 5)
                continue;
            const unsigned j = w * N + k;
            want = int(i % 3);
            const int f0 = up[who[j]].frees;
            r->deallocate(ptr(p[j]), n[j], 8);
            check(up[who[j]].frees == f0 + 1, "returned-where-it-came-from");
        }
    }
    for (unsigned j = 5; j < N; j += 6)
        r->deallocate(ptr(p[j]), n[j], 8);
    r.reset();
    for (auto &u : up)
        check(u.live == 0 && !u.bad, "upstream-settled");
    vf_cover("done");
}
