// M17, M18, M19, M21: what all resources on top of another one share
#include <utility>
#include <vector>

#include "fwd.hpp"
#include "kinds.hpp"
using namespace vfh;

// Concrete, aligned addresses, a log of every call, failures on demand.
class log_upstream : public base_t {
public:
    call_log log;
    bool mayFail = false;
    int fails = 0, live = 0, bad = 0;
    u64 next = u64(1) << 40;
    u64 p[24], n[24], a[24];
    bool on[24];
    int cnt = 0;
    int inside(u64 x, u64 k) const {
        int r = 0;
        for (int i = 0; i < cnt; ++i)
            if (on[i])
                r |= int(x >= p[i]) & int(x - p[i] <= n[i]) & int(k <= n[i] - (x - p[i]));
        return r;
    }
    bool same(const log_upstream &o) const {
        if (log.n != o.log.n)
            return false;
        int ok = 1;
        for (int i = 0; i < log.n; ++i)
            ok &= int(log.c[i].kind == o.log.c[i].kind) & int(log.c[i].p == o.log.c[i].p) &
                  int(log.c[i].n == o.log.c[i].n) & int(log.c[i].a == o.log.c[i].a);
        return ok;
    }

private:
    void *do_allocate(std::size_t k, std::size_t al) override {
        if (mayFail && vf_pick("fail", 2)) {
            ++fails;
            log.add(0, 0, 0, k, al);
            throw std::bad_alloc();
        }
        al = vf_concretize(al);
        u64 x = (next + al - 1) / al * al;
        next = x + (u64(1) << 32) + 16;
        if (cnt >= 24)
            vf_fail("harness:too-many-upstream-blocks");
        p[cnt] = x;
        n[cnt] = k;
        a[cnt] = al;
        on[cnt++] = true;
        ++live;
        log.add(0, 0, x, k, al);
        return ptr(x);
    }
    void do_deallocate(void *q, std::size_t k, std::size_t al) override {
        log.add(0, 1, addr(q), k, al);
        int found = 0;
        for (int i = 0; i < cnt; ++i)
            if (on[i] && p[i] == addr(q)) {
                found = int(n[i] == k) & int(a[i] == al);
                on[i] = false;
                --live;
                break;
            }
        bad |= 1 ^ found;
    }
    bool do_is_equal(const base_t &o) const noexcept override { return this == &o; }
};

static bool over_aligned_ok() {  // resources that pass alignments on
    u64 k = vf_param("kind", 0);
    return k != 1 && k != 2;
}
static u64 size_in() {
    // pool: crosses its size classes; others: anything small
    return vf_range("n", vf_param("lo", 1), vf_param("hi", 100));
}

// ------------------------------------------------------------- M17, M19
struct generic_history_s {
    template <class R>
    void operator()() {
        const int ops = (int)vf_param("ops", 3), P = (int)vf_param("P", 17);
        log_upstream up;
        counters ct;
        clients<16> cl;
        cl.quiet = P == 17;
        {
            std::unique_ptr<R> r;
            up.mayFail = P == 19;
            try {
                r = make<R>(up, ct);
            } catch (const std::bad_alloc &) {
                check(up.fails > 0, "fails-only-when-upstream-fails");
                check(up.live == 0 && !up.bad, "nothing-kept-after-failed-construction");
                vf_cover("construction-failed");
                return;
            }
            check(up.fails == 0, "failed-construction-reported");
            for (int i = 0; i < ops; ++i) {
                unsigned k = i == 0 ? 0 : vf_pick("op", 1 + cl.liveCount());
                if (k == 0) {
                    u64 n = size_in(), a = over_aligned_ok() ? any_align(2) : 1;
                    for (int attempt = 0; attempt < 2; ++attempt) {
                        const int f0 = up.fails;
                        if (attempt)
                            up.mayFail = false;
                        try {
                            void *q = r->allocate(n, a);
                            check(up.fails == f0, "failure-reaches-caller");
                            cl.add(up, q, n, a, over_aligned_ok());
                            break;
                        } catch (const std::bad_alloc &) {
                            check(up.fails > f0, "fails-only-when-upstream-fails");
                            vf_cover("failed");
                        }
                    }
                    up.mayFail = P == 19;
                } else {
                    int j = cl.nth(k - 1);
                    cl.live[j] = false;
                    r->deallocate(ptr(cl.p[j]), cl.n[j], cl.a[j]);
                    vf_cover("returned");
                }
                if (P == 19)
                    cl.still_valid(up);
            }
            for (int j = 0; j < cl.cnt; ++j)
                if (cl.live[j]) {
                    cl.live[j] = false;
                    r->deallocate(ptr(cl.p[j]), cl.n[j], cl.a[j]);
                }
        }
        if (P == 19)
            check(up.live == 0 && !up.bad, "upstream-settled");
        vf_cover("done");
    }
};
VF_HARNESS_FN(generic_history) { dispatch(generic_history_s{}); }

// ------------------------------------------------------------------ M18
struct empty_requests_s {
    template <class R>
    void operator()() {
        const int ops = (int)vf_param("ops", 3);
        log_upstream up, ref;
        counters ct, ctr;
        const bool host = vf_param("kind", 0) == 11;
        fmodel m, mref;
        {
            auto r = make<R>(up, ct);
            auto x = make<R>(ref, ctr);
            base_t &mr = *r, &rr = *x;
            for (int i = 0; i < ops; ++i) {
                unsigned k = vf_pick("op", 3 + m.live());
                const int n0 = up.log.n, h0 = ct.hooks;
                if (k == 0) {
                    check(empty_alloc(mr, u64(1) << vf_pick("alignLog", 8)) == 0, "empty-request-gives-null");
                    check(up.log.n == n0, "empty-request-stays-here");
                    check(ct.hooks == h0, "empty-request-calls-nothing");
                    vf_cover("empty");
                } else if (k == 1) {
                    mr.deallocate(nullptr, vf_sym("dn", 64), 8);
                    check(up.log.n == n0, "null-return-stays-here");
                    check(ct.hooks == h0, "null-return-calls-nothing");
                    vf_cover("null");
                } else if (k == 2) {
                    u64 n = host ? 1 + vf_pick("n", 20) : size_in();
                    u64 p = addr(mr.allocate(n, 1)), q = addr(rr.allocate(n, 1));
                    if (!host)
                        check(p == q, "later-requests-unchanged");
                    m.add(p, n, 1, 0);
                    mref.add(q, n, 1, 0);
                    vf_cover("allocated");
                } else {
                    int j = m.nth(k - 3);
                    m.b[j].live = false;
                    mr.deallocate(ptr(m.b[j].p), m.b[j].n, 1);
                    rr.deallocate(ptr(mref.b[j].p), m.b[j].n, 1);
                }
                check(ct.hooks == ctr.hooks && up.same(ref), "upstream-sees-the-same");
                if constexpr (std::is_same_v<R, vecmem::instrumenting_memory_resource>)
                    check(r->get_events().size() == x->get_events().size(), "no-event");
            }
            for (int j = 0; j < m.cnt; ++j)
                if (m.b[j].live) {
                    mr.deallocate(ptr(m.b[j].p), m.b[j].n, 1);
                    rr.deallocate(ptr(mref.b[j].p), m.b[j].n, 1);
                }
        }
        check(up.same(ref), "upstream-sees-the-same");
    }
};
VF_HARNESS_FN(empty_requests) { dispatch(empty_requests_s{}); }

// ------------------------------------------------------------------ M21
struct moving_s {
    template <class R>
    void operator()() {
        if constexpr (!std::is_same_v<R, vecmem::host_memory_resource> &&
                      !std::is_same_v<R, vecmem::identity_memory_resource>) {
            const int ops = (int)vf_param("ops", 3), ops2 = (int)vf_param("ops2", 1);
            log_upstream up, ref, old;
            counters ct, ctr, cto;
            clients<16> cl;
            cl.quiet = true;
            auto step = [&](base_t &mr, base_t &rr, bool forceAlloc) {
                unsigned k = forceAlloc ? 0 : vf_pick("op", 1 + cl.liveCount());
                if (k == 0) {
                    u64 n = size_in();
                    void *p = nullptr, *q = nullptr;
                    p = mr.allocate(n, 1);
                    q = rr.allocate(n, 1);
                    check(addr(p) == addr(q), "same-blocks-as-unmoved");
                    cl.add(up, p, n, 1, false);
                } else {
                    int j = cl.nth(k - 1);
                    cl.live[j] = false;
                    mr.deallocate(ptr(cl.p[j]), cl.n[j], 1);
                    rr.deallocate(ptr(cl.p[j]), cl.n[j], 1);
                }
                check(up.same(ref), "upstream-sees-the-same");
            };
            {
                auto x = make<R>(ref, ctr);
                std::unique_ptr<R> dst;
                {
                    auto src = make<R>(up, ct);
                    for (int i = 0; i < ops; ++i)
                        step(*src, *x, i == 0);
                    if (vf_pick("assign", 2)) {
                        dst = make<R>(old, cto);
                        // what the destination held so far
                        void *q = dst->allocate(40, 1), *s = dst->allocate(90, 1);
                        dst->deallocate(q, 40, 1);
                        dst->deallocate(s, 90, 1);
                        *dst = std::move(*src);
                        check(old.live == 0 && !old.bad, "assigned-over-settles-first");
                        vf_cover("assigned");
                    } else {
                        dst = std::make_unique<R>(std::move(*src));
                        vf_cover("constructed");
                    }
                    check(up.same(ref), "moving-sends-nothing");
                    // the moved-from object goes away
                }
                check(up.same(ref), "moved-from-object-sends-nothing");
                for (int i = 0; i < ops2; ++i)
                    step(*dst, *x, false);
                if constexpr (std::is_same_v<R, vecmem::instrumenting_memory_resource>)
                    check(dst->get_events().size() == x->get_events().size(), "events-kept");
                for (int j = 0; j < cl.cnt; ++j)
                    if (cl.live[j]) {
                        dst->deallocate(ptr(cl.p[j]), cl.n[j], 1);
                        x->deallocate(ptr(cl.p[j]), cl.n[j], 1);
                    }
                if (vf_pick("again", 2)) {
                    R third(std::move(*dst));
                    dst.reset();
                    x.reset();
                }
            }
            check(ct.hooks == ctr.hooks, "hooks-kept");
            check(up.same(ref), "settles-as-unmoved");
            check(up.live == 0 && !up.bad, "upstream-settled");
        }
    }
};
VF_HARNESS_FN(moving) { dispatch(moving_s{}); }
