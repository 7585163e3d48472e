// M13: synchronized resource under every schedule
#include "vecmem/memory/synchronized_memory_resource.hpp"

#include "fwd.hpp"
using namespace vfh;

struct guarded : std::pmr::memory_resource {
    int inside = 0, calls = 0;
    // per thread: what was asked and what was answered
    u64 n[4], a[4], p[4];
    int kind[4], cnt[4] = {0, 0, 0, 0};
    int fail[4] = {0, 0, 0, 0};
    void enter(int k, u64 p_, u64 n_, u64 a_) {
        check(inside == 0, "one-call-at-a-time");
        inside = 1;
        vf_yield();
        check(inside == 1, "one-call-at-a-time");
        int t = vf_tid();
        kind[t] = k;
        p[t] = p_;
        n[t] = n_;
        a[t] = a_;
        ++cnt[t];
        ++calls;
    }
    void *do_allocate(std::size_t k, std::size_t al) override {
        u64 r = vf_sym("addr", 40) + 1;
        enter(0, r, k, al);
        inside = 0;
        if (fail[vf_tid()]) {
            if (fail[vf_tid()] == 1)
                throw std::bad_alloc();
            throw std::runtime_error("upstream");
        }
        return ptr(r);
    }
    void do_deallocate(void *q, std::size_t k, std::size_t al) override {
        enter(1, addr(q), k, al);
        inside = 0;
    }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};
struct shared {
    guarded up;
    vecmem::synchronized_memory_resource mr{up};
    int ops;
    u64 script;
    int fails;
};
static void client(void *arg) {
    shared &s = *(shared *)arg;
    const int t = vf_tid();
    u64 q = 0, n = 0;
    for (int i = 0; i < s.ops; ++i) {
        const int c0 = s.up.cnt[t];
        if (((s.script >> i) & 1) == 0) {
            n = vf_sym("n", 64) | 1;
            s.up.fail[t] = s.fails ? (int)vf_pick("fail", 3) : 0;
            int err = 0;
            void *r = nullptr;
            try {
                r = s.mr.allocate(n, 16);
            } catch (const std::bad_alloc &) {
                err = 1;
            } catch (const std::runtime_error &) {
                err = 2;
            }
            check(s.up.cnt[t] == c0 + 1 && s.up.kind[t] == 0, "forwarded-once");
            check(int(s.up.n[t] == n) & int(s.up.a[t] == 16), "request-unchanged");
            check(err == s.up.fail[t], "error-propagates");
            if (!err)
                check(addr(r) == s.up.p[t], "result-unchanged");
            q = addr(r);
        } else {
            s.mr.deallocate(ptr(q), n, 16);
            check(s.up.cnt[t] == c0 + 1 && s.up.kind[t] == 1, "return-forwarded-once");
            check(int(s.up.p[t] == q) & int(s.up.n[t] == n) & int(s.up.a[t] == 16), "return-unchanged");
        }
    }
}
VF_HARNESS_FN(sync_threads) {
    static shared *s;
    s = new shared();
    const int T = (int)vf_param("threads", 2);
    s->ops = (int)vf_param("ops", 2);
    s->script = vf_param("script", 2);
    s->fails = (int)vf_param("fails", 0);
    for (int t = 0; t < T; ++t)
        vf_spawn(client, s);
    vf_join();
    check(s->up.inside == 0, "nobody-left-inside");
    check(s->up.calls == T * s->ops, "every-request-forwarded");
    // still usable: the lock was released
    s->up.fail[0] = 0;
    (void)s->mr.allocate(8, 8);
    vf_cover("joined");
    delete s;
}
