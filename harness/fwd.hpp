// Recording upstreams for the resources that only forward requests.
#pragma once
#include <stdexcept>

#include "res.hpp"

namespace vfh {
// What happened, in order, over all upstreams and hooks.
struct call {
    int who, kind;  // kind 0 allocate, 1 deallocate, 2 equal, 10.. hooks
    u64 p, n, a;
};
struct call_log {
    call c[128];
    int n = 0;
    void add(int who, int kind, u64 p, u64 k, u64 a) {
        if (n >= 128)
            vf_fail("harness:log-full");
        c[n++] = call{who, kind, p, k, a};
    }
};
// Grants any request, or fails when told so.  Addresses are concrete; the
// last returned address is handed out again when `reuse` says so.
class rec_upstream : public std::pmr::memory_resource {
public:
    int who;
    call_log *log;
    int failNext = 0;  // 1: bad_alloc, 2: another exception
    bool mayFail = false;
    u64 forced = 0;     // hand this out next
    u64 *freed = nullptr;  // shared list of one returned address
    int count = 0;
    const std::pmr::memory_resource *eq = nullptr;
    rec_upstream(int w, call_log *l) : who(w), log(l) {}

private:
    void *do_allocate(std::size_t k, std::size_t a) override {
        int f = failNext;
        if (mayFail)
            f = (int)vf_pick("fail", 2);
        if (f) {
            log->add(who, 0, 0, k, a);
            failNext = 0;
            if (f == 1)
                throw std::bad_alloc();
            throw std::runtime_error("upstream");
        }
        u64 p = (u64(who + 1) << 44) + (u64(++count) << 36) + 0x40;
        if (forced) {
            p = forced;
            forced = 0;
        } else if (freed && *freed && vf_pick("reuse", 2)) {
            p = *freed;
            *freed = 0;
        }
        log->add(who, 0, p, k, a);
        return ptr(p);
    }
    void do_deallocate(void *q, std::size_t k, std::size_t a) override {
        log->add(who, 1, addr(q), k, a);
        if (freed)
            *freed = addr(q);
    }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override {
        return this == &o || &o == eq;
    }
};
// model of one handed-out block
struct fblock {
    u64 p, n, a;
    int who;
    bool live;
};
struct fmodel {
    fblock b[12];
    int cnt = 0;
    void add(u64 p, u64 n, u64 a, int who) {
        if (cnt >= 12)
            vf_fail("harness:too-many-blocks");
        b[cnt++] = fblock{p, n, a, who, true};
    }
    int live() const {
        int r = 0;
        for (int i = 0; i < cnt; ++i)
            r += b[i].live;
        return r;
    }
    int nth(int k) const {
        for (int i = 0; i < cnt; ++i)
            if (b[i].live && k-- == 0)
                return i;
        return -1;
    }
};
inline u64 any_align(unsigned n = 3) {
    static const unsigned char l[6] = {0, 3, 6, 12, 1, 20};
    return u64(1) << l[vf_pick("align", n)];
}
}  // namespace vfh
