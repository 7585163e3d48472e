// Upstream memory resources for the harnesses: they record every request and
// hand out memory that cannot be touched (no object lies behind it).
#pragma once
#include <cstddef>
#include <cstdint>
#include <memory_resource>
#include <new>

#include "vf.h"

namespace vfh {
using u64 = uint64_t;
inline u64 addr(const void *p) { return reinterpret_cast<u64>(p); }
inline void *ptr(u64 a) { return reinterpret_cast<void *>(a); }
inline void check(bool c, const char *id) { vf_assert(c, id); }

struct block {
    u64 p, n, a;
    int live;    // 0/1, possibly symbolic
    int served;  // number of times it was returned
};

// Symbolic addresses: any aligned place that overlaps no live block.
template <int MAX>
class sym_upstream : public std::pmr::memory_resource {
public:
    block b[MAX];
    int n = 0;
    int allocs = 0, frees = 0, fails = 0;
    bool mayFail = false;
    bool quiet = false;      // no verdict on what is returned
    u64 lastN = 0, lastA = 0;
    // narrow: addresses and sizes small enough for short adders
    u64 lo = 1u << 20, hi = u64(1) << 46, maxN = u64(1) << 45;
    unsigned bits = 64;
    void narrow(unsigned b = 20, unsigned logN = 14) {
        bits = b;
        lo = 64;
        hi = u64(1) << b;
        maxN = u64(1) << logN;
    }

    int live() const {
        int r = 0;
        for (int i = 0; i < n; ++i)
            r += b[i].live;
        return r;
    }
    // does [p, p+k) lie inside one live block?
    int inside(u64 p, u64 k) const {
        int r = 0;
        for (int i = 0; i < n; ++i)
            r |= b[i].live & int(p >= b[i].p) & int(p - b[i].p <= b[i].n) &
                 int(k <= b[i].n - (p - b[i].p));
        return r;
    }

private:
    void *do_allocate(std::size_t k, std::size_t a) override {
        ++allocs;
        lastN = k;
        lastA = a;
        if (mayFail && vf_pick("fail", 2)) {
            ++fails;
            throw std::bad_alloc();
        }
        if (n >= MAX)
            vf_fail("harness:too-many-upstream-blocks");
        u64 p = vf_sym("addr", bits);
        // memory of that size does not exist: the upstream must refuse
        if (k > maxN) {
            ++fails;
            throw std::bad_alloc();
        }
        vf_assume(int(p >= lo) & int(p <= hi - k) & int((p & (a - 1)) == 0));
        for (int i = 0; i < n; ++i)
            vf_assume(int(!b[i].live) | int(p + k <= b[i].p) | int(b[i].p + b[i].n <= p));
        b[n] = block{p, k, a, 1, 0};
        ++n;
        return ptr(p);
    }
    void do_deallocate(void *q, std::size_t k, std::size_t a) override {
        ++frees;
        u64 p = addr(q);
        int found = 0, exact = 0;
        for (int i = 0; i < n; ++i) {
            int m = b[i].live & int(b[i].p == p);
            found += m;
            exact += m & int(b[i].n == k) & int(b[i].a == a);
            b[i].live &= 1 ^ m;
        }
        if (quiet)
            return;
        check(found == 1, "upstream-dealloc-of-a-live-block");
        check(exact == 1, "upstream-dealloc-with-same-size-and-alignment");
    }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override {
        return this == &o;
    }
};

// Concrete, widely spaced addresses (for code that hashes or sorts addresses);
// each is aligned to what was asked for and no more.  `down` hands out
// decreasing addresses.
template <int MAX>
class fix_upstream : public std::pmr::memory_resource {
public:
    block b[MAX];
    int n = 0;
    int allocs = 0, frees = 0, fails = 0;
    bool mayFail = false, down = false, quiet = false;
    int failIn = -1;  // fail the k-th request from now on (0: the next one)
    u64 lastN = 0, lastA = 0;
    u64 base = u64(1) << 40;

    int live() const {
        int r = 0;
        for (int i = 0; i < n; ++i)
            r += b[i].live;
        return r;
    }
    int inside(u64 p, u64 k) const {
        int r = 0;
        for (int i = 0; i < n; ++i)
            r |= b[i].live & int(p >= b[i].p) & int(p - b[i].p <= b[i].n) &
                 int(k <= b[i].n - (p - b[i].p));
        return r;
    }

private:
    void *do_allocate(std::size_t k, std::size_t a) override {
        ++allocs;
        lastN = k;
        lastA = a;
        if (mayFail && vf_pick("fail", 2)) {
            ++fails;
            throw std::bad_alloc();
        }
        if (failIn >= 0 && failIn-- == 0) {
            ++fails;
            throw std::bad_alloc();
        }
        if (k > (u64(1) << 35)) {
            ++fails;
            throw std::bad_alloc();
        }
        if (n >= MAX)
            vf_fail("harness:too-many-upstream-blocks");
        u64 slot = u64(down ? MAX - n : n + 1) << 36;
        u64 al = vf_concretize(a);
        u64 p = base + slot;
        p = ((p + 2 * al - 1) / (2 * al)) * (2 * al) + al;
        b[n] = block{p, k, a, 1, 0};
        ++n;
        return ptr(p);
    }
    void do_deallocate(void *q, std::size_t k, std::size_t a) override {
        ++frees;
        u64 p = addr(q);
        int found = 0, exact = 0;
        for (int i = 0; i < n; ++i) {
            int m = b[i].live & int(b[i].p == p);
            found += m;
            exact += m & int(b[i].n == k) & int(b[i].a == a);
            b[i].live &= 1 ^ m;
        }
        if (quiet)
            return;
        check(found == 1, "upstream-dealloc-of-a-live-block");
        check(exact == 1, "upstream-dealloc-with-same-size-and-alignment");
    }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override {
        return this == &o;
    }
};

// Client side book keeping of handed-out blocks.
template <int MAX>
struct clients {
    u64 p[MAX], n[MAX], a[MAX];
    bool live[MAX];
    int cnt = 0;
    bool quiet = false;
    // a new block: big enough is checked against `up`; disjointness here
    template <class UP>
    int add(const UP &up, void *q, u64 k, u64 al, bool checkAlign = true) {
        u64 x = addr(q);
        if (!quiet) {
            check(x != 0, "block-not-null");
            check(up.inside(x, k), "block-inside-upstream-memory");
        }
        if (checkAlign && !quiet)
            check((x & (al - 1)) == 0, "block-aligned");
        for (int i = 0; i < cnt; ++i)
            if (live[i] && !quiet)
                check(int(x + k <= p[i]) | int(p[i] + n[i] <= x), "blocks-disjoint");
        if (cnt >= MAX)
            vf_fail("harness:too-many-client-blocks");
        p[cnt] = x;
        n[cnt] = k;
        a[cnt] = al;
        live[cnt] = true;
        return cnt++;
    }
    template <class UP>
    void still_valid(const UP &up) const {
        for (int i = 0; i < cnt; ++i)
            if (live[i])
                check(up.inside(p[i], n[i]), "live-block-still-backed");
    }
    int liveCount() const {
        int r = 0;
        for (int i = 0; i < cnt; ++i)
            r += live[i];
        return r;
    }
    // the k-th live block
    int nth(int k) const {
        for (int i = 0; i < cnt; ++i)
            if (live[i] && k-- == 0)
                return i;
        return -1;
    }
};

// the result of an empty request, past the non-null promise that
// std::pmr::memory_resource::allocate makes to the compiler
inline u64 empty_alloc(std::pmr::memory_resource &r, u64 a) {
    static void *volatile sink;
    sink = r.allocate(0, a);
    void *q = sink;
    return addr(q);
}
inline u64 pow2(const char *name, unsigned maxLog) {
    u64 s = vf_below(name, maxLog + 1, 8);
    return u64(1) << s;
}
}  // namespace vfh
