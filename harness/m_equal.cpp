// M20: equality of resources
#include <vector>

#include "vecmem/memory/arena_memory_resource.hpp"
#include "vecmem/memory/binary_page_memory_resource.hpp"
#include "vecmem/memory/choice_memory_resource.hpp"
#include "vecmem/memory/coalescing_memory_resource.hpp"
#include "vecmem/memory/conditional_memory_resource.hpp"
#include "vecmem/memory/contiguous_memory_resource.hpp"
#include "vecmem/memory/debug_memory_resource.hpp"
#include "vecmem/memory/host_memory_resource.hpp"
#include "vecmem/memory/identity_memory_resource.hpp"
#include "vecmem/memory/instrumenting_memory_resource.hpp"
#include "vecmem/memory/pool_memory_resource.hpp"
#include "vecmem/memory/synchronized_memory_resource.hpp"
#include "vecmem/memory/terminal_memory_resource.hpp"

#include "fwd.hpp"
using namespace vfh;
using base_t = std::pmr::memory_resource;

// an upstream that is equal to some others, as told (an equivalence relation)
struct eq_upstream : base_t {
    int cls;
    explicit eq_upstream(int c) : cls(c) {}
    void *do_allocate(std::size_t, std::size_t) override {
        static u64 next = u64(1) << 40;
        next += u64(1) << 32;
        return ptr(next);
    }
    void do_deallocate(void *, std::size_t, std::size_t) override {}
    bool do_is_equal(const base_t &o) const noexcept override {
        auto *p = dynamic_cast<const eq_upstream *>(&o);
        return p && p->cls == cls;
    }
};
static const int KINDS = 13;
static base_t *build(unsigned k, base_t &up) {
    switch (k) {
        case 0: return new vecmem::host_memory_resource();
        case 1: return new vecmem::identity_memory_resource(up);
        case 2: return new vecmem::synchronized_memory_resource(up);
        case 3: return new vecmem::terminal_memory_resource(up);
        case 4: return new vecmem::pool_memory_resource(up);
        case 5: return new vecmem::binary_page_memory_resource(up);
        case 6: return new vecmem::arena_memory_resource(up, 1024, 1 << 20);
        case 7: return new vecmem::contiguous_memory_resource(up, 4096);
        case 8: return new vecmem::choice_memory_resource([&up](std::size_t, std::size_t) -> base_t & { return up; });
        case 9: {
            std::vector<std::reference_wrapper<base_t>> v;
            v.push_back(up);
            return new vecmem::coalescing_memory_resource(std::move(v));
        }
        case 10: return new vecmem::conditional_memory_resource(up, [](std::size_t, std::size_t) { return true; });
        case 11: return new vecmem::debug_memory_resource(up);
        default: return new vecmem::instrumenting_memory_resource(up);
    }
}
VF_HARNESS_FN(equality) {
    unsigned cls = (unsigned)vf_sym("cls", 8);
    eq_upstream u0((int)vf_below("c0", 3)), u1((int)vf_below("c1", 3)), u2((int)vf_below("c2", 3));
    eq_upstream *u[3] = {&u0, &u1, &u2};
    (void)cls;
    vecmem::host_memory_resource h0, h1;
    const unsigned kx = vf_pick("kx", KINDS), ky = vf_pick("ky", KINDS);
    const unsigned ux = vf_pick("ux", 4), uy = vf_pick("uy", 4);
    base_t &upx = ux == 3 ? (base_t &)h0 : *u[ux];
    base_t &upy = uy == 3 ? (base_t &)h1 : *u[uy];
    const bool upEq = ux == 3 || uy == 3 ? ux == uy : u[ux]->cls == u[uy]->cls;
    base_t *x = build(kx, upx), *y = build(ky, upy);
    check(x->is_equal(*x) && *x == *x, "reflexive");
    const bool r = x->is_equal(*y), r2 = *x == *y, back = y->is_equal(*x);
    check(r == r2, "operator-agrees");
    check(r == !(*x != *y), "operator-agrees");
    if (kx == 0 && ky == 0)
        check(r, "host-resources-are-equal");
    if (kx == ky && (kx == 1 || kx == 2)) {
        check(r == upEq, "forwarding-equal-exactly-when-upstreams-are");
        check(r == back, "forwarding-symmetric");
    }
    if (kx >= 4 || (ky >= 4 && kx != 2))
        check(!r, "stateful-equal-only-to-itself");
    if (kx == 2 && ky >= 4)
        check(!r, "stateful-equal-only-to-itself");
    // any other equality must be one between interchangeable memory
    auto origin = [&](unsigned k, unsigned ui) -> int {  // 100: host
        if (k == 0)
            return 100;
        return ui == 3 ? 100 : u[ui]->cls;
    };
    if (kx < 3 && ky < 3 && r)
        check(origin(kx, ux) == origin(ky, uy), "equal-means-interchangeable");
    if (kx < 3 && ky == 3)
        check(!r, "equal-means-interchangeable");
    if (kx == 3 && ky < 3)
        check(!r, "equal-means-interchangeable");
    // against the upstream itself
    if (x->is_equal(upx))
        check(kx == 2 || kx == 1 || kx == 0, "equal-to-upstream-means-interchangeable");
    if (x->is_equal(upy) && kx != 0)
        check((kx == 2 || kx == 1) && upEq, "equal-to-upstream-means-interchangeable");
    vf_cover("compared");
    if (r)
        vf_cover("equal");
    if (kx == 2) {
        using s_t = vecmem::synchronized_memory_resource;
        s_t c(*static_cast<s_t *>(x));
        check(c.is_equal(*x) && x->is_equal(c), "copy-stays-equal");
        s_t d(upy);
        const bool was = d.is_equal(*x);
        check(was == upEq, "forwarding-equal-exactly-when-upstreams-are");
        d = c;
        check(d.is_equal(*x) && x->is_equal(d), "assigned-copy-equal");
        s_t e(std::move(c));
        check(e.is_equal(*x) && x->is_equal(e), "moved-stays-equal");
        s_t f(upy);
        f = std::move(e);
        check(f.is_equal(*x) && x->is_equal(f), "move-assigned-equal");
        vf_cover("copied");
    }
    if (kx == 1) {
        using i_t = vecmem::identity_memory_resource;
        i_t c(*static_cast<i_t *>(x));
        check(c.is_equal(*x) && x->is_equal(c), "copy-stays-equal");
        vf_cover("copied");
    }
    delete x;
    delete y;
}
