// E01: what structure-of-arrays buffers take from their memory resources and how they use it.
#include "areas.hpp"
#include "soa.hpp"
using namespace vfh;
using vecmem::data::buffer_type;

namespace {
// memory that really is there
class real_upstream : public std::pmr::memory_resource {
public:
    block b[4];
    int n = 0, allocs = 0, frees = 0;
    int live() const {
        int r = 0;
        for (int i = 0; i < n; ++i)
            r += b[i].live;
        return r;
    }
    int inside(u64 p, u64 k) const {
        for (int i = 0; i < n; ++i)
            if (b[i].live && p >= b[i].p && p + k <= b[i].p + b[i].n)
                return 1;
        return 0;
    }

private:
    void *do_allocate(std::size_t k, std::size_t a) override {
        ++allocs;
        b[n] = block{addr(vf_malloc(k, a, VF_HARNESS)), k, a, 1, 0};
        return ptr(b[n++].p);
    }
    void do_deallocate(void *q, std::size_t k, std::size_t a) override {
        ++frees;
        int exact = 0;
        for (int i = 0; i < n; ++i)
            if (b[i].live && b[i].p == addr(q)) {
                exact += b[i].n == k && b[i].a == a;
                b[i].live = 0;
            }
        check(exact == 1, "upstream-dealloc-as-allocated");
    }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};

template <class K, class UP, class HUP>
struct world {
    using buffer = typename K::cont::buffer;
    UP up;
    HUP hostUp;
    unsigned cap;
    bool fixed, two;
    u64 want[5];
    // does the view describe a sound layout?
    template <class VW>
    void sound(const VW &v) {
        areas a, h;
        check(v.capacity() == cap, "capacity");
        // the payload as one piece: all of it, or not at all
        const u64 pp = addr(v.payload().ptr()), pn = v.payload().capacity();
        const bool whole = pp != 0;
        check(int(!whole) | int(up.inside(pp, pn) != 0), "payload-inside-the-block");
        auto column = [&](const void *q, u64 bytes, u64 al) {
            a.add(up, q, bytes, al, "column");
            check(int(!whole) | int(bytes == 0) | (int(addr(q) >= pp) & int(bytes <= pn) & int(addr(q) - pp <= pn - bytes)),
                  "payload-covers-the-column");
        };
        const bool jr = K::jagged && !fixed;
        const unsigned inners = [&] {
            unsigned r = 0;
            K::each([&](auto i) { r += K::template dims<decltype(i)::value> == 2 ? cap : 0; });
            return r;
        }();
        const u64 sp = addr(v.size().ptr()), sn = v.size().capacity();
        if (fixed || (jr && inners == 0))
            check(sp == 0, "no-counter");
        else {
            check(sp != 0, "has-a-counter");
            check(sn == 4 * u64(jr ? inners : 1), "counters-described");
            a.add(up, v.size().ptr(), sn, 4, "counters");
        }
        const u64 lp = addr(v.layout().ptr()), ln = v.layout().capacity(), hp = addr(v.host_layout().ptr());
        u64 lsum = 0;
        check(v.host_layout().capacity() == ln, "layouts-alike");
        unsigned counted = 0;
        K::each([&](auto i) {
            constexpr std::size_t I = i;
            using E = typename K::template elem<I>;
            auto &x = v.template get<I>();
            if constexpr (K::template dims<I> == 0)
                column(x, sizeof(E), alignof(E));
            else if constexpr (K::template dims<I> == 1) {
                check(x.capacity() == cap, "column-capacity");
                check(addr(x.size_ptr()) == (fixed || K::jagged ? 0 : sp), "column-counter");
                column(x.ptr(), u64(cap) * sizeof(E), alignof(E));
            } else {
                check(x.size() == cap && x.capacity() == cap, "column-outer-size");
                const u64 bytes = cap * sizeof(*x.ptr());
                a.add(up, x.ptr(), bytes, 8, "layout");
                if (two)
                    h.add(hostUp, x.host_ptr(), bytes, 8, "host-layout");
                else
                    check(x.host_ptr() == x.ptr(), "one-layout");
                if (cap) {
                    check(addr(x.ptr()) == lp + lsum, "layout-described");
                    check(addr(x.host_ptr()) == hp + lsum, "host-layout-described");
                }
                lsum += bytes;
                for (unsigned r = 0; r < cap; ++r) {
                    auto &y = x.host_ptr()[r];
                    check(y.capacity() == want[r], "inner-capacity");
                    if (fixed)
                        check(y.size_ptr() == nullptr, "inner-fixed");
                    else
                        check(addr(y.size_ptr()) == sp + 4 * counted, "inner-counter");
                    ++counted;
                    column(y.ptr(), want[r] * sizeof(E), alignof(E));
                }
            }
        });
        check(ln == lsum, "layout-described-exactly");
        if (!two)
            check(hp == lp, "one-layout");
    }
    // does one view describe exactly what the other does?
    template <class A, class B>
    static void alike(const A &v, const B &r) {
        check(v.capacity() == r.capacity(), "copied-capacity");
        auto area = [](const auto &p, const auto &q, const char *m) { check(p.ptr() == q.ptr() && p.capacity() == q.capacity(), m); };
        area(v.payload(), r.payload(), "copied-payload");
        area(v.size(), r.size(), "copied-size");
        area(v.layout(), r.layout(), "copied-layout");
        area(v.host_layout(), r.host_layout(), "copied-host-layout");
    }
    void run() {
        fixed = vf_pick("fixed", 2);
        two = K::jagged && vf_param("two", 0);
        const unsigned maxCap = (unsigned)vf_param("maxCap", 3);
        cap = vf_pick("capacity", maxCap + 1);
        std::pmr::memory_resource *h = two ? &hostUp : nullptr;
        const auto t = fixed ? buffer_type::fixed_size : buffer_type::resizable;
        {
            buffer b = [&] {
                if constexpr (!K::jagged)
                    return buffer(cap, up, t);
                else if (two) {
                    std::vector<std::size_t> caps(cap);
                    for (unsigned i = 0; i < cap; ++i)
                        caps[i] = want[i] = vf_sym("inner", 32);
                    return buffer(caps, up, h, t);
                } else if (vf_pick("narrow", 2)) {
                    std::vector<u8> caps;
                    caps.reserve(cap + 2);  // room to spare means nothing
                    caps.resize(cap);
                    for (unsigned i = 0; i < cap; ++i)
                        caps[i] = (u8)(want[i] = vf_pick("inner", 3) * (i + 1));
                    return buffer(caps, up, h, t);
                } else {
                    std::vector<unsigned> caps(cap);
                    for (unsigned i = 0; i < cap; ++i)
                        caps[i] = (unsigned)(want[i] = vf_pick("inner", 4));
                    return buffer(caps, up, h, t);
                }
            }();
            check(up.allocs == 1 || (up.allocs == 0 && cap == 0), "one-block");
            check(hostUp.allocs <= int(two), "host-block-for-descriptors-only");
            sound(b);
            const int l = up.live() + hostUp.live();
            switch (vf_pick("then", 4)) {
                case 0: {
                    sound(vecmem::get_data(b));
                    sound(vecmem::get_data(const_cast<const buffer &>(b)));
                    typename K::cont::const_view v(b);
                    sound(v);
                    alike(v, b);
                    // assignment, with and without the conversion
                    typename K::cont::view n(b), m(cap + 1, {0, nullptr});
                    m = n;
                    sound(m);
                    alike(m, b);
                    typename K::cont::const_view w(cap + 1, {0, nullptr}), x(m);
                    sound(x);
                    alike(x, b);
                    const auto *self = &(w = n);
                    check(self == &w, "assigns-itself");
                    sound(w);
                    alike(w, b);
                    x = w;
                    sound(x);
                    break;
                }
                case 1: {
                    buffer c(std::move(b));
                    check(up.live() + hostUp.live() == l, "move-keeps-the-blocks");
                    sound(c);
                    break;
                }
                case 2: {
                    buffer c;
                    c = std::move(b);
                    check(up.live() + hostUp.live() == l, "move-keeps-the-blocks");
                    sound(c);
                    break;
                }
                default: {
                    buffer c = [&] {
                        if constexpr (!K::jagged)
                            return buffer(2, up, t);
                        else
                            return buffer(std::vector<unsigned>(1, 1), up, h, t);
                    }();
                    c = std::move(b);
                    check(up.live() + hostUp.live() == l, "move-returns-the-old-blocks");
                    sound(c);
                }
            }
        }
        check(up.live() + hostUp.live() == 0, "returned-exactly-once");
        check(up.allocs == up.frees && hostUp.allocs == hostUp.frees, "returned-exactly-once");
        vf_cover(cap ? "non-empty" : "empty");
    }
};
template <class K>
void run() {
    if constexpr (K::jagged) {
        if (!vf_param("two", 0)) {
            world<K, real_upstream, real_upstream>().run();
            return;
        }
    }
    world<K, sym_upstream<3>, real_upstream>().run();
}
}  // namespace
VF_HARNESS_FN(soa_buffer) {
    switch (vf_param("schema", 0)) {
        case 0: run<S0>(); break;
        case 1: run<S1>(); break;
        case 2: run<S2>(); break;
        case 4: run<S4>(); break;
        default: run<S5>(); break;
    }
}
