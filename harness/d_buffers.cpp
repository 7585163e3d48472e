// C07, C08, C10: what buffers take from their memory resource and how they use it.
#include <utility>
#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/details/aligned_multiple_placement.hpp>

#include "areas.hpp"
using namespace vfh;
using u32 = uint32_t;

namespace {
struct odd {
    unsigned char b[3];
};
struct wide {
    double d[3];
};
struct alignas(64) line {
    u32 x[16];
};
struct alignas(32) half {
    u32 x[8];
};
using vecmem::data::buffer_type;

template <class T>
void buffer_t() {
    sym_upstream<4> up;
    using B = vecmem::data::vector_buffer<T>;
    const bool fixed = vf_pick("fixed", 2);
    const u32 cap = (u32)vf_sym("capacity", 32);
    auto shows = [&](const vecmem::data::vector_view<T> &v, const T *p, const u32 *s) {
        check(v.capacity() == cap, "capacity");
        check(v.ptr() == p && v.size_ptr() == s, "view-kept");
    };
    {
        B b(cap, up, fixed ? buffer_type::fixed_size : buffer_type::resizable);
        areas a;
        check(b.capacity() == cap, "capacity");
        check(up.allocs <= 1, "one-block");
        if (cap == 0)
            check(int(b.size_ptr() != nullptr) | int(b.size() == 0), "empty-buffer-size");
        a.add(up, b.ptr(), u64(cap) * sizeof(T), alignof(T), "elements");
        if (fixed) {
            check(b.size_ptr() == nullptr, "fixed-size-has-no-counter");
            check(b.size() == cap, "fixed-size");
        } else if (cap) {
            check(b.size_ptr() != nullptr, "resizable-has-a-counter");
            a.add(up, b.size_ptr(), sizeof(u32), alignof(u32), "counter");
        }
        const T *p = b.ptr();
        const u32 *s = b.size_ptr();
        shows(b, p, s);
        shows(vecmem::get_data(b), p, s);
        shows(vecmem::get_data(const_cast<const B &>(b)), p, s);
        const int live = up.live();
        switch (vf_pick("move", 3)) {
            case 0: break;
            case 1: {
                B c(std::move(b));
                check(up.live() == live, "move-keeps-the-block");
                shows(c, p, s);
                break;
            }
            default: {
                B c(cap ? 5u : 0u, up, buffer_type::fixed_size);
                if (vf_pick("default", 2))
                    c = B();
                c = std::move(b);
                check(up.live() == live, "move-returns-the-old-block");
                shows(c, p, s);
            }
        }
    }
    check(up.live() == 0 && up.allocs == up.frees, "returned-exactly-once");
    if (cap)
        vf_cover("non-empty");
    else
        vf_cover("empty");
}

// Real memory for the descriptors, symbolic addresses for anything else.
template <int MAX>
class mixed_upstream : public std::pmr::memory_resource {
public:
    block b[MAX];
    bool real[MAX];
    int n = 0, allocs = 0, frees = 0;
    u64 descriptors = 0;  // bytes
    int live() const {
        int r = 0;
        for (int i = 0; i < n; ++i)
            r += b[i].live;
        return r;
    }
    int inside(u64 p, u64 k) const {
        int r = 0;
        for (int i = 0; i < n; ++i)
            r |= b[i].live & int(p >= b[i].p) & int(p - b[i].p <= b[i].n) & int(k <= b[i].n - (p - b[i].p));
        return r;
    }
    int which(u64 p) const {
        for (int i = 0; i < n; ++i)
            if (real[i] && b[i].p == p)
                return i;
        return -1;
    }

private:
    void *do_allocate(std::size_t k, std::size_t a) override {
        ++allocs;
        if (n >= MAX)
            vf_fail("harness:too-many-upstream-blocks");
        u64 p;
        bool r = false;
        if (k == descriptors) {
            p = addr(vf_malloc(k, 16, VF_HARNESS));
            r = true;
        } else {
            p = vf_sym("addr", 64);
            const u64 lo = u64(1) << 50, hi = u64(1) << 55;
            if (k > (u64(1) << 45))
                throw std::bad_alloc();
            vf_assume(int(p >= lo) & int(p <= hi - k) & int((p & (a - 1)) == 0));
            for (int i = 0; i < n; ++i)
                if (!real[i])
                    vf_assume(int(p + k <= b[i].p) | int(b[i].p + b[i].n <= p));
        }
        real[n] = r;
        b[n] = block{p, k, a, 1, 0};
        ++n;
        return ptr(p);
    }
    void do_deallocate(void *q, std::size_t k, std::size_t a) override {
        ++frees;
        u64 p = addr(q);
        int exact = 0;
        for (int i = 0; i < n; ++i) {
            int m = b[i].live & int(b[i].p == p);
            exact += m & int(b[i].n == k) & int(b[i].a == a);
            b[i].live &= 1 ^ m;
        }
        check(exact == 1, "upstream-dealloc-as-allocated");
    }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};

template <class T, class S>
void jagged_t() {
    using B = vecmem::data::jagged_vector_buffer<T>;
    using V = vecmem::data::vector_view<T>;
    mixed_upstream<6> up, hostUp;
    const unsigned most = (unsigned)vf_param("maxOuter", 3), n = vf_param("all", 0) ? most : vf_pick("outer", most + 1);
    const bool fixed = vf_pick("fixed", 2);
    const bool twoResources = vf_pick("host", 2);
    up.descriptors = hostUp.descriptors = n * sizeof(V);
    std::vector<S> caps;
    u64 want[16] = {};
    for (unsigned i = 0; i < n; ++i) {
        want[i] = vf_sym("capacity", sizeof(S) > 4 ? 32 : sizeof(S) * 8);
        caps.push_back((S)want[i]);
    }
    {
        B *made;
        // optionally out of the sizes of another view
        const bool fromView = vf_pick("fromView", 2);
        V otherInner[16];
        for (unsigned i = 0; i < n; ++i)
            otherInner[i] = V((u32)want[i], nullptr);
        vecmem::data::jagged_vector_view<T> other(n, nullptr, otherInner);
        const auto type = fixed ? buffer_type::fixed_size : buffer_type::resizable;
        std::pmr::memory_resource *h = twoResources ? &hostUp : nullptr;
        B b = fromView ? B(other, up, h, type) : B(caps, up, h, type);
        made = &b;
        check(b.size() == n && b.capacity() == n, "outer-size");
        areas a, ha;
        const V *d = b.ptr(), *hd = b.host_ptr();
        a.add(up, d, n * sizeof(V), alignof(V), "descriptors");
        if (twoResources)
            ha.add(hostUp, hd, n * sizeof(V), alignof(V), "host-descriptors");
        else
            check(hd == d, "one-set-of-descriptors");
        for (unsigned i = 0; i < n; ++i) {
            const V &v = hd[i];
            check(v.capacity() == want[i], "inner-capacity");
            a.add(up, v.ptr(), want[i] * sizeof(T), alignof(T), "elements");
            if (fixed) {
                check(v.size_ptr() == nullptr, "fixed-size-has-no-counter");
                check(v.size() == want[i], "inner-size");
            } else {
                check(v.size_ptr() != nullptr, "resizable-has-a-counter");
                a.add(up, v.size_ptr(), sizeof(u32), alignof(u32), "counter");
            }
        }
        V copy[16];
        for (unsigned i = 0; i < n; ++i)
            copy[i] = hd[i];
        const int live = up.live(), hlive = hostUp.live();
        const unsigned mv = vf_pick("move", 3);
        auto kept = [&](const B &c) {
            check(c.size() == n && c.ptr() == d && c.host_ptr() == hd, "view-kept");
            check(up.live() == live && hostUp.live() == hlive, "move-keeps-the-blocks");
            bool ok = true;
            for (unsigned i = 0; i < n; ++i)
                ok &= c.host_ptr()[i] == copy[i];
            check(ok, "descriptors-kept");
        };
        if (mv == 1) {
            B c(std::move(*made));
            kept(c);
        } else if (mv == 2) {
            B c;
            c = std::move(*made);
            kept(c);
        } else {
            vecmem::data::jagged_vector_view<T> &v = vecmem::get_data(b);
            const vecmem::data::jagged_vector_view<T> &cv = vecmem::get_data(const_cast<const B &>(b));
            check(&v == &b && &cv == &b, "get_data");
        }
    }
    check(up.live() == 0 && hostUp.live() == 0, "returned-exactly-once");
    check(up.allocs == up.frees && hostUp.allocs == hostUp.frees, "returned-exactly-once");
    if (n)
        vf_cover("non-empty");
    else
        vf_cover("no-inner-vectors");
}

template <class... Ts>
struct placement {
    template <class Tuple, std::size_t... I>
    static void judge(sym_upstream<4> &up, Tuple &t, const u64 *n, std::index_sequence<I...>) {
        areas a;
        u64 last = 0;
        const u64 al[] = {alignof(Ts)...}, sz[] = {sizeof(Ts)...};
        const void *p[] = {std::get<I + 1>(t)...};
        for (unsigned i = 0; i < sizeof...(Ts); ++i) {
            a.add(up, p[i], n[i] * sz[i], al[i], "array");
            check(int(n[i] == 0) | int(addr(p[i]) >= last), "given-order");
            last = n[i] ? addr(p[i]) + n[i] * sz[i] : last;
        }
    }
    template <std::size_t... I>
    static void run(std::index_sequence<I...> s) {
        sym_upstream<4> up;
        {
            u64 n[sizeof...(Ts)];
            const u64 big = u64(1) << vf_param("log", 32);
            for (auto &x : n)
                x = vf_below("n", big, 64);
            auto t = vecmem::details::aligned_multiple_placement<Ts...>(up, (std::size_t)n[I]...);
            check(up.allocs == 1, "one-block");
            judge(up, t, n, s);
            vf_cover("placed");
        }
        check(up.live() == 0 && up.frees == up.allocs, "returned-exactly-once");
    }
    static void run() { run(std::index_sequence_for<Ts...>()); }
};
}  // namespace

VF_HARNESS_FN(vector_buffers) {
    switch (vf_param("type", 0)) {
        case 0: buffer_t<u32>(); break;
        case 1: buffer_t<odd>(); break;
        case 2: buffer_t<wide>(); break;
        case 3: buffer_t<line>(); break;
        case 4: buffer_t<unsigned char>(); break;
        case 5: buffer_t<half>(); break;
    }
}
VF_HARNESS_FN(jagged_buffers) {
    switch (vf_param("type", 0)) {
        case 0: jagged_t<u32, std::size_t>(); break;
        case 1: jagged_t<odd, u32>(); break;
        case 2: jagged_t<wide, std::size_t>(); break;
        case 3: jagged_t<line, std::size_t>(); break;
        case 4: jagged_t<unsigned char, unsigned char>(); break;
        case 5: jagged_t<half, u32>(); break;
    }
}
VF_HARNESS_FN(placements) {
    switch (vf_param("types", 0)) {
        case 0: placement<u32>::run(); break;
        case 1: placement<u32, double>::run(); break;
        case 2: placement<odd, line>::run(); break;
        case 3: placement<unsigned char, u32, double>::run(); break;
        case 4: placement<line, odd, half>::run(); break;
        case 5: placement<unsigned char, double, unsigned short, u32>::run(); break;
        case 6: placement<half, odd, line, u32, unsigned char>::run(); break;
    }
}
