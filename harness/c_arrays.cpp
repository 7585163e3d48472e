// C03: static_array, array, device_array.
#include <stdexcept>
#include <utility>
#include <vecmem/containers/array.hpp>
#include <vecmem/containers/device_array.hpp>
#include <vecmem/containers/static_array.hpp>

#include "res.hpp"
#include "seq.hpp"
using namespace vfh;

namespace {
using vfh::val;
struct big {
    u64 a, b, c;
    big(u64 x = 0) : a(x), b(x + 1), c(~x) {}
    bool operator==(const big &o) const { return int(a == o.a) & int(b == o.b) & int(c == o.c); }
    bool operator!=(const big &o) const { return !(*this == o); }
};
u32 val(const big &x) { return (u32)x.a; }
u32 val(unsigned char x) { return x; }
template <class T>
T any() {
    return T(vf_sym("v", sizeof(T) == 1 ? 8 : 32));
}
// exactly position i, or an out_of_range error
template <class C>
void checked_access(C &c, u64 n) {
    u64 i = vf_sym("index", 64);
    try {
        auto *p = std::addressof(c.at(i));
        expect(i < n, "at-accepts-only-elements");
        if (i < n)
            expect(p == c.data() + vf_concretize(i), "at-gives-the-element");
        vf_cover("at");
    } catch (const std::out_of_range &) {
        expect(i >= n, "at-refuses-no-element");
        vf_cover("at-threw");
    }
}
template <class C, class M>
void everything(C &c, const M &m) {
    if (m.n) {
        same_elements(c, m);
        same_elements(const_cast<const C &>(c), m);
    }
    same_iteration(c, m);
    same_iteration(const_cast<const C &>(c), m);
    expect(c.size() == m.n && c.empty() == (m.n == 0), "size");
    for (unsigned i = 0; i < m.n; ++i)
        expect(c.data() + i == &c[i] && c.begin() + i == &c[i], "contiguous");
}
template <class C, class M>
void writes(C &c, M &m) {
    using T = typename C::value_type;
    if (!m.n)
        return;
    unsigned i = vf_pick("write", m.n);
    T x = any<T>();
    switch (vf_pick("how", 5)) {
        case 0: c[i] = x; break;
        case 1: c.at(i) = x; break;
        case 2: *(c.begin() + i) = x; break;
        case 3: *(c.rbegin() + (m.n - 1 - i)) = x; break;
        case 4:
            if (i == 0)
                c.front() = x;
            else if (i == m.n - 1)
                c.back() = x;
            else
                c.data()[i] = x;
            break;
    }
    m.v[i] = val(x);
}
template <class T, std::size_t N>
void static_array_t() {
    vecmem::static_array<T, N> a, b;
    seq<4> m, k;
    expect(a.max_size() == N && sizeof(a) >= N * sizeof(T), "sizes");
    for (unsigned i = 0; i < N; ++i) {
        a[i] = any<T>();
        b[i] = any<T>();
        m.v[i] = val(a[i]);
        k.v[i] = val(b[i]);
    }
    m.n = k.n = N;
    everything(a, m);
    int eq = 1;
    for (unsigned i = 0; i < N; ++i)
        eq &= int(a[i] == b[i]);
    expect((a == b) == (bool)eq, "equality");
    expect((a != b) == !(bool)eq, "inequality");
    expect(a == a && !(a != a), "equality");
    writes(a, m);
    everything(a, m);
    vecmem::static_array<T, N> c(a);
    if (vf_pick("fill", 2)) {
        T x = any<T>();
        a.fill(x);
        for (unsigned i = 0; i < N; ++i)
            m.v[i] = val(x);
    } else {
        c = b;
        a = c;
        m = k;
    }
    everything(a, m);
    everything(b, k);
    expect(&a.template get<0>() == &a[0] && &vecmem::get<N - 1>(a) == &a[N - 1], "get");
    const auto &ca = a;
    expect(&ca.template get<N - 1>() == &a[N - 1] && &vecmem::get<0>(ca) == &a[0], "get");
    if (vf_pick("const", 2))
        checked_access(ca, N);
    else
        checked_access(a, N);
}
class array_upstream : public std::pmr::memory_resource {
public:
    int allocs = 0, frees = 0;
    u64 n = 0, a = 0, p = 0;

private:
    void *do_allocate(std::size_t k, std::size_t al) override {
        ++allocs;
        n = k, a = al;
        if (k == 0)
            return nullptr;
        void *q = vf_malloc(k, al, VF_HARNESS);
        p = addr(q);
        return q;
    }
    void do_deallocate(void *q, std::size_t k, std::size_t al) override {
        ++frees;
        expect(int(addr(q) == p) & int(k == n) & int(al == a), "block-returned-as-obtained");
        vf_free(q, VF_HARNESS);
    }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};
template <class T, class A>
void use_array(A &a, array_upstream &u, unsigned n) {
    seq<4> m;
    m.n = n;
    expect(a.size() == n, "size");
    if (n)
        expect(u.allocs == 1 && u.n >= n * sizeof(T) && addr(a.data()) == u.p, "one-block-of-the-right-size");
    for (unsigned i = 0; i < n; ++i) {
        a[i] = any<T>();
        m.v[i] = val(a[i]);
    }
    everything(a, m);
    writes(a, m);
    everything(a, m);
    auto v = vecmem::get_data(a);
    const A &ca = a;
    auto cv = vecmem::get_data(ca);
    expect(v.size() == n && v.ptr() == a.data() && v.capacity() == n && v.size_ptr() == nullptr, "view");
    expect(cv.size() == n && cv.ptr() == a.data() && cv.capacity() == n, "view");
    if (vf_pick("fill", 2)) {
        T x = any<T>();
        a.fill(x);
        for (unsigned i = 0; i < n; ++i)
            m.v[i] = val(x);
        everything(a, m);
    }
    if (n == 0)
        for (int i = 0; i < 4; ++i) {
            try {
                i == 0 ? a.front() : i == 1 ? a.back() : i == 2 ? ca.front() : ca.back();
                expect(false, "empty-array-has-no-elements");
            } catch (const std::out_of_range &) {
                vf_cover("empty");
            }
        }
    if (vf_pick("const", 2))
        checked_access(ca, n);
    else
        checked_access(a, n);
}
template <class T>
void array_t() {
    array_upstream u;
    unsigned n = vf_pick("n", 4);
    if (vf_pick("fixed", 2)) {
        if (n == 3) {
            vecmem::array<T, 3> a(u);
            use_array<T>(a, u, 3);
        } else if (n == 1) {
            vecmem::array<T, 1> a(u);
            use_array<T>(a, u, 1);
        } else {
            vecmem::array<T, 2> a(u);
            use_array<T>(a, u, 2);
        }
    } else {
        vecmem::array<T> a(u, n);
        use_array<T>(a, u, n);
    }
    expect(u.allocs == 1 && u.frees == (u.p != 0), "block-returned-once");
}
template <class T, std::size_t N>
void device_array_t() {
    struct {
        T before, v[N], after;
    } f;
    seq<4> m;
    T g = any<T>();
    f.before = f.after = g;
    for (unsigned i = 0; i < N; ++i) {
        f.v[i] = any<T>();
        m.v[i] = val(f.v[i]);
    }
    m.n = N;
    vecmem::data::vector_view<T> view((unsigned)N, f.v);
    vecmem::device_array<T, N> d(view);
    everything(d, m);
    expect(d.max_size() == N && d.data() == f.v, "addresses-the-view");
    writes(d, m);
    vecmem::device_array<T, N> e(d);
    everything(e, m);
    vecmem::data::vector_view<const T> cview(view);
    vecmem::device_array<const T, N> c(view), c2(cview);
    expect(c.data() == f.v && c2.data() == f.v, "addresses-the-view");
    same_elements(c, m);
    T other[N];
    vecmem::device_array<T, N> o(vecmem::data::vector_view<T>((unsigned)N, other));
    o = d;
    everything(o, m);
    expect(int(val(f.before) == val(g)) & int(val(f.after) == val(g)), "nothing-else-written");
    vf_cover("device");
}
}  // namespace
VF_HARNESS_FN(static_arrays) {
    switch (vf_param("type", 0)) {
        case 0: vf_pick("N", 2) ? static_array_t<u32, 3>() : static_array_t<u32, 1>(); break;
        case 1: static_array_t<big, 2>(); break;
        case 2: static_array_t<unsigned char, 3>(); break;
    }
}
VF_HARNESS_FN(resource_arrays) { vf_param("type", 0) ? array_t<big>() : array_t<u32>(); }
VF_HARNESS_FN(device_arrays) {
    switch (vf_pick("N", 3)) {
        case 0: device_array_t<u32, 1>(); break;
        case 1: device_array_t<big, 2>(); break;
        case 2: device_array_t<u32, 3>(); break;
    }
}
