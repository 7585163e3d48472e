// K06: transfers of any size.  The memory is not there; what is asked of the
// copy object's elementary operations is recorded.
#include <stdexcept>
#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/utils/copy.hpp>

#include "areas.hpp"
#include "soa.hpp"
using namespace vfh;
using vecmem::data::buffer_type;

namespace {
class ledger : public vecmem::copy {
public:
    struct op {
        u64 n, from, to;
        int value;
    };
    static constexpr int MAX = 40;
    mutable op c[MAX], f[MAX];
    mutable int nc = 0, nf = 0;
    // everything from here on is not real memory
    static constexpr u64 unreal = u64(1) << 48;

protected:
    void do_copy(std::size_t n, const void *from, void *to, type::copy_type) const override {
        const u64 a = addr(from), b = addr(to);
        if (a < unreal && b < unreal) {
            unsigned char *y = (unsigned char *)to;
            for (std::size_t i = 0; i < n; ++i)
                y[i] = ((const unsigned char *)from)[i];
            return;
        }
        if (nc == MAX)
            vf_fail("harness:too-many-operations");
        c[nc++] = op{n, a, b, 0};
    }
    void do_memset(std::size_t n, void *to, int value) const override {
        if (addr(to) < unreal) {
            for (std::size_t i = 0; i < n; ++i)
                ((unsigned char *)to)[i] = (unsigned char)value;
            return;
        }
        if (nf == MAX)
            vf_fail("harness:too-many-operations");
        f[nf++] = op{n, 0, addr(to), value};
    }

public:
    int copied(u64 from, u64 to, u64 n) const {
        int r = 0;
        for (int i = 0; i < nc; ++i) {
            const u64 d = from - c[i].from;
            r |= int(from >= c[i].from) & int(d <= c[i].n) & int(n <= c[i].n - d) & int(c[i].to + d == to);
        }
        return r;
    }
    int filled(u64 to, u64 n, int value) const {
        int r = 0;
        for (int i = 0; i < nf; ++i) {
            const u64 d = to - f[i].to;
            r |= int(to >= f[i].to) & int(d <= f[i].n) & int(n <= f[i].n - d) & int((f[i].value & 255) == (value & 255));
        }
        return r;
    }
    template <class UP>
    void inside(const UP &from, const UP &to) const {
        for (int i = 0; i < nc; ++i) {
            check(int(c[i].n == 0) | int(from.inside(c[i].from, c[i].n) != 0), "reads-inside-the-source");
            check(int(c[i].n == 0) | int(to.inside(c[i].to, c[i].n) != 0), "writes-inside-the-destination");
        }
        for (int i = 0; i < nf; ++i)
            check(int(f[i].n == 0) | int(to.inside(f[i].to, f[i].n) != 0), "fills-inside-the-destination");
    }
};
struct place : sym_upstream<5> {
    place(u64 where) {
        lo = where;
        hi = where + (u64(1) << 47);
        maxN = u64(1) << 46;
    }
};
constexpr u64 A = u64(1) << 49, B = u64(1) << 50;
void done(const vecmem::copy::event_type &e) {
    if (e)
        e->wait();
}
// any element of a column of that many
u64 any(u64 n) {
    const u64 k = vf_sym("element", 32);
    vf_assume(k < n);
    return k;
}

template <class T>
void vectors() {
    place ua(A), ub(B);
    ledger c;
    const unsigned n = (unsigned)vf_sym("capacity", 32), m = (unsigned)vf_sym("capacity", 32);
    vf_assume(n != 0);
    vecmem::data::vector_buffer<T> a(n, ua), b(m, ub);
    vecmem::data::vector_view<T> va(a), vb(b);
    unsigned size = n, after = 0;
    // a counter that is there
    const bool sized = vf_pick("sized", 2);
    if (sized) {
        size = (unsigned)vf_sym("size", 32);
        vf_assume(size <= n);
        va = vecmem::data::vector_view<T>(n, &size, va.ptr());
        vb = vecmem::data::vector_view<T>(m, &after, vb.ptr());
    }
    const int value = (int)vf_sym("value", 8);
    if (vf_pick("fill", 2)) {
        done(c.memset(va, value));
        const u64 k = any(n);
        check(c.filled(addr(va.ptr()) + k * sizeof(T), sizeof(T), value), "every-element-filled");
        c.inside(ua, ua);
        vf_cover("filled");
        return;
    }
    try {
        done(c(va, vb));
        check(size <= m, "too-small-destination-refused");
        check(c.get_size(vb) == (sized ? size : m), "destination-size");
        if (size) {
            const u64 k = any(size);
            check(c.copied(addr(va.ptr()) + k * sizeof(T), addr(vb.ptr()) + k * sizeof(T), sizeof(T)), "every-element-copied");
        }
        vf_cover("copied");
    } catch (const std::length_error &) {
        check(size > m, "possible-copy-refused");
        vf_cover("refused");
    }
    c.inside(ua, ub);
}

template <class T>
void jaggeds() {
    place ua(A), ub(B);
    vecmem::host_memory_resource h;
    ledger c;
    const unsigned rows = (unsigned)vf_param("rows", 2);
    std::vector<std::size_t> na(rows), nb(rows);
    for (unsigned i = 0; i < rows; ++i) {
        na[i] = vf_sym("inner", 32);
        nb[i] = vf_param("same", 0) ? na[i] : vf_sym("inner", 32);
    }
    vecmem::data::jagged_vector_buffer<T> a(na, ua, &h), b(nb, ub, &h);
    vecmem::data::jagged_vector_view<T> va(a), vb(b);
    const int value = (int)vf_sym("value", 8);
    if (vf_pick("fill", 2)) {
        done(c.memset(va, value));
        for (unsigned i = 0; i < rows; ++i)
            if (na[i]) {
                const u64 k = any(na[i]);
                check(c.filled(addr(a.host_ptr()[i].ptr()) + k * sizeof(T), sizeof(T), value), "every-element-filled");
            }
        c.inside(ua, ua);
        vf_cover("filled");
        return;
    }
    bool fits = true;
    for (unsigned i = 0; i < rows; ++i)
        if (na[i] > nb[i])
            fits = false;
    try {
        done(c(va, vb));
        check(fits, "too-small-destination-refused");
        for (unsigned i = 0; i < rows; ++i)
            if (na[i]) {
                const u64 k = any(na[i]);
                check(c.copied(addr(a.host_ptr()[i].ptr()) + k * sizeof(T), addr(b.host_ptr()[i].ptr()) + k * sizeof(T), sizeof(T)),
                      "every-element-copied");
            }
        vf_cover("copied");
    } catch (const std::length_error &) {
        check(!fits, "possible-copy-refused");
        vf_cover("refused");
    }
    c.inside(ua, ub);
}

template <class K>
void soas() {
    place ua(A), ub(B);
    vecmem::host_memory_resource h;
    ledger c;
    using buffer = typename K::cont::buffer;
    unsigned n, m;
    std::vector<std::size_t> na, nb;
    buffer a, b;
    if constexpr (K::jagged) {
        n = m = (unsigned)vf_param("rows", 1);
        na.resize(n), nb.resize(n);
        for (unsigned i = 0; i < n; ++i) {
            na[i] = vf_sym("inner", 32);
            nb[i] = vf_param("same", 0) ? na[i] : vf_sym("inner", 32);
        }
        a = buffer(na, ua, &h, buffer_type::fixed_size);
        b = buffer(nb, ub, &h, buffer_type::fixed_size);
    } else {
        n = (unsigned)vf_sym("capacity", 32);
        m = vf_param("same", 0) ? n : (unsigned)vf_sym("capacity", 32);
        vf_assume(n != 0);
    }
    typename K::cont::view va(a), vb(b);
    if constexpr (!K::jagged) {
        // (a buffer would build a vector of that many sizes)
        va = typename K::cont::view(n);
        vb = typename K::cont::view(m);
        K::each([&](auto i) {
            constexpr std::size_t I = i;
            using E = typename K::template elem<I>;
            auto at = [&](auto &v, place &u, u64 k) { v.template get<I>() = {(unsigned)k, (E *)u.allocate(k * sizeof(E), alignof(E))}; };
            if constexpr (K::template dims<I> == 0) {
                va.template get<I>() = (E *)ua.allocate(sizeof(E), alignof(E));
                vb.template get<I>() = (E *)ub.allocate(sizeof(E), alignof(E));
            } else {
                at(va, ua, n);
                at(vb, ub, m);
            }
        });
    }
    const int value = (int)vf_sym("value", 8);
    const bool fill = vf_pick("fill", 2);
    bool fits = n <= m;
    for (unsigned i = 0; i < na.size(); ++i)
        if (na[i] > nb[i])
            fits = false;
    auto each = [&](auto piece) {
        K::each([&](auto i) {
            constexpr std::size_t I = i;
            using E = typename K::template elem<I>;
            auto &x = va.template get<I>();
            auto &y = vb.template get<I>();
            if constexpr (K::template dims<I> == 0)
                piece(addr(x), addr(y), sizeof(E));
            else if constexpr (K::template dims<I> == 1) {
                const u64 k = any(n);
                piece(addr(x.ptr()) + k * sizeof(E), addr(y.ptr()) + k * sizeof(E), sizeof(E));
            } else
                for (unsigned r = 0; r < n; ++r)
                    if (na[r]) {
                        const u64 k = any(na[r]);
                        piece(addr(x.host_ptr()[r].ptr()) + k * sizeof(E), addr(y.host_ptr()[r].ptr()) + k * sizeof(E), sizeof(E));
                    }
        });
    };
    if (fill) {
        done(c.memset(va, value));
        each([&](u64 x, u64, u64 s) { check(c.filled(x, s, value), "every-element-filled"); });
        c.inside(ua, ua);
        vf_cover("filled");
        return;
    }
    try {
        done(c(va, vb));
        check(fits, "too-small-destination-refused");
        each([&](u64 x, u64 y, u64 s) { check(c.copied(x, y, s), "every-element-copied"); });
        vf_cover("copied");
    } catch (const std::length_error &) {
        check(!fits, "possible-copy-refused");
        vf_cover("refused");
    }
    c.inside(ua, ub);
}
}  // namespace
VF_HARNESS_FN(vector_huge) {
    switch (vf_param("type", 0)) {
        case 0: vectors<u64>(); break;
        case 1: vectors<u8>(); break;
        default: vectors<pod3>();
    }
}
VF_HARNESS_FN(jagged_huge) {
    switch (vf_param("type", 0)) {
        case 0: jaggeds<u64>(); break;
        case 1: jaggeds<u8>(); break;
        default: jaggeds<pod3>();
    }
}
VF_HARNESS_FN(soa_huge) {
    switch (vf_param("schema", 0)) {
        case 0: soas<S0>(); break;
        case 1: soas<S1>(); break;
        case 2: soas<S2>(); break;
        case 4: soas<S4>(); break;
        default: soas<S5>();
    }
}
