// K01-K05: copies of one-dimensional and jagged vectors.
#include <stdexcept>
#include <utility>
#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/jagged_vector.hpp>
#include <vecmem/containers/vector.hpp>
#include <vecmem/memory/host_memory_resource.hpp>

#include "copy_setting.hpp"
#include "res.hpp"
#include "tracked.hpp"
using namespace vfh;

namespace {
using vfh::val;
// ------------------------------------------------------------------ one dimension
template <class T>
struct line {
    static constexpr unsigned MAX = 3;
    setting &s;
    side where;
    role r;
    unsigned cap, n;
    bool resizable;
    int el = -1, sz = -1;
    vview<T> v;
    line(setting &ss, side w, role rr, unsigned c, bool withSizes) : s(ss), where(w), r(rr) {
        cap = c;
        resizable = vf_pick("resizable", 2);
        n = cap;
        el = s.m.add(cap * sizeof(T), w, r, alignof(T));
        if (resizable) {
            n = withSizes ? some("size", cap) : 0;
            sz = s.m.add(sizeof(u32), w, r, 4);
            *(u32 *)s.m.p[sz].real = n;
            v = vview<T>(cap, (u32 *)s.m.p[sz].face, (T *)s.m.p[el].face);
        } else
            v = vview<T>(cap, (T *)s.m.p[el].face);
    }
    u32 size() { return resizable ? *(u32 *)s.m.p[sz].real : cap; }
    T &operator[](unsigned i) { return ((T *)s.m.p[el].real)[i]; }
    void unchanged(const char *id) {
        expect(int(s.m.kept(el)) & int(!resizable || s.m.kept(sz)), id);
    }
};
template <class T, class C>
void same_bytes(C &c, line<T> &l, unsigned n, const char *id) {
    bool ok = true;
    for (unsigned i = 0; i < n; ++i)
        ok &= val(c[i]) == val(l[i]);
    expect(ok, id);
}
template <class T>
void vector_copy_t() {
    setting s;
    const unsigned how = vf_pick("target", 3);
    s.sides(how != 0);
    line<T> a(s, s.from, SRC, some("capacity", (unsigned)vf_param("max", 3)), true);
    vview<const T> from(a.v);
    if (how == 0) {
        line<T> b(s, s.to, DST, some("capacity", (unsigned)vf_param("max", 3)), true);
        s.m.snapshot();
        try {
            bool whole = s.run([&] { wait(s.t == ctype::unknown ? s.c()(from, b.v) : s.c()(from, b.v, s.t)); });
            if (whole) {
                expect(a.n <= b.cap, "too-small-destination-refused");
                if (a.n <= b.cap) {
                    same_bytes(b, a, a.n, "destination-equals-source");
                    if (b.resizable)
                        expect(b.size() == a.n, "destination-size");
                    expect(s.m.kept(b.el, a.n * sizeof(T), b.cap * sizeof(T)), "beyond-the-elements-unchanged");
                }
                vf_cover("copied");
            }
        } catch (const std::length_error &) {
            expect(a.n > b.cap, "possible-copy-refused");
            b.unchanged("refused-copy-wrote");
            expect(s.probe.idle(), "refused-copy-wrote");
            vf_cover("refused");
        }
    } else if (how == 1) {
        std::vector<T> h(vf_pick("before", 3));
        s.m.snapshot();
        if (s.run([&] { wait(s.t == ctype::unknown ? s.c()(from, h) : s.c()(from, h, s.t)); })) {
            expect(h.size() == a.n, "container-size");
            if (h.size() == a.n)
                same_bytes(h, a, a.n, "container-equals-source");
            vf_cover("to-container");
        }
    } else {
        vecmem::host_memory_resource mr;
        vecmem::vector<T> h(vf_pick("before", 3), &mr);
        s.m.snapshot();
        if (s.run([&] { wait(s.t == ctype::unknown ? s.c()(from, h) : s.c()(from, h, s.t)); })) {
            expect(h.size() == a.n, "container-size");
            if (h.size() == a.n)
                same_bytes(h, a, a.n, "container-equals-source");
            vf_cover("to-container");
        }
    }
    a.unchanged("source-unchanged");
    s.m.faces_untouched();
}
template <class T>
void vector_to_t() {
    setting s;
    s.sides();
    line<T> a(s, s.from, SRC, some("capacity", (unsigned)vf_param("max", 3)), true);
    s.m.snapshot();
    const int before = s.m.np;
    piece_resource mr(s.m, s.to, DST);
    {
        const bool asConst = vf_pick("const", 2);
        if (s.run([&] {
                vecmem::data::vector_buffer<T> b =
                    asConst ? s.t == ctype::unknown ? s.c().to(vview<const T>(a.v), mr) : s.c().to(vview<const T>(a.v), mr, s.t)
                            : s.t == ctype::unknown ? s.c().to(a.v, mr) : s.c().to(a.v, mr, s.t);
                expect(s.probe.idle(), "buffer-is-ready");
                expect(b.capacity() == a.n && b.size_ptr() == nullptr, "buffer-size");
                if (b.capacity() == a.n && a.n) {
                    T *p = (T *)s.m.real(b.ptr(), a.n * sizeof(T));
                    same_bytes(p, a, a.n, "buffer-equals-source");
                }
                vf_cover("converted");
            })) {}
    }
    expect(mr.allocs == mr.frees, "memory-leaked");
    a.unchanged("source-unchanged");
    s.m.np = before;
    s.m.faces_untouched();
}
template <class T>
void vector_services_t() {
    setting s;
    s.sides();
    line<T> a(s, s.from, DST, some("capacity", (unsigned)vf_param("max", 3)), true);
    s.m.snapshot();
    switch (vf_pick("what", 3)) {
        case 0:
            if (s.run([&] { wait(s.c().setup(a.v)); })) {
                if (a.resizable && a.cap)
                    expect(a.size() == 0, "setup-empties");
                else if (a.resizable)
                    expect(a.size() == 0 || s.m.kept(a.sz), "setup-empties");
                vf_cover("set-up");
            }
            expect(s.m.kept(a.el), "setup-touches-only-the-size");
            break;
        case 1: {
            int value = (int)vf_sym("value", 32);
            if (s.run([&] { wait(s.c().memset(a.v, value)); })) {
                bool ok = true;
                for (unsigned i = 0; i < a.cap * sizeof(T); ++i)
                    ok &= s.m.p[a.el].real[i] == (unsigned char)value;
                expect(ok, "memset-fills-the-storage");
                vf_cover("filled");
            }
            if (a.resizable)
                expect(s.m.kept(a.sz), "memset-keeps-the-size");
            break;
        }
        default:
            s.run([&] {
                u32 n = vf_pick("const", 2) ? s.c().get_size(vview<const T>(a.v)) : s.c().get_size(a.v);
                expect(n == a.n, "get_size");
                vf_cover("asked-size");
            });
            a.unchanged("asking-changes-nothing");
    }
    s.m.faces_untouched();
}

// ------------------------------------------------------------------ jagged
constexpr unsigned MAXO = big ? VF_CAP : 3;
template <class T>
struct jag {
    setting &s;
    side where;
    unsigned n, cap[MAXO], cnt[MAXO];
    bool resizable, contiguous;
    unsigned out, total = 0;
    int el[MAXO];        // piece with the elements of inner vector i
    std::size_t off[MAXO];
    int sz = -1;
    vview<T> desc[MAXO + 1];  // host descriptors
    int devDesc = -1;
    jview<T> v;
    jag(setting &ss, side w, role r, unsigned maxO, unsigned maxI, bool withSizes) : s(ss), where(w), v(0, nullptr) {
        n = big ? maxO - (r == DST && vf_pick("fewer", 2)) : vf_param("displaced", 0) == 2 ? maxO : vf_pick("outer", maxO + 1);
        // (many inner vectors: a pattern with one exception)
        const unsigned odd = big ? vf_pick("odd-one", 3) : 0;
        resizable = n ? vf_pick("resizable", 2) : 0;
        contiguous = n > 1 && vf_param("displaced", 0) < 2 ? vf_pick("contiguous", 2) : 1;
        // packed, but for one inner vector that has left its place for the end
        const bool gap = n > 1 && contiguous && vf_param("displaced", 0) && vf_pick("displaced", 2);
        out = !gap ? n : big ? n / 2 : vf_param("displaced", 0) == 2 ? 1 : vf_pick("displaced-one", n);
        for (unsigned i = 0; i < n; ++i) {
            cap[i] = big ? (i * 2 + 1) % 3 + (odd == 1 ? i == 0 : odd == 2 ? i + 1 == n : 0) : vf_pick("inner", maxI + 1);
            cnt[i] = !resizable ? cap[i] : !withSizes ? 0 : big ? (i * 5 + 2) % (cap[i] + 1) : vf_pick("size", cap[i] + 1);
            off[i] = total * sizeof(T);
            total += cap[i];
        }
        if (contiguous) {
            if (out < n)
                off[out] = total * sizeof(T);
            int k = n ? s.m.add((total + (out < n ? cap[out] : 0)) * sizeof(T), w, r, alignof(T)) : -1;
            for (unsigned i = 0; i < n; ++i)
                el[i] = k;
        } else
            for (unsigned i = n; i-- > 0;) {
                el[i] = s.m.add(cap[i] * sizeof(T), w, r, alignof(T));
                off[i] = 0;
            }
        if (resizable) {
            sz = s.m.add(n * sizeof(u32), w, r, 4);
            for (unsigned i = 0; i < n; ++i)
                ((u32 *)s.m.p[sz].real)[i] = cnt[i];
        }
        for (unsigned i = 0; i < n; ++i) {
            // an empty inner vector need not have an address
            T *p = (T *)(s.m.p[el[i]].face + off[i]);
            if (!contiguous && !cap[i])
                p = nullptr;
            desc[i] = resizable ? vview<T>(cap[i], (u32 *)s.m.p[sz].face + i, p) : vview<T>(cap[i], p);
        }
        if (w == DEVICE) {
            devDesc = s.m.add(n * sizeof(vview<T>), w, r, alignof(vview<T>));
            for (unsigned i = 0; i < n; ++i)
                ((vview<T> *)s.m.p[devDesc].real)[i] = desc[i];
            v = n ? jview<T>(n, (vview<T> *)s.m.p[devDesc].face, desc) : jview<T>(0, nullptr);
        } else
            v = jview<T>(n, n ? desc : nullptr);
    }
    T *elements(unsigned i) { return (T *)(s.m.p[el[i]].real + off[i]); }
    u32 size(unsigned i) { return resizable ? ((u32 *)s.m.p[sz].real)[i] : cap[i]; }
    // the place that the displaced inner vector has left
    bool holeKept() {
        std::size_t from = 0;
        for (unsigned i = 0; i < out && i < n; ++i)
            from += cap[i] * sizeof(T);
        return out >= n || s.m.kept(el[out], from, from + cap[out] * sizeof(T));
    }
    bool described() {
        bool ok = holeKept();
        for (unsigned i = 0; i < n; ++i)
            ok &= int(desc[i].capacity() == cap[i]) & int(desc[i].size_ptr() == (resizable ? (u32 *)s.m.p[sz].face + i : nullptr));
        return ok && (devDesc < 0 || s.m.kept(devDesc));
    }
    void unchanged(const char *id) {
        bool ok = described();
        for (unsigned i = 0; i < n; ++i)
            ok &= s.m.kept(el[i], off[i], off[i] + cap[i] * sizeof(T));
        expect(ok && (!resizable || s.m.kept(sz)), id);
    }
};
template <class T>
void equals(jag<T> &a, unsigned i, const T *p, const char *id) {
    bool ok = true;
    for (unsigned k = 0; k < a.cnt[i]; ++k)
        ok &= val(p[k]) == val(a.elements(i)[k]);
    expect(ok, id);
}
template <class T>
void jagged_copy_t() {
    setting s;
    const unsigned how = vf_param("how", 9) < 9 ? vf_param("how", 9) : vf_pick("target", 3);
    s.sides(how != 0);
    const unsigned mo = vf_param("maxOuter", 2), mi = vf_param("maxInner", 2);
    jag<T> a(s, s.from, SRC, mo, mi, true);
    jview<const T> from(a.v);
    if (how == 0) {
        jag<T> b(s, s.to, DST, mo, mi, vf_param("toSizes", 0));
        bool fits = a.n == b.n;
        for (unsigned i = 0; i < a.n && i < b.n; ++i)
            fits &= a.cnt[i] <= b.cap[i];
        s.m.snapshot();
        try {
            if (s.run([&] { wait(s.t == ctype::unknown ? s.c()(from, b.v) : s.c()(from, b.v, s.t)); })) {
                if (a.n == 0) {
                    b.unchanged("copy-of-nothing-wrote");
                } else {
                    expect(fits, "too-small-destination-refused");
                    if (fits) {
                        for (unsigned i = 0; i < a.n; ++i) {
                            equals(a, i, b.elements(i), "destination-equals-source");
                            if (b.resizable)
                                expect(b.size(i) == a.cnt[i], "destination-size");
                        }
                        expect(b.described(), "descriptors-unchanged");
                    }
                }
                vf_cover("copied");
            }
        } catch (const std::length_error &) {
            expect(!fits, "possible-copy-refused");
            b.unchanged("refused-copy-wrote");
            vf_cover("refused");
        }
    } else {
        auto judge = [&](auto &h) {
            expect(h.size() == a.n, "container-outer-size");
            if (h.size() != a.n)
                return;
            for (unsigned i = 0; i < a.n; ++i) {
                expect(h[i].size() == a.cnt[i], "container-inner-size");
                if (h[i].size() == a.cnt[i])
                    equals(a, i, h[i].data(), "container-equals-source");
            }
            vf_cover("to-container");
        };
        const unsigned before = vf_pick("before", 2);
        s.m.snapshot();
        if (how == 1) {
            vecmem::host_memory_resource mr;
            vecmem::jagged_vector<T> h(&mr);
            for (unsigned i = 0; i < 2 * before; ++i)
                h.push_back(vecmem::vector<T>(i + 1, &mr));
            if (s.run([&] { wait(s.t == ctype::unknown ? s.c()(from, h) : s.c()(from, h, s.t)); }))
                judge(h);
            bool ok = true;
            for (auto &x : h)
                ok &= x.get_allocator().resource() == &mr;
            expect(ok, "container-resource");
        } else {
            std::vector<std::vector<T>> h(2 * before, std::vector<T>(1));
            if (s.run([&] { wait(s.t == ctype::unknown ? s.c()(from, h) : s.c()(from, h, s.t)); }))
                judge(h);
        }
    }
    a.unchanged("source-unchanged");
    s.m.faces_untouched();
}
template <class T>
void jagged_to_t() {
    setting s;
    s.sides();
    jag<T> a(s, s.from, SRC, vf_param("maxOuter", 2), vf_param("maxInner", 2), true);
    s.m.snapshot();
    const int before = s.m.np;
    piece_resource mr(s.m, s.to, DST), hmr(s.m, HOST, DST);
    // (separate descriptors are for memory that the host cannot reach)
    const bool split = s.to == DEVICE || (!s.devices && !s.faults && vf_pick("split", 2));
    {
        const bool asConst = vf_pick("const", 2);
        s.run([&] {
            std::pmr::memory_resource *h = split ? &hmr : nullptr;
            vecmem::data::jagged_vector_buffer<T> b = asConst ? s.c().to(jview<const T>(a.v), mr, h, s.t) : s.c().to(a.v, mr, h, s.t);
            expect(s.probe.idle(), "buffer-is-ready");
            expect(b.size() == a.n && b.capacity() == a.n, "buffer-outer-size");
            if (b.size() != a.n)
                return;
            for (unsigned i = 0; i < a.n; ++i) {
                vview<T> &x = b.host_ptr()[i];
                expect(x.capacity() == a.cnt[i] && x.size_ptr() == nullptr, "buffer-inner-size");
                if (x.capacity() == a.cnt[i] && a.cnt[i])
                    equals(a, i, (const T *)s.m.real(x.ptr(), a.cnt[i] * sizeof(T)), "buffer-equals-source");
                expect(s.m.at(b.ptr() + i) == x, "descriptors-agree");
            }
            vf_cover("converted");
        });
    }
    expect(mr.allocs == mr.frees && hmr.allocs == hmr.frees, "memory-leaked");
    a.unchanged("source-unchanged");
    s.m.np = before;
    s.m.faces_untouched();
}
template <class T>
void jagged_services_t() {
    setting s;
    s.sides();
    jag<T> a(s, s.from, DST, vf_param("maxOuter", 3), vf_param("maxInner", 2), true);
    if (a.devDesc >= 0)  // nothing there yet
        vf_symbytes(s.m.p[a.devDesc].real, a.n * sizeof(vview<T>), "memory");
    s.m.snapshot();
    auto elementsKept = [&] {
        bool ok = true;
        for (unsigned i = 0; i < a.n; ++i)
            ok &= s.m.kept(a.el[i]);
        return ok;
    };
    switch (vf_pick("what", 4)) {
        case 0:
            if (s.run([&] { wait(s.c().setup(a.v)); })) {
                for (unsigned i = 0; i < a.n; ++i) {
                    if (a.resizable)
                        expect(a.size(i) == 0, "setup-empties");
                    if (a.devDesc >= 0)
                        expect(((vview<T> *)s.m.p[a.devDesc].real)[i] == a.desc[i], "setup-writes-the-descriptors");
                }
                vf_cover("set-up");
            }
            expect(elementsKept(), "setup-keeps-the-elements");
            break;
        case 1: {
            int value = (int)vf_sym("value", 32);
            if (s.run([&] { wait(s.c().memset(a.v, value)); })) {
                bool ok = true;
                for (unsigned i = 0; i < a.n; ++i)
                    for (unsigned k = 0; k < a.cap[i] * sizeof(T); ++k)
                        ok &= s.m.p[a.el[i]].real[a.off[i] + k] == (unsigned char)value;
                expect(ok, "memset-fills-the-storage");
                vf_cover("filled");
            }
            expect(!a.resizable || s.m.kept(a.sz), "memset-keeps-the-sizes");
            expect(a.devDesc < 0 || s.m.kept(a.devDesc), "memset-keeps-the-descriptors");
            break;
        }
        case 2:
            s.run([&] {
                auto n = vf_pick("const", 2) ? s.c().get_sizes(jview<const T>(a.v)) : s.c().get_sizes(a.v);
                expect(n.size() == a.n, "get_sizes-length");
                bool ok = true;
                for (unsigned i = 0; i < a.n && i < n.size(); ++i)
                    ok &= n[i] == a.cnt[i];
                expect(ok, "get_sizes");
                vf_cover("asked-sizes");
            });
            expect(int(elementsKept()) & int(!a.resizable || s.m.kept(a.sz)), "asking-changes-nothing");
            break;
        default: {
            std::vector<u32> n(big ? a.n - vf_pick("sizes", 2) : vf_pick("sizes", 4));
            bool fits = n.size() == a.n;
            for (unsigned i = 0; i < n.size(); ++i) {
                n[i] = big ? (i + 1 == n.size() || i == 0 ? vf_pick("new-size", 4) : i < a.n ? a.cap[i] / 2 : 0) : vf_pick("new-size", vf_param("maxInner", 2) + 2);
                if (i < a.n)
                    fits &= n[i] <= a.cap[i];
            }
            try {
                if (s.run([&] { wait(s.c().set_sizes(n, a.v)); })) {
                    expect(fits, "impossible-sizes-refused");
                    for (unsigned i = 0; i < a.n; ++i)
                        if (a.resizable && fits)
                            expect(a.size(i) == n[i], "sizes-set");
                    vf_cover("sizes-set");
                }
            } catch (const std::length_error &) {
                expect(!fits, "possible-sizes-refused");
                expect(!a.resizable || s.m.kept(a.sz), "refused-sizes-wrote");
                vf_cover("sizes-refused");
            }
            expect(elementsKept(), "sizes-keep-the-elements");
        }
    }
    s.m.faces_untouched();
}
}  // namespace

#define ENTRY(name) \
    VF_HARNESS_FN(name) { vf_param("type", 0) ? name##_t<pod3>() : name##_t<u32>(); }
ENTRY(vector_copy)
ENTRY(vector_to)
ENTRY(vector_services)
ENTRY(jagged_copy)
ENTRY(jagged_to)
ENTRY(jagged_services)
