// E04: copies of structure-of-arrays containers.
#include <stdexcept>
#include <vecmem/utils/copy.hpp>

#include "copy_setting.hpp"
#include "areas.hpp"
#include "soa.hpp"
using namespace vfh;
using vecmem::data::buffer_type;

namespace {
constexpr unsigned R = big ? VF_CAP : 4, W = 4;
enum kind { CONTAINER, FIXED, RESIZABLE };

// What a container holds.
template <class K>
struct contents {
    unsigned n = 0;  // rows
    unsigned in[K::N][R] = {};
    u64 v[K::N][R][W] = {};
};

// One side of a copy: a host container or a buffer of either type.
template <class K>
struct party {
    using host = typename K::cont::host;
    using buffer = typename K::cont::buffer;
    setting &s;
    kind k;
    side where;
    vecmem::host_memory_resource hostMr;
    piece_resource mr, descMr;
    unsigned cap = 0, icap[K::N][R] = {};
    host h;
    buffer b;
    typename K::cont::view v;
    vecmem::edm::data<typename K::cont::schema_type> d;
    int first, last;

    party(setting &ss, kind kk, side w, role r, bool withSizes)
        : s(ss), k(kk), where(w), mr(ss.m, w, OTHER), descMr(ss.m, HOST, OTHER), h(hostMr), v(0) {
        first = s.m.np;
        const unsigned mo = (unsigned)vf_param("maxRows", 2), mi = (unsigned)vf_param("maxInner", 2);
        cap = K::vectors ? some("rows", mo) : 0;
        const unsigned odd = big ? vf_pick("odd-one", 3) : 0;
        if (K::jagged)
            K::each([&](auto i) {
                constexpr std::size_t I = i;
                for (unsigned q = 0; q < cap && K::template dims<I> == 2; ++q) {
                    // (a buffer gives all its jagged columns the same capacities)
                    bool have = false;
                    if (k != CONTAINER)
                        K::each([&](auto o) {
                            constexpr std::size_t O = o;
                            if (O < I && K::template dims<O> == 2)
                                icap[I][q] = icap[O][q], have = true;
                        });
                    if (!have)
                        icap[I][q] = big ? (q * 2 + 1 + I) % 3 + (odd == 1 ? q == 0 : odd == 2 ? q + 1 == cap : 0) : vf_pick("inner", mi + 1);
                }
            });
        if (k == CONTAINER) {
            if constexpr (K::vectors)
                h.resize(cap);
            K::each([&](auto i) {
                constexpr std::size_t I = i;
                using E = typename K::template elem<I>;
                if constexpr (K::template dims<I> == 2)
                    for (unsigned q = 0; q < cap; ++q)
                        h.template get<I>()[q].resize(icap[I][q]);
                // unknown contents
                auto fill = [&](E *p, std::size_t n) {
                    if (n)
                        vf_symbytes(p, n * sizeof(E), "element");
                };
                auto &x = h.template get<I>();
                if constexpr (K::template dims<I> == 0)
                    fill(&x, 1);
                else if constexpr (K::template dims<I> == 1)
                    fill(x.data(), cap);
                else
                    for (unsigned q = 0; q < cap; ++q)
                        fill(x[q].data(), icap[I][q]);
            });
        } else
            make_buffer(withSizes);
        for (int i = first; i < s.m.np; ++i)
            s.m.p[i].r = r;
        last = s.m.np;
    }
    // The view of a host container (when it is copied from, or copied to through a view)
    void look() {
        if (k != CONTAINER)
            return;
        first = s.m.np;
        d = vecmem::get_data(h);
        v = vecmem::get_data(d);
    }
    void make_buffer(bool withSizes) {
        if constexpr (K::vectors) {
            const auto t = k == FIXED ? buffer_type::fixed_size : buffer_type::resizable;
            const bool two = K::jagged && (where == DEVICE || vf_param("two", 0));
            if constexpr (K::jagged) {
                std::vector<unsigned> caps(cap);
                K::each([&](auto i) {
                    constexpr std::size_t I = i;
                    if (K::template dims<I> == 2)
                        for (unsigned q = 0; q < cap; ++q)
                            caps[q] = icap[I][q];
                });
                b = buffer(caps, mr, two ? &descMr : nullptr, t);
            } else
                b = buffer(cap, mr, t);
            v = vecmem::get_data(b);
            probe_copy prepare(s.m);
            wait(prepare.setup(v));
            // sizes
            if (k == RESIZABLE && withSizes) {
                if constexpr (!K::jagged) {
                    u32 *n = (u32 *)s.m.real(v.size().ptr(), 4);
                    *n = some("size", cap);
                } else
                    K::each([&](auto i) {
                        constexpr std::size_t I = i;
                        if constexpr (K::template dims<I> == 2)
                            for (unsigned q = 0; q < cap; ++q)
                                *(u32 *)s.m.real(v.template get<I>().host_ptr()[q].size_ptr(), 4) =
                                    big ? (q * 5 + 2) % (icap[I][q] + 1) : vf_pick("inner-size", icap[I][q] + 1);
                    });
            }
        }
    }
    // number of rows it says it has
    unsigned rows() {
        if (k == CONTAINER) {
            if constexpr (K::vectors)
                return (unsigned)h.size();
            else
                return 0;
        }
        if (k == RESIZABLE && !K::jagged)
            return *(u32 *)s.m.real(v.size().ptr(), 4);
        return cap;
    }
    template <std::size_t I>
    unsigned inner(unsigned q) {
        if (k == CONTAINER)
            return (unsigned)h.template get<I>()[q].size();
        auto &y = v.template get<I>().host_ptr()[q];
        return k == RESIZABLE ? *(u32 *)s.m.real(y.size_ptr(), 4) : y.capacity();
    }
    template <std::size_t I>
    u64 at(unsigned q, unsigned c) {
        if (k == CONTAINER) {
            auto &x = h.template get<I>();
            if constexpr (K::template dims<I> == 0)
                return bits(x);
            else if constexpr (K::template dims<I> == 1)
                return bits(x[q]);
            else
                return bits(x[q][c]);
        }
        auto &x = v.template get<I>();
        if constexpr (K::template dims<I> == 0)
            return bits(s.m.at(x));
        else if constexpr (K::template dims<I> == 1)
            return bits(s.m.at(x.ptr() + q));
        else
            return bits(s.m.at(x.host_ptr()[q].ptr() + c));
    }
    contents<K> read() {
        contents<K> r;
        r.n = rows();
        K::each([&](auto i) {
            constexpr std::size_t I = i;
            if constexpr (K::template dims<I> == 0)
                r.v[I][0][0] = at<I>(0, 0);
            else
                for (unsigned q = 0; q < r.n; ++q)
                    if constexpr (K::template dims<I> == 1)
                        r.v[I][q][0] = at<I>(q, 0);
                    else {
                        r.in[I][q] = inner<I>(q);
                        for (unsigned c = 0; c < r.in[I][q]; ++c)
                            r.v[I][q][c] = at<I>(q, c);
                    }
        });
        return r;
    }
    // are the descriptors what they were?
    bool described() {
        bool ok = true;
        if (k == CONTAINER)
            return true;
        K::each([&](auto i) {
            constexpr std::size_t I = i;
            if constexpr (K::template dims<I> == 2)
                for (unsigned q = 0; q < cap; ++q) {
                    auto &x = v.template get<I>();
                    ok &= x.host_ptr()[q].capacity() == icap[I][q];
                    ok &= s.m.at(x.ptr() + q) == x.host_ptr()[q];
                }
        });
        return ok;
    }
    void unchanged(const contents<K> &c, const char *id) {
        contents<K> now = read();
        bool ok = now.n == c.n && described();
        if (now.n == c.n)
            K::each([&](auto i) {
                constexpr std::size_t I = i;
                for (unsigned q = 0; q < (K::template dims<I> ? c.n : 1); ++q) {
                    ok &= now.in[I][q] == c.in[I][q];
                    for (unsigned e = 0; e < (K::template dims<I> == 2 ? c.in[I][q] : 1); ++e)
                        ok &= now.v[I][q][e] == c.v[I][q][e];
                }
            });
        bool kept = true;
        for (int i = first; i < last; ++i)
            kept &= s.m.kept(i);
        expect(ok && kept, id);
    }
};
template <class K>
void holds(party<K> &b, const contents<K> &c, bool grows) {
    bool ok = true;
    if (b.k == RESIZABLE && !K::jagged)
        expect(b.rows() == c.n, "destination-size");
    if (grows) {
        expect(b.rows() == c.n, "container-size");
        if (b.rows() != c.n)
            return;
    }
    K::each([&](auto i) {
        constexpr std::size_t I = i;
        if constexpr (K::template dims<I> == 0)
            ok &= b.template at<I>(0, 0) == c.v[I][0][0];
        else
            for (unsigned q = 0; q < c.n; ++q)
                if constexpr (K::template dims<I> == 1)
                    ok &= b.template at<I>(q, 0) == c.v[I][q][0];
                else {
                    if (b.k == RESIZABLE || grows)
                        expect(b.template inner<I>(q) == c.in[I][q], "destination-inner-size");
                    if (b.template inner<I>(q) < c.in[I][q] && (b.k == CONTAINER))
                        return;
                    for (unsigned e = 0; e < c.in[I][q]; ++e)
                        ok &= b.template at<I>(q, e) == c.v[I][q][e];
                }
    });
    expect(ok, "destination-equals-source");
}
template <class K>
void copies() {
    setting s;
    const kind fk = (kind)vf_param("from", 0), tk = (kind)vf_param("to", 0);
    const bool grows = vf_param("into", 0);  // into a host container rather than a view
    s.sides(tk == CONTAINER);
    if (fk == CONTAINER && s.from == DEVICE)
        vf_done();
    party<K> a(s, fk, s.from, SRC, true), b(s, grows ? CONTAINER : tk, s.to, DST, vf_param("toSizes", 0));
    a.look();
    if (!grows)
        b.look();
    const contents<K> want = a.read();
    s.m.snapshot();
    // can it fit?
    bool fits = true;
    if (!grows)
        K::each([&](auto i) {
            constexpr std::size_t I = i;
            if (K::template dims<I> == 1)
                fits &= want.n <= b.cap;
            if (K::template dims<I> == 2 && want.n) {
                fits &= want.n == b.cap;
                for (unsigned q = 0; q < want.n && q < b.cap; ++q)
                    fits &= want.in[I][q] <= b.icap[I][q];
            }
        });
    const bool asConst = vf_pick("const", 2);
    auto go = [&](auto &&from, auto &&to) {
        return s.t == ctype::unknown ? s.c()(from, to) : s.c()(from, to, s.t);
    };
    try {
        const bool whole = s.run([&] {
            typename K::cont::const_view cv(a.v);
            if (grows)
                wait(asConst ? go(cv, b.h) : go(a.v, b.h));
            else
                wait(asConst ? go(cv, b.v) : go(a.v, b.v));
        });
        if (whole) {
            expect(fits, "too-small-destination-refused");
            if (fits)
                holds(b, want, grows);
            expect(grows || b.described(), "descriptors-unchanged");
            vf_cover("copied");
        }
    } catch (const std::length_error &) {
        expect(!fits, "possible-copy-refused");
        expect(b.described(), "descriptors-unchanged");
        vf_cover("refused");
    }
    a.unchanged(want, "source-unchanged");
    s.m.faces_untouched();
}
template <class K>
void services() {
    setting s;
    s.sides();
    party<K> a(s, (kind)vf_param("from", 1), s.from, DST, true);
    a.look();
    const contents<K> want = a.read();
    s.m.snapshot();
    switch (vf_pick("what", 3)) {
        case 0:
            s.run([&] {
                expect(s.c().get_size(a.v) == want.n, "get_size");
                typename K::cont::const_view cv(a.v);
                expect(s.c().get_size(cv) == want.n, "get_size");
                vf_cover("asked-size");
            });
            a.unchanged(want, "asking-changes-nothing");
            break;
        case 1: {
            if (a.k == CONTAINER)
                vf_done();
            int value = (int)vf_sym("value", 32);
            const unsigned char x = (unsigned char)value;
            if (s.run([&] { wait(s.c().memset(a.v, value)); })) {
                bool ok = true;
                auto is = [&](auto *p, std::size_t n) {
                    if (!n)
                        return;
                    const unsigned char *q = (const unsigned char *)s.m.real(p, n * sizeof(*p));
                    for (std::size_t i = 0; i < n * sizeof(*p); ++i)
                        ok &= q[i] == x;
                };
                K::each([&](auto i) {
                    constexpr std::size_t I = i;
                    auto &y = a.v.template get<I>();
                    if constexpr (K::template dims<I> == 0)
                        is(y, 1);
                    else if constexpr (K::template dims<I> == 1)
                        is(y.ptr(), a.cap);
                    else
                        for (unsigned q = 0; q < a.cap; ++q)
                            is(y.host_ptr()[q].ptr(), a.icap[I][q]);
                });
                expect(ok, "memset-fills-every-column");
                expect(a.rows() == want.n, "memset-keeps-the-size");
                K::each([&](auto i) {
                    constexpr std::size_t I = i;
                    if constexpr (K::template dims<I> == 2)
                        for (unsigned q = 0; q < want.n; ++q)
                            expect(a.template inner<I>(q) == want.in[I][q], "memset-keeps-the-size");
                });
                vf_cover("filled");
            }
            expect(a.described(), "descriptors-unchanged");
            break;
        }
        default:
            if (a.k == CONTAINER)
                vf_done();
            // make the sizes and the device's descriptors unknown, then set up
            if (a.k == RESIZABLE && a.v.size().capacity())
                vf_symbytes(s.m.real(a.v.size().ptr(), a.v.size().capacity()), a.v.size().capacity(), "memory");
            K::each([&](auto i) {
                constexpr std::size_t I = i;
                if constexpr (K::template dims<I> == 2) {
                    auto &y = a.v.template get<I>();
                    if (y.ptr() != y.host_ptr() && a.cap)
                        vf_symbytes(s.m.real(y.ptr(), a.cap * sizeof(*y.ptr())), a.cap * sizeof(*y.ptr()), "memory");
                }
            });
            if (s.run([&] { wait(s.c().setup(a.v)); })) {
                expect(a.described(), "setup-writes-the-descriptors");
                if (a.k == RESIZABLE) {
                    if (!K::jagged)
                        expect(a.rows() == 0, "setup-empties");
                    K::each([&](auto i) {
                        constexpr std::size_t I = i;
                        if constexpr (K::template dims<I> == 2)
                            for (unsigned q = 0; q < a.cap; ++q)
                                expect(a.template inner<I>(q) == 0, "setup-empties");
                    });
                }
                vf_cover("set-up");
            }
    }
    s.m.faces_untouched();
}
}  // namespace
#define PICK(f)                                  \
    switch (vf_param("schema", 0)) {             \
        case 0: f<S0>(); break;                  \
        case 1: f<S1>(); break;                  \
        case 2: f<S2>(); break;                  \
        case 4: f<S4>(); break;                  \
        default: f<S5>(); break;                 \
    }
VF_HARNESS_FN(soa_copy) { PICK(copies) }
VF_HARNESS_FN(soa_services) { PICK(services) }
