// E02, E03: structure-of-arrays containers on the host and over device views.
#include <new>
#include <stdexcept>

#include "soa.hpp"
using namespace vfh;

namespace {
// ------------------------------------------------------------------ E02
constexpr unsigned R = big ? VF_CAP + 2 : 6, W = 5;  // rows, inner elements
template <class K>
struct model {
    unsigned rows[K::N] = {};    // of every column
    u64 v[K::N][R] = {};         // (scalars: row 0)
    unsigned in[K::N][R] = {};
    u64 j[K::N][R][W] = {};
    bool same() const {
        bool known = false, ok = true;
        unsigned n = 0;
        K::each([&](auto i) {
            constexpr std::size_t I = i;
            if (K::template dims<I> > 0) {
                ok &= !known || rows[I] == n;
                known = true;
                n = rows[I];
            }
        });
        return ok;
    }
    void resize_col(std::size_t c, int dims, unsigned n) {
        for (unsigned r = rows[c]; r < n; ++r) {
            v[c][r] = 0;
            in[c][r] = 0;
        }
        rows[c] = n;
    }
};
template <class K>
struct host_world {
    using cont = typename K::cont;
    using host = typename cont::host;
    vecmem::host_memory_resource mr;
    host h;
    model<K> m;
    host_world() : h(mr) {}

    void columns(const host &c, const char *id) {
        bool ok = true;
        K::each([&](auto i) {
            constexpr std::size_t I = i;
            const auto &x = c.template get<I>();
            if constexpr (K::template dims<I> == 0)
                ok &= bits(x) == m.v[I][0];
            else {
                ok &= x.size() == m.rows[I];
                if (x.size() == m.rows[I])
                    for (unsigned r = 0; r < m.rows[I]; ++r)
                        if constexpr (K::template dims<I> == 1)
                            ok &= bits(x[r]) == m.v[I][r];
                        else {
                            ok &= x[r].size() == m.in[I][r];
                            if (x[r].size() == m.in[I][r])
                                for (unsigned k = 0; k < m.in[I][r]; ++k)
                                    ok &= bits(x[r][k]) == m.j[I][r][k];
                            ok &= x[r].get_allocator().resource() == &mr;
                        }
                ok &= x.get_allocator().resource() == &mr;
            }
            ok &= (const void *)&x == (const void *)&const_cast<host &>(c).template get<I>();
        });
        expect(ok, id);
    }
    unsigned rows() {
        unsigned n = 0;
        K::each([&](auto i) {
            constexpr std::size_t I = i;
            if (K::template dims<I> > 0)
                n = m.rows[I];
        });
        return n;
    }
    // a row through a proxy
    template <class P>
    void row(P &p, unsigned r, const char *id) {
        bool ok = true;
        K::each([&](auto i) {
            constexpr std::size_t I = i;
            auto &x = p.template get<I>();
            if constexpr (K::template dims<I> == 0)
                ok &= bits(x) == m.v[I][0] && &x == &const_cast<const host &>(h).template get<I>();
            else if constexpr (K::template dims<I> == 1)
                ok &= bits(x) == m.v[I][r] && &x == &const_cast<const host &>(h).template get<I>()[r];
            else {
                ok &= &x == &const_cast<const host &>(h).template get<I>()[r];
                ok &= x.size() == m.in[I][r];
                for (unsigned k = 0; k < m.in[I][r] && k < x.size(); ++k)
                    ok &= bits(x[k]) == m.j[I][r][k];
            }
        });
        expect(ok, id);
    }
    void check_all() {
        columns(h, "columns");
        const host &c = h;
        if constexpr (K::vectors) {
            const bool same = m.same();
            try {
                std::size_t n = c.size();
                expect(same, "differing-columns-refused");
                expect(n == rows(), "size");
                for (unsigned r = 0; r < rows(); ++r) {
                    auto p = h[r];
                    auto q = c[r];
                    const auto p2 = h.at(r);
                    auto q2 = c.at(r);
                    const auto &p1 = p;
                    const auto &q1 = q;
                    row(p, r, "proxy");
                    row(p1, r, "proxy-read-only");
                    row(q, r, "constant-proxy");
                    row(q1, r, "constant-proxy");
                    row(p2, r, "at");
                    row(q2, r, "at");
                }
                // no row beyond the size
                u64 far = vf_sym("beyond", 64);
                vf_assume(far >= rows());
                int thrown = 0;
                try {
                    h.at(far);
                } catch (const std::out_of_range &) {
                    ++thrown;
                }
                try {
                    c.at(far);
                } catch (const std::out_of_range &) {
                    ++thrown;
                }
                expect(thrown == 2, "out-of-range-row-refused");
            } catch (const std::length_error &) {
                expect(!same, "equal-columns-refused");
                vf_cover("columns-differ");
            }
        }
    }
    // one view of column I
    template <std::size_t I, class VW>
    void view_col(VW &x, bool &ok) {
        auto &mine = h.template get<I>();
        if constexpr (K::template dims<I> == 0)
            ok &= x == &mine;
        else if constexpr (K::template dims<I> == 1)
            ok &= x.capacity() == m.rows[I] && x.size_ptr() == nullptr && (m.rows[I] == 0 || x.ptr() == mine.data());
        else {
            ok &= x.size() == m.rows[I] && x.capacity() == m.rows[I];
            for (unsigned r = 0; r < m.rows[I] && ok; ++r)
                for (int f = 0; f < 2; ++f) {
                    auto &y = (f ? x.host_ptr() : x.ptr())[r];
                    ok &= y.capacity() == m.in[I][r] && y.size_ptr() == nullptr &&
                          (m.in[I][r] == 0 || y.ptr() == mine[r].data());
                }
        }
    }
    template <class D>
    void described(D &d, const char *id) {
        bool ok = true;
        if (K::vectors)
            ok &= d.capacity() == rows();
        ok &= d.size().ptr() == nullptr && d.payload().ptr() == nullptr;
        ok &= d.layout().ptr() == d.host_layout().ptr();
        K::each([&](auto i) {
            constexpr std::size_t I = i;
            view_col<I>(d.template get<I>(), ok);
            const auto &cd = d;
            view_col<I>(cd.template get<I>(), ok);
        });
        expect(ok, id);
    }
    void check_views() {
        using vecmem::get_data;
        const host &c = h;
        const bool same = !K::vectors || m.same();
        try {
            auto d = get_data(h);
            expect(same, "differing-columns-refused");
            described(d, "data-describes-the-columns");
            auto moved = std::move(d);
            described(moved, "moved-data-describes-the-columns");
            typename K::cont::view v = get_data(moved);
            described(v, "view-describes-the-columns");
            const auto &cm = moved;
            typename K::cont::const_view cv = get_data(cm);
            described(cv, "constant-view-describes-the-columns");
            typename K::cont::const_view cv2 = v;
            described(cv2, "constant-view-describes-the-columns");
            cv = v;
            described(cv, "constant-view-describes-the-columns");
            auto dc = get_data(c);
            described(dc, "constant-data-describes-the-columns");
            if (vf_pick("other-resource", 2)) {
                auto o = get_data(h, &mr);
                described(o, "data-describes-the-columns");
                decltype(o) later;
                later = std::move(o);
                described(later, "moved-data-describes-the-columns");
                auto p = get_data(c, &mr);
                described(p, "constant-data-describes-the-columns");
            }
            vf_cover("viewed");
        } catch (const std::length_error &) {
            expect(!same, "equal-columns-refused");
        }
    }
    template <std::size_t I>
    static u64 wide(u64 x) { return bits(from_bits<typename K::template elem<I>>(x)); }

    void step() {
        const unsigned maxRows = (unsigned)vf_param("maxRows", 3);
        switch (vf_pick("op", 6)) {
            case 0:
                if constexpr (K::vectors) {
                    unsigned n = some("rows", maxRows);
                    h.resize(n);
                    K::each([&](auto i) {
                        constexpr std::size_t I = i;
                        if (K::template dims<I> > 0)
                            m.resize_col(I, K::template dims<I>, n);
                    });
                    vf_cover("resized");
                }
                break;
            case 1:
                if constexpr (K::vectors) {
                    unsigned n = some("rows", maxRows + 1);
                    h.reserve(n);
                    bool ok = true;
                    K::each([&](auto i) {
                        constexpr std::size_t I = i;
                        if constexpr (K::template dims<I> > 0)
                            ok &= h.template get<I>().capacity() >= n;
                    });
                    expect(ok, "every-column-reserved");
                    vf_cover("reserved");
                }
                break;
            case 2:
            case 3:  // write a row, directly or through a proxy
            case 4: {
                const unsigned way = vf_pick("way", K::vectors ? 3 : 1);
                const bool same = m.same();
                const unsigned n = same ? rows() : 0;
                if (way && n == 0)
                    break;
                const unsigned r = n ? some("row", n - 1) : 0;
                const std::size_t which = vf_pick("column", K::N);
                const u64 x = vf_sym("value", 64);
                K::each([&](auto i) {
                    constexpr std::size_t I = i;
                    if (I != which)
                        return;
                    using E = typename K::template elem<I>;
                    auto put = [&](auto &cell) {
                        if constexpr (K::template dims<I> == 2) {
                            if (m.in[I][r] == W)
                                return;
                            cell.push_back(from_bits<E>(x));
                            m.j[I][r][m.in[I][r]++] = wide<I>(x);
                        } else {
                            cell = from_bits<E>(x);
                            m.v[I][K::template dims<I> ? r : 0] = wide<I>(x);
                        }
                    };
                    if (way == 0) {
                        if constexpr (K::template dims<I> == 0)
                            put(h.template get<I>());
                        else if (r < m.rows[I])
                            put(h.template get<I>()[r]);
                    } else if constexpr (K::vectors) {
                        auto p = way == 1 ? h[r] : h.at(r);
                        put(p.template get<I>());
                        vf_cover("written-through-proxy");
                    }
                });
                break;
            }
            default: {  // one column changes its size behind the container's back
                const std::size_t which = vf_pick("column", K::N);
                const unsigned n = some("rows", maxRows);
                K::each([&](auto i) {
                    constexpr std::size_t I = i;
                    if constexpr (K::template dims<I> == 1)
                        if (I == which) {
                            h.template get<I>().resize(n);
                            m.resize_col(I, 1, n);
                        }
                });
            }
        }
    }
    void run() {
        const int ops = (int)vf_param("ops", 2);
        if constexpr (K::vectors) {
            const unsigned n = some("start", (unsigned)vf_param("maxRows", 3));
            h.resize(n);
            K::each([&](auto i) {
                constexpr std::size_t I = i;
                if (K::template dims<I> > 0)
                    m.resize_col(I, K::template dims<I>, n);
            });
        }
        K::each([&](auto i) {  // contents
            constexpr std::size_t I = i;
            using E = typename K::template elem<I>;
            auto &x = h.template get<I>();
            if constexpr (K::template dims<I> == 0) {
                expect(bits(x) == 0, "scalar-value-initialised");
                u64 y = vf_sym("scalar", 64);
                x = from_bits<E>(y);
                m.v[I][0] = wide<I>(y);
            } else
                for (unsigned r = 0; r < m.rows[I]; ++r)
                    if constexpr (K::template dims<I> == 1) {
                        u64 y = vf_sym("element", 64);
                        x[r] = from_bits<E>(y);
                        m.v[I][r] = wide<I>(y);
                    } else {
                        for (unsigned k = 0; k < (r + I) % 3; ++k) {
                            u64 y = vf_sym("element", 64);
                            x[r].push_back(from_bits<E>(y));
                            m.j[I][r][m.in[I][r]++] = wide<I>(y);
                        }
                    }
        });
        expect(&h.resource() == &mr, "resource");
        for (int k = 0; k < ops; ++k)
            step();
        check_all();
        check_views();
        vf_cover("checked");
    }
};

// ------------------------------------------------------------------ E03
constexpr unsigned CAP = big ? VF_CAP : 6;
// storage of a device view, with a guard around everything
template <class K>
struct device_world {
    struct cell {
        u64 before;
        alignas(16) unsigned char el[CAP * W * 8];
        u64 after;
    };
    cell c[K::N];
    unsigned char old[K::N][CAP * W * 8];
    struct {
        u64 before;
        u32 n, n_after;
    } size;
    u32 inner[K::N][CAP];           // sizes of inner vectors
    unsigned icap[K::N][CAP];
    alignas(8) unsigned char desc[K::N][CAP * 32];
    unsigned cap, n;
    bool resizable;
    typename K::cont::view v;

    template <std::size_t I>
    typename K::template elem<I> *el(unsigned r = 0, unsigned k = 0) {
        return (typename K::template elem<I> *)c[I].el + (K::template dims<I> == 2 ? r * W + k : r);
    }
    device_world() : v(0) {
        cap = some("capacity", (unsigned)vf_param("maxCap", 3));
        resizable = vf_pick("resizable", 2);
        n = resizable && !K::jagged ? some("size", cap) : cap;
        size.before = 0x5151515151515151ull;
        size.n = n;
        size.n_after = 0x77777777;
        using mv = typename K::cont::view::memory_view_type;
        v = typename K::cont::view(cap, resizable && !K::jagged ? mv(4, (char *)&size.n) : mv(0, nullptr));
        K::each([&](auto i) {
            constexpr std::size_t I = i;
            using E = typename K::template elem<I>;
            c[I].before = c[I].after = 0x5151515151515151ull;
            vf_symbytes(c[I].el, sizeof c[I].el, "element");
            for (unsigned k = 0; k < sizeof c[I].el; ++k)
                old[I][k] = c[I].el[k];
            if constexpr (K::template dims<I> == 0)
                v.template get<I>() = el<I>();
            else if constexpr (K::template dims<I> == 1)
                v.template get<I>() = resizable && !K::jagged ? vecmem::data::vector_view<E>(cap, &size.n, el<I>())
                                                              : vecmem::data::vector_view<E>(cap, el<I>());
            else {
                using VV = vecmem::data::vector_view<E>;
                VV *d = (VV *)desc[I];
                for (unsigned r = 0; r < cap; ++r) {
                    icap[I][r] = big ? r % 3 : vf_pick("inner", 2) * 2 + (r & 1);
                    inner[I][r] = !resizable ? icap[I][r] : big ? (r * 5 + 2) % (icap[I][r] + 1) : vf_pick("inner-size", icap[I][r] + 1);
                    new (d + r) VV(icap[I][r], resizable ? &inner[I][r] : nullptr, el<I>(r));
                }
                v.template get<I>() = vecmem::data::jagged_vector_view<E>(cap, d);
            }
        });
    }
    void outside() {
        bool ok = int(size.before == 0x5151515151515151ull) & int(size.n_after == 0x77777777);
        for (auto &x : c)
            ok &= int(x.before == 0x5151515151515151ull) & int(x.after == 0x5151515151515151ull);
        expect(ok, "outside-untouched");
    }
    // are the bytes of column I outside row r (k: inner) as they were?
    template <std::size_t I>
    bool others(unsigned from, unsigned to) {
        bool ok = true;
        for (unsigned k = 0; k < sizeof c[I].el; ++k)
            if (k < from || k >= to)
                ok &= c[I].el[k] == old[I][k];
        return ok;
    }
    template <class D>
    void columns(D &d, const char *id) {
        bool ok = d.size() == n && d.capacity() == cap;
        K::each([&](auto i) {
            constexpr std::size_t I = i;
            auto &x = d.template get<I>();
            if constexpr (K::template dims<I> == 0)
                ok &= &x == el<I>();
            else if constexpr (K::template dims<I> == 1) {
                ok &= x.size() == n && x.capacity() == cap;
                for (unsigned r = 0; r < n; ++r)
                    ok &= &x[r] == el<I>(r) && &x.at(r) == el<I>(r);
            } else {
                ok &= x.size() == cap;
                for (unsigned r = 0; r < cap && ok; ++r) {
                    auto y = x[r];
                    ok &= y.size() == inner[I][r] && y.capacity() == icap[I][r];
                    for (unsigned k = 0; k < inner[I][r] && ok; ++k)
                        ok &= &y[k] == el<I>(r, k);
                }
            }
        });
        expect(ok, id);
    }
    template <class P>
    void row(P &p, unsigned r, const char *id) {
        bool ok = true;
        K::each([&](auto i) {
            constexpr std::size_t I = i;
            auto &x = p.template get<I>();
            if constexpr (K::template dims<I> < 2)
                ok &= &x == el<I>(r * (K::template dims<I> == 1));
            else {
                ok &= x.size() == inner[I][r] && x.capacity() == icap[I][r];
                for (unsigned k = 0; k < inner[I][r] && ok; ++k)
                    ok &= &x[k] == el<I>(r, k);
            }
        });
        expect(ok, id);
    }
    void rows() {
        typename K::cont::device d(v);
        const auto &cd = d;
        typename K::cont::const_view cv(v);
        typename K::cont::const_device k(cv);
        const auto &ck = k;
        columns(d, "columns");
        columns(cd, "columns-read-only");
        columns(k, "columns-constant");
        columns(ck, "columns-constant");
        for (unsigned r = 0; r < n; ++r) {
            auto p = d[r];
            auto p2 = d.at(r);
            row(p, r, "proxy");
            row(p2, r, "at");
            if constexpr (!K::jagged) {  // (does not compile with jagged columns)
                auto q = cd[r];
                const auto q2 = cd.at(r);
                const auto p3 = d[r];
                row(q, r, "proxy-read-only");
                row(q2, r, "at-read-only");
                row(p3, r, "proxy-read-only");
            }
            auto s = k[r];
            auto s2 = ck.at(r);
            row(s, r, "constant-proxy");
            row(s2, r, "constant-at");
            const auto s3 = ck[r];
            row(s3, r, "constant-proxy");
        }
        outside();
        bool ok = true;
        K::each([&](auto i) { ok &= others<decltype(i)::value>(0, 0); });
        expect(ok, "reading-changes-nothing");
        vf_cover("read");
        // write one element of one row
        if (!n)
            return;
        const unsigned r = some("row", n - 1);
        const std::size_t which = vf_pick("column", K::N);
        const bool at = vf_pick("at", 2);
        const u64 x = vf_sym("value", 64);
        auto p = at ? d.at(r) : d[r];
        bool only = true;
        K::each([&](auto i) {
            constexpr std::size_t I = i;
            using E = typename K::template elem<I>;
            if (I != which) {
                return;
            }
            unsigned pos = r * (K::template dims<I> == 1);
            if constexpr (K::template dims<I> < 2) {
                p.template get<I>() = from_bits<E>(x);
                expect(bits(*el<I>(pos)) == bits(from_bits<E>(x)), "written-through-proxy");
            } else {
                if (inner[I][r] == 0)
                    return;
                p.template get<I>()[inner[I][r] - 1] = from_bits<E>(x);
                pos = r * W + inner[I][r] - 1;
                expect(bits(*el<I>(r, inner[I][r] - 1)) == bits(from_bits<E>(x)), "written-through-proxy");
            }
            only &= others<I>(pos * sizeof(E), (pos + 1) * sizeof(E));
            vf_cover("written");
        });
        K::each([&](auto i) {
            constexpr std::size_t I = i;
            if (I != which)
                only &= others<I>(0, 0);
        });
        expect(only, "only-that-element-written");
        outside();
    }
    void append() {
        if constexpr (!K::jagged) {
            if (!resizable)
                return;
            typename K::cont::device d(v);
            const unsigned k = cap - n ? vf_pick("appends", cap - n + 1) : 0;
            for (unsigned i = 0; i < k; ++i) {
                expect(d.push_back_default() == n + i, "position-of-the-new-row");
                expect(d.size() == n + i + 1, "size-after-append");
            }
            bool ok = size.n == n + k;
            K::each([&](auto i) {
                constexpr std::size_t I = i;
                using E = typename K::template elem<I>;
                if constexpr (K::template dims<I> == 1) {
                    ok &= others<I>(n * sizeof(E), (n + k) * sizeof(E));
                    for (unsigned r = n; r < n + k; ++r)
                        ok &= bits(*el<I>(r)) == 0;
                } else
                    ok &= others<I>(0, 0);
            });
            expect(ok, "new-rows-default-and-others-kept");
            n += k;
            columns(d, "columns-after-append");
            outside();
            if (k)
                vf_cover("appended");
        }
    }
};
template <class K>
struct append_job {
    u64 before;
    u32 n, after;
    u32 a[10];
    u64 b[10];
    u8 s;
    unsigned cap, ops;
    u32 at[5][3], x[5][3];
};
using TS = kit<type::vector<u32>, type::scalar<u8>, type::vector<u64>>;
append_job<TS> *aj;
TS::cont::view thread_view() {
    using mv = TS::cont::view::memory_view_type;
    TS::cont::view v(aj->cap, mv(4, (char *)&aj->n));
    v.get<0>() = vecmem::data::vector_view<u32>(aj->cap, &aj->n, aj->a);
    v.get<1>() = &aj->s;
    v.get<2>() = vecmem::data::vector_view<u64>(aj->cap, &aj->n, aj->b);
    return v;
}
void row_appender(void *) {
    const int t = vf_tid();
    TS::cont::device d(thread_view());
    for (unsigned i = 0; i < aj->ops; ++i) {
        const u32 at = aj->at[t][i] = d.push_back_default();
        expect(at < aj->cap, "position-in-range");
        if (at < aj->cap) {
            expect(int(aj->a[at] == 0) & int(aj->b[at] == 0), "own-row-is-default");
            auto p = d[at];
            p.get<0>() = aj->x[t][i];
            p.get<2>() = aj->x[t][i];
        }
    }
}
}  // namespace
#define PICK(call)                                   \
    switch (vf_param("schema", 0)) {                 \
        case 0: call(S0); break;                     \
        case 1: call(S1); break;                     \
        case 2: call(S2); break;                     \
        case 3: call(S3); break;                     \
        case 4: call(S4); break;                     \
        default: call(S5); break;                    \
    }
#define HOST_RUN(S)          \
    do {                     \
        host_world<S> w;     \
        w.run();             \
    } while (0)
VF_HARNESS_FN(soa_host) { PICK(HOST_RUN) }
#define ROWS_RUN(S)                                         \
    do {                                                    \
        auto *w = new device_world<S>();                    \
        w->rows();                                          \
        delete w;                                           \
    } while (0)
VF_HARNESS_FN(soa_device) { PICK(ROWS_RUN) }
#define APP_RUN(S)                                          \
    do {                                                    \
        auto *w = new device_world<S>();                    \
        w->append();                                        \
        delete w;                                           \
    } while (0)
VF_HARNESS_FN(soa_append) {
    switch (vf_param("schema", 0)) {
        case 0: APP_RUN(S0); break;
        case 2: APP_RUN(S2); break;
        default: APP_RUN(S5); break;
    }
}
VF_HARNESS_FN(soa_append_threads) {
    const unsigned T = (unsigned)vf_param("threads", 2);
    aj = new append_job<TS>();
    aj->ops = (unsigned)vf_param("ops", 1);
    aj->before = 0x5151515151515151ull;
    aj->after = 0x77777777;
    const unsigned n0 = vf_pick("size", 2), total = n0 + T * aj->ops;
    aj->n = n0;
    aj->cap = total + vf_pick("spare", 2);
    u32 first = (u32)vf_sym("old", 32);
    for (unsigned i = 0; i < 10; ++i)
        aj->a[i] = first + i, aj->b[i] = first + i;
    aj->s = 9;
    for (unsigned t = 1; t <= T; ++t)
        for (unsigned i = 0; i < aj->ops; ++i)
            aj->x[t][i] = (u32)vf_sym("x", 32);
    for (unsigned t = 0; t < T; ++t)
        vf_spawn(row_appender, nullptr);
    vf_join();
    expect(aj->n == total, "final-size");
    int owner[10] = {};
    bool ok = true, slots = true;
    for (unsigned t = 1; t <= T; ++t)
        for (unsigned i = 0; i < aj->ops; ++i) {
            const u32 at = aj->at[t][i];
            expect(at >= n0 && at < total, "position-in-range");
            if (at >= 10)
                return;
            slots &= owner[at]++ == 0;
            ok &= int(aj->a[at] == aj->x[t][i]) & int(aj->b[at] == aj->x[t][i]);
        }
    expect(slots, "distinct-rows");
    expect(ok, "own-row-kept");
    ok = aj->s == 9 && aj->before == 0x5151515151515151ull && aj->after == 0x77777777;
    for (unsigned i = 0; i < 10; ++i)
        if (i < n0 || i >= total)
            ok &= int(aj->a[i] == first + i) & int(aj->b[i] == first + i);
    expect(ok, "others-untouched");
    vf_cover("joined");
    delete aj;
}
