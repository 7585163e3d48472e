// C06, C09: jagged device vectors with their iterators; views.
#include <utility>
#include <vecmem/containers/data/jagged_vector_data.hpp>
#include <vecmem/containers/data/jagged_vector_view.hpp>
#include <vecmem/containers/data/vector_view.hpp>
#include <vecmem/containers/jagged_device_vector.hpp>
#include <vecmem/containers/jagged_vector.hpp>
#include <vecmem/containers/vector.hpp>

#include "res.hpp"
#include "tracked.hpp"
using namespace vfh;

namespace {
using vfh::val;
constexpr unsigned MAXO = big ? VF_CAP : 3, MAXI = 2;
template <class T>
struct world {
    T el[MAXO][MAXI];
    u32 size[MAXO];
    unsigned n;
    unsigned cap[MAXO], cnt[MAXO];
    bool fixed;
    vecmem::data::vector_view<T> inner[MAXO + 1];
    world() {
        n = big ? MAXO : vf_pick("outer", (unsigned)vf_param("maxOuter", 2) + 1);
        fixed = vf_pick("fixed", 2);
        for (unsigned i = 0; i < n; ++i) {
            cap[i] = big ? (i * 2 + 1) % 3 : vf_pick("inner", MAXI + 1);
            cnt[i] = fixed ? cap[i] : big ? i % (cap[i] + 1) : vf_pick("size", cap[i] + 1);
            size[i] = cnt[i];
            for (unsigned k = 0; k < MAXI; ++k)
                el[i][k] = T(big && i % 7 ? i * 0x4321 + k : fresh_value<T>());
            inner[i] = fixed ? vecmem::data::vector_view<T>(cap[i], el[i]) : vecmem::data::vector_view<T>(cap[i], &size[i], el[i]);
        }
    }
    vecmem::data::jagged_vector_view<T> view() { return vecmem::data::jagged_vector_view<T>(n, inner); }
    // does d show inner vector i?
    template <class D>
    bool shows(const D &d, unsigned i) {
        bool ok = int(d.data() == el[i]) & int(d.capacity() == cap[i]) & int(d.size() == cnt[i]);
        for (unsigned k = 0; k < cnt[i]; ++k)
            ok &= int(&d[k] == &el[i][k]) & int(val(d[k]) == val(el[i][k]));
        return ok;
    }
};

// the laws of random access iterators for `it0` in a sequence of n, at(i) telling
// whether what an iterator yields is what stands at i
template <class It, class At>
void iterator_laws(It it0, It end, unsigned n, At at) {
    using diff = std::ptrdiff_t;
    bool ok = true;
    for (unsigned i = 0; i <= n; ++i) {
        It a = it0 + (diff)i;
        It b = it0;
        b += (diff)i;
        ok &= int(a == b) & int(!(a != b));
        ok &= int((a == it0) == (i == 0)) & int((a == end) == (i == n)) & int((a != end) == (i != n));
        ok &= int(a - (diff)i == it0);
        It c = a;
        c -= (diff)i;
        ok &= c == it0;
        It d;
        d = a;
        ok &= d == a;
        It &self = d;
        d = self;
        ok &= d == a;
        if (i < n) {
            ok &= at(*a, i) & at(it0[(diff)i], i);
            ok &= int(a->data() == (*a).data()) & int(a->size() == (*a).size()) & int(a->capacity() == (*a).capacity());
            It e = a;
            It f = e++;
            ok &= int(f == a) & int(e == it0 + (diff)(i + 1));
            It g = a;
            It &h = ++g;
            ok &= int(&h == &g) & int(g == e);
            It k = g--;
            ok &= int(k == e) & int(g == a);
            It &l = --e;
            ok &= int(&l == &e) & int(e == a);
        }
        for (unsigned j = 0; j <= n; ++j) {
            It z = a + ((diff)j - (diff)i);
            ok &= int((z == a) == (i == j)) & int(z == it0 + (diff)j);
            if (j < n && i < n)
                ok &= at(a[(diff)j - (diff)i], j);
        }
    }
    expect(ok, "iterator-laws");
}
template <class T>
void jagged_device_t() {
    world<T> w;
    using J = vecmem::jagged_device_vector<T>;
    using CJ = vecmem::jagged_device_vector<const T>;
    vecmem::data::vector_view<T> other[1];
    vecmem::data::jagged_vector_view<T> view = w.view();
    J v(view);
    const unsigned n = w.n;
    auto judge = [&](J &j) {
        const J &c = j;
        expect(j.size() == n && j.max_size() == n && j.capacity() == n && j.empty() == (n == 0), "size");
        bool ok = true;
        for (unsigned i = 0; i < n; ++i)
            ok &= int(w.shows(j[i], i)) & int(w.shows(j.at(i), i)) & int(w.shows(c[i], i)) & int(w.shows(c.at(i), i));
        expect(ok, "indexing");
        if (n) {
            expect(int(w.shows(j.front(), 0)) & int(w.shows(c.front(), 0)), "front");
            expect(int(w.shows(j.back(), n - 1)) & int(w.shows(c.back(), n - 1)), "back");
        }
        auto fwd = [&](auto &&d, unsigned i) { return w.shows(d, i); };
        auto bwd = [&](auto &&d, unsigned i) { return w.shows(d, n - 1 - i); };
        iterator_laws(j.begin(), j.end(), n, fwd);
        iterator_laws(c.begin(), c.end(), n, fwd);
        iterator_laws(c.cbegin(), c.cend(), n, fwd);
        iterator_laws(j.rbegin(), j.rend(), n, bwd);
        iterator_laws(c.rbegin(), c.rend(), n, bwd);
        iterator_laws(c.crbegin(), c.crend(), n, bwd);
        expect(j.rbegin().base() == j.end() && c.rend().base() == c.begin(), "reverse-base");
        // conversion to constant iterators
        typename J::const_iterator ci(j.begin());
        expect(ci == c.begin(), "to-const-iterator");
        typename J::const_reverse_iterator cri(j.rbegin());
        expect(cri == c.rbegin(), "to-const-iterator");
        for (auto it = j.begin(); it != j.end(); ++it)
            expect(it->size() == (*it).size(), "arrow");
    };
    judge(v);
    switch (vf_param("use", 4) < 4 ? vf_param("use", 4) : vf_pick("use", 4)) {
        case 0: {
            J copy(v);
            judge(copy);
            break;
        }
        case 1: {
            J copy(vecmem::data::jagged_vector_view<T>(1, other));
            copy = v;
            judge(copy);
            J &self = copy;
            copy = self;
            judge(copy);
            break;
        }
        case 2: {  // through a view of constant elements
            CJ c{vecmem::data::jagged_vector_view<const T>(view)};
            bool ok = true;
            for (unsigned i = 0; i < n; ++i)
                ok &= int(w.shows(c[i], i)) & int(w.shows(const_cast<const CJ &>(c).at(i), i));
            expect(ok, "indexing");
            iterator_laws(c.begin(), c.end(), n, [&](auto &&d, unsigned i) { return w.shows(d, i); });
            break;
        }
        default: {  // writing through an inner vector reaches just that element
            if (!n)
                break;
            unsigned i = some("i", n - 1);
            if (!w.fixed && w.cnt[i] < w.cap[i]) {
                u32 x = fresh_value<T>();
                auto d = vf_pick("at", 2) ? v.at(i) : *(v.begin() + i);
                d.push_back(T(x));
                w.cnt[i]++;
                expect(w.size[i] == w.cnt[i] && val(w.el[i][w.cnt[i] - 1]) == x, "append-to-inner");
            }
            judge(v);
        }
    }
    vf_cover("judged");
}

// ------------------------------------------------------------------ views
template <class T>
void views_t() {
    using V = vecmem::data::vector_view<T>;
    using C = vecmem::data::vector_view<const T>;
    u32 counters[2];
    counters[0] = (u32)vf_sym("size", 32);
    counters[1] = (u32)vf_sym("size", 32);
    T *p[2];
    u32 cap[2];
    unsigned s[2];
    for (int i = 0; i < 2; ++i) {
        p[i] = (T *)ptr(vf_sym("ptr", 64));
        cap[i] = (u32)vf_sym("capacity", 32);
        s[i] = vf_pick("counter", 3);
    }
    auto make = [&](int i) { return s[i] == 2 ? V(cap[i], p[i]) : V(cap[i], &counters[s[i]], p[i]); };
    auto is = [&](auto &v, int i, const char *id) {
        const auto &cv = v;
        bool ok = int(v.capacity() == cap[i]) & int(cv.capacity() == cap[i]) & int(v.ptr() == p[i]) & int(cv.ptr() == p[i]);
        const u32 *sp = s[i] == 2 ? nullptr : &counters[s[i]];
        ok &= int(v.size_ptr() == sp) & int(cv.size_ptr() == sp);
        ok &= int(cv.size() == (sp ? *sp : cap[i]));
        expect(ok, id);
    };
    V a = make(0), b = make(1);
    is(a, 0, "as-built"), is(b, 1, "as-built");
    const bool same = int(cap[0] == cap[1]) & int(p[0] == p[1]) & int(s[0] == s[1]);
    C ca(a), cb;
    cb = b;
    is(ca, 0, "to-const"), is(cb, 1, "to-const");
    expect((a == b) == same && (b == a) == same && (a != b) == !same, "equality");
    expect((ca == cb) == same && (ca == b) == same && (a == cb) == same && (ca != b) == !same && (a != cb) == !same, "equality-const");
    V x(a);
    C cx(ca);
    is(x, 0, "copied"), is(cx, 0, "copied");
    x = b;
    cx = cb;
    is(x, 1, "assigned"), is(cx, 1, "assigned");
    expect(x == b && !(x != b) && cx == cb && cx == x, "equal-to-its-copy");
    V m(std::move(x));
    is(m, 1, "moved");
    is(a, 0, "source-unchanged"), is(b, 1, "source-unchanged");
    vf_cover("compared");

    // jagged views
    using J = vecmem::data::jagged_vector_view<T>;
    using CJ = vecmem::data::jagged_vector_view<const T>;
    V *jp[2], *jh[2];
    u64 n[2];
    bool h[2];
    for (int i = 0; i < 2; ++i) {
        n[i] = vf_sym("outer", 64);
        jp[i] = (V *)ptr(vf_sym("ptr", 64));
        jh[i] = (V *)ptr(vf_sym("ptr", 64));
        h[i] = vf_pick("host", 2);
        if (h[i])
            vf_assume(addr(jh[i]) != 0);
        else
            jh[i] = jp[i];
    }
    auto jmake = [&](int i) { return h[i] ? J(n[i], jp[i], jh[i]) : J(n[i], jp[i]); };
    auto jis = [&](auto &v, int i, const char *id) {
        const auto &cv = v;
        bool ok = int(cv.size() == n[i]) & int(cv.capacity() == n[i]);
        ok &= int((void *)v.ptr() == (void *)jp[i]) & int((const void *)cv.ptr() == (void *)jp[i]);
        ok &= int((void *)v.host_ptr() == (void *)jh[i]) & int((const void *)cv.host_ptr() == (void *)jh[i]);
        expect(ok, id);
    };
    J ja = jmake(0), jb = jmake(1);
    jis(ja, 0, "as-built"), jis(jb, 1, "as-built");
    CJ jca(ja), jcb;
    jcb = jb;
    jis(jca, 0, "to-const"), jis(jcb, 1, "to-const");
    const bool js = int(n[0] == n[1]) & int(jp[0] == jp[1]) & int(jh[0] == jh[1]);
    expect((ja == jb) == js && (jb == ja) == js && (ja != jb) == !js, "equality");
    expect((jca == jcb) == js && (jca == jb) == js && (ja == jcb) == js && (jca != jb) == !js, "equality-const");
    J jx(ja);
    CJ jcx(jca);
    jis(jx, 0, "copied"), jis(jcx, 0, "copied");
    jx = jb;
    jcx = jcb;
    jis(jx, 1, "assigned"), jis(jcx, 1, "assigned");
    expect(jx == jb && !(jx != jb) && jcx == jx, "equal-to-its-copy");
    jis(ja, 0, "source-unchanged"), jis(jb, 1, "source-unchanged");
}

// memory that really exists, for containers
struct real_mr : std::pmr::memory_resource {
    int live = 0, allocs = 0;
    void *do_allocate(std::size_t n, std::size_t a) override {
        ++live, ++allocs;
        return vf_malloc(n, a, VF_HARNESS);
    }
    void do_deallocate(void *p, std::size_t, std::size_t) override {
        --live;
        vf_free(p, VF_HARNESS);
    }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};
template <class T, class JV>
void describes(JV &&d, unsigned n, const T *const *p, const unsigned *k) {
    expect(d.size() == n && d.capacity() == n, "outer-size");
    expect(d.ptr() == d.host_ptr(), "one-set-of-descriptors");
    bool ok = true;
    for (unsigned i = 0; i < n; ++i) {
        const auto &v = d.host_ptr()[i];
        ok &= int(v.size() == k[i]) & int(v.capacity() == k[i]) & int(v.size_ptr() == nullptr) & int(k[i] == 0 || v.ptr() == p[i]);
    }
    expect(ok, "inner-views");
}
template <class T>
void hosts_t() {
    real_mr mr, mr2;
    {
        constexpr unsigned most = big ? VF_CAP : 3;
        const unsigned n = some("outer", most);
        unsigned k[most + 1];
        const T *p[most + 1];
        vecmem::jagged_vector<T> j(n, &mr);
        std::vector<std::vector<T>> s(n);
        const bool plain = vf_pick("plain", 2);
        for (unsigned i = 0; i < n; ++i) {
            k[i] = big ? i * i % 3 : vf_pick("inner", 3);
            for (unsigned e = 0; e < k[i]; ++e) {
                T x = T(big && i % 7 ? i * 0x4321 + e : fresh_value<T>());
                if (plain)
                    s[i].push_back(x);
                else
                    j[i].push_back(x);
            }
            p[i] = plain ? s[i].data() : j[i].data();
            // the one-dimensional views
            if (plain) {
                auto v = vecmem::get_data(s[i]);
                auto c = vecmem::get_data(const_cast<const std::vector<T> &>(s[i]));
                expect(v.size() == k[i] && v.capacity() == k[i] && !v.size_ptr() && v.ptr() == p[i] && c == v, "vector-view");
            } else {
                auto v = vecmem::get_data(j[i]);
                auto c = vecmem::get_data(const_cast<const vecmem::vector<T> &>(j[i]));
                expect(v.size() == k[i] && v.capacity() == k[i] && !v.size_ptr() && v.ptr() == p[i] && c == v, "vector-view");
            }
        }
        const int live = mr.live;
        if (plain) {
            auto d = vecmem::get_data(s, &mr);
            describes<T>(d, n, p, k);
            auto c = vecmem::get_data(const_cast<const std::vector<std::vector<T>> &>(s), &mr2);
            describes<T>(c, n, p, k);
            auto m = std::move(d);
            describes<T>(m, n, p, k);
            expect(mr2.live == (n ? 1 : 0), "given-resource-used");
        } else {
            const bool other = vf_pick("other", 2);
            auto d = vecmem::get_data(j, other ? &mr2 : nullptr);
            describes<T>(d, n, p, k);
            expect(mr2.live == (other && n ? 1 : 0) && mr.live == live + (!other && n ? 1 : 0), "given-resource-used");
            auto c = vecmem::get_data(const_cast<const vecmem::jagged_vector<T> &>(j), other ? &mr2 : nullptr);
            describes<T>(c, n, p, k);
            auto m = std::move(d);
            describes<T>(m, n, p, k);
            vecmem::data::jagged_vector_data<T> e;
            expect(e.size() == 0, "empty-data");
            e = std::move(m);
            describes<T>(e, n, p, k);
            vecmem::data::jagged_vector_view<T> &gv = vecmem::get_data(e);
            expect(&gv == &e, "get_data");
        }
        expect(mr.live == live && mr2.live == 0, "descriptors-returned");
    }
    expect(mr.live == 0 && mr2.live == 0, "everything-returned");
    vf_cover("described");
}
}  // namespace
VF_HARNESS_FN(jagged_device) { vf_param("type", 0) ? jagged_device_t<pod3>() : jagged_device_t<u32>(); }
VF_HARNESS_FN(views) { vf_param("type", 0) ? views_t<pod3>() : views_t<u32>(); }
VF_HARNESS_FN(host_views) { vf_param("type", 0) ? hosts_t<pod3>() : hosts_t<u32>(); }
