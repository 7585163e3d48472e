// E05: the device-usable tuple.
#include <tuple>
#include <utility>
#include <vecmem/utils/tuple.hpp>

#include "tracked.hpp"
using namespace vfh;
using u8 = unsigned char;
using u16 = uint16_t;

namespace {
using vecmem::get;
using vecmem::make_tuple;
using vecmem::tuple;
using vfh::val;

// a value of each type, from an unknown
template <class T>
struct maker {
    static T of(u32 x) { return static_cast<T>(x * 0x100000001ull); }
    static u64 to(const T &t) { return t; }
};
template <int A>
struct maker<tracked<A>> {
    static tracked<A> of(u32 x) { return tracked<A>(x); }
    static u64 to(const tracked<A> &t) { return val(t); }
};
template <>
struct maker<pod3> {
    static pod3 of(u32 x) { return pod3(x); }
    static u64 to(const pod3 &t) { return val(t); }
};
struct moved_only {
    u32 v = 0;
    moved_only() = default;
    explicit moved_only(u32 x) : v(x) {}
    moved_only(moved_only &&o) noexcept : v(o.v) { o.v = 0; }
    moved_only &operator=(moved_only &&o) noexcept {
        v = o.v;
        o.v = 0;
        return *this;
    }
};

template <class... T>
struct shape {
    static constexpr std::size_t N = sizeof...(T);
    using tup = tuple<T...>;
    using idx = std::index_sequence_for<T...>;
    u32 in[N];
    template <std::size_t I>
    using at = std::tuple_element_t<I, std::tuple<T...>>;
    template <std::size_t I>
    at<I> mk() const { return maker<at<I>>::of(in[I]); }
    template <std::size_t... I>
    tup build(std::index_sequence<I...>) const { return tup(mk<I>()...); }
    template <std::size_t... I>
    tup deduced(std::index_sequence<I...>) const {
        expect(std::is_same<decltype(make_tuple(mk<I>()...)), tup>::value, "deduced-types");
        return make_tuple(mk<I>()...);
    }
    template <class X, std::size_t... I>
    void is(X &t, const u32 *want, const char *id, std::index_sequence<I...>) const {
        bool ok = true;
        ((ok &= maker<std::decay_t<decltype(get<I>(t))>>::to(get<I>(t)) == maker<at<I>>::to(maker<at<I>>::of(want[I]))), ...);
        expect(ok, id);
        const X &c = t;
        ok = true;
        ((ok &= maker<std::decay_t<decltype(get<I>(c))>>::to(get<I>(c)) == maker<at<I>>::to(maker<at<I>>::of(want[I]))), ...);
        ((ok &= int((const void *)&get<I>(c) == (const void *)&get<I>(t))), ...);
        ((ok &= int(std::is_same<vecmem::tuple_element_t<I, tup>, at<I>>::value) & int(std::is_same<std::decay_t<decltype(get<I>(t))>, at<I>>::value)), ...);
        expect(ok, id);
        // the elements lie inside the tuple, apart from each other
        u64 a[N] = {(u64)&get<I>(t)...}, n[N] = {sizeof(at<I>)...};
        ok = true;
        for (std::size_t i = 0; i < N; ++i) {
            ok &= int(a[i] >= (u64)&t) & int(a[i] + n[i] <= (u64)&t + sizeof(t));
            for (std::size_t k = 0; k < i; ++k)
                ok &= int(a[i] + n[i] <= a[k]) | int(a[k] + n[k] <= a[i]);
        }
        expect(ok, "elements-apart");
    }
    template <std::size_t... I>
    void write(tup &t, unsigned which, u32 x, std::index_sequence<I...>) const {
        ((I == which ? (void)(get<I>(t) = maker<at<I>>::of(x)) : (void)0), ...);
    }
    template <std::size_t... I>
    static void tied(tup &t, const shape &s, std::index_sequence<I...>) {
        auto r = vecmem::tie(get<I>(t)...);
        bool ok = std::is_same<decltype(r), tuple<T &...>>::value;
        ((ok &= int((void *)&get<I>(r) == (void *)&get<I>(t))), ...);
        const auto &c = r;
        ((ok &= int((const void *)&get<I>(c) == (const void *)&get<I>(t))), ...);
        auto copy = r;
        ((ok &= int((void *)&get<I>(copy) == (void *)&get<I>(t))), ...);
        expect(ok, "tied-references-alias");
        ((get<I>(r) = s.template mk<I>()), ...);
        s.is(t, s.in, "written-through-references", idx{});
    }
    void run(bool deduce) {
        for (u32 &x : in)
            x = (u32)vf_sym("element", 32);
        {
            tup t(deduce ? deduced(idx{}) : build(idx{}));
            is(t, in, "elements-kept", idx{});
            switch (vf_pick("then", 7)) {
                case 0: {  // write one
                    unsigned w = vf_pick("which", N);
                    u32 x = (u32)vf_sym("new", 32);
                    write(t, w, x, idx{});
                    u32 want[N];
                    for (std::size_t i = 0; i < N; ++i)
                        want[i] = i == w ? x : in[i];
                    is(t, want, "one-element-written", idx{});
                    vf_cover("written");
                    break;
                }
                case 1: {
                    tup c(t);
                    u32 x = (u32)vf_sym("new", 32);
                    is(c, in, "copy-equals", idx{});
                    write(t, 0, x, idx{});
                    is(c, in, "copy-is-separate", idx{});
                    vf_cover("copied");
                    break;
                }
                case 2: {
                    const tup k(t);
                    tup c(k);
                    is(c, in, "copy-equals", idx{});
                    tup d(std::move(c));
                    is(d, in, "moved-equals", idx{});
                    break;
                }
                case 3: {
                    shape o;
                    for (u32 &x : o.in)
                        x = (u32)vf_sym("other", 32);
                    tup c(o.build(idx{}));
                    c = t;
                    is(c, in, "assigned-equals", idx{});
                    is(t, in, "source-of-assignment-kept", idx{});
                    c = o.build(idx{});
                    is(c, o.in, "move-assigned-equals", idx{});
                    vf_cover("assigned");
                    break;
                }
                case 4: {
                    shape o;
                    for (u32 &x : o.in)
                        x = (u32)vf_sym("other", 32);
                    tied(t, o, idx{});
                    vf_cover("tied");
                    break;
                }
                case 5: {  // head and tail
                    if constexpr (N > 1) {
                        joined(std::make_index_sequence<N - 1>{});
                        vf_cover("joined");
                    }
                    break;
                }
                default: {
                    tup c(t), d(t);
                    c = d;
                    d = c;
                    is(d, in, "assigned-equals", idx{});
                    d = static_cast<tup &>(d);
                    is(d, in, "self-assigned", idx{});
                }
            }
        }
        expect(aliveNow() == 0, "lifetimes-balanced");
    }
    template <std::size_t... I>
    void joined(std::index_sequence<I...>) const {
        tup t(mk<0>(), make_tuple(mk<I + 1>()...));
        is(t, in, "joined-from-head-and-tail", idx{});
    }
};
}  // namespace

VF_HARNESS_FN(tuple_shapes) {
    const bool d = vf_pick("make_tuple", 2);
    switch (vf_param("shape", 0)) {
        case 0: shape<u32>().run(d); break;
        case 1: shape<u8, u64>().run(d); break;
        case 2: shape<u32, u8, u32, u16>().run(d); break;
        case 3: shape<tracked<4>, u8, tracked<16>>().run(d); break;
        case 4: shape<pod3, u64, pod3, u8, u32>().run(d); break;
        case 5: shape<tracked<4>>().run(d); break;
        case 6: shape<u64, u64, u64, u64, u64, u64, u64>().run(d); break;
        case 7: shape<u32, u8, u64, u16, u32, u8, u64, u16, u32, u8, u64, u16>().run(d); break;
        case 8: shape<u8, u8, u8, u8, u16, u8, u8, u8, u8, u16, u8, u8, u8, u8, u16, u8, u8, u8, u8, u16>().run(d); break;
    }
}
// Elements that show when they were moved from.
namespace {
struct shows {
    u32 v = 0;
    bool lost = false;
    shows() = default;
    explicit shows(u32 x) : v(x) {}
    shows(const shows &) = default;
    shows(shows &&o) noexcept : v(o.v), lost(o.lost) {
        o.v = 0xdead;
        o.lost = true;
    }
    shows &operator=(const shows &) = default;
    shows &operator=(shows &&o) noexcept {
        if (this != &o) {
            v = o.v;
            lost = o.lost;
            o.v = 0xdead;
            o.lost = true;
        }
        return *this;
    }
    bool is(u32 x) const { return int(v == x) & int(!lost); }
};
struct from_shows {  // made from one
    u32 v = 0;
    from_shows() = default;
    from_shows(const shows &s) : v(s.v) {}
    from_shows(shows &&s) : v(s.v) {
        s.v = 0xdead;
        s.lost = true;
    }
};
}  // namespace
VF_HARNESS_FN(tuple_moves) {
    const u32 x = (u32)vf_sym("a", 32), y = (u32)vf_sym("b", 32), z = (u32)vf_sym("c", 32);
    shows a(x), b(y);
    const shows c(z);
    auto kept = [&] { expect(int(a.is(x)) & int(b.is(y)) & int(c.is(z)), "originals-kept"); };
    using three = tuple<shows, shows, shows>;
    auto is = [&](const three &t) { expect(int(get<0>(t).is(x)) & int(get<1>(t).is(y)) & int(get<2>(t).is(z)), "elements-kept"); };
    switch (vf_pick("what", 13)) {
        case 0: is(three(a, b, c)); break;
        case 1: is(make_tuple(a, b, c)); break;
        case 2: is(vecmem::tie(a, b, c)); break;
        case 3: {
            three t = vecmem::tie(a, b, c);
            is(t);
            t = vecmem::tie(a, b, c);
            is(t);
            break;
        }
        case 4: {
            auto r = vecmem::tie(a, b, c);
            is(three(r));
            is(three(std::move(r)));
            const auto k = vecmem::tie(a, b, c);
            is(three(k));
            is(three(std::move(k)));
            break;
        }
        case 5: {
            three t(a, b, c);
            three u(t);
            is(t);
            is(u);
            const three k(t);
            three w(k);
            is(k);
            is(w);
            u = t;
            w = k;
            is(t);
            is(k);
            is(u);
            is(w);
            break;
        }
        case 6: {  // what is given up is moved in
            three t(std::move(a), b, c);
            is(t);
            expect(a.lost, "given-up-is-moved");
            a = shows(x);
            auto u = make_tuple(a, std::move(b), c);
            is(u);
            expect(b.lost, "given-up-is-moved");
            b = shows(y);
            break;
        }
        case 7: {  // head and tail
            tuple<shows, shows, shows> t(a, tuple<shows, shows>(b, c));
            is(t);
            tuple<shows, shows, shows> u(a, make_tuple(b, c));
            is(u);
            break;
        }
        case 8: {  // references kept through copies of any kind
            tuple<shows &, const shows &> r(a, c);
            auto q = r;
            auto p = std::move(r);
            expect(int(&get<0>(q) == &a) & int(&get<1>(q) == &c) & int(&get<0>(p) == &a) & int(&get<1>(p) == &c), "references-alias");
            tuple<const shows &, const shows &> k(q);
            expect(int(&get<0>(k) == &a) & int(&get<1>(k) == &c), "references-alias");
            break;
        }
        case 9: {  // another element type
            three t(a, b, c);
            tuple<from_shows, from_shows, from_shows> w(t);
            is(t);
            expect(int(get<0>(w).v == x) & int(get<1>(w).v == y) & int(get<2>(w).v == z), "converted");
            tuple<from_shows, from_shows, from_shows> v = vecmem::tie(a, b, c);
            expect(int(get<0>(v).v == x) & int(get<1>(v).v == y) & int(get<2>(v).v == z), "converted");
            tuple<from_shows, from_shows> u(a, c);
            expect(int(get<0>(u).v == x) & int(get<1>(u).v == z), "converted");
            break;
        }
        case 10: {  // assignment through references
            three t(a, b, c);
            auto r = vecmem::tie(a, b);
            get<0>(r) = get<1>(t);
            expect(a.is(y), "written-through-references");
            is(t);
            get<0>(r) = shows(x);
            break;
        }
        case 11: {  // reading takes nothing away
            three t(a, b, c);
            shows d = get<0>(t), e = get<1>(static_cast<const three &>(t));
            expect(int(d.is(x)) & int(e.is(y)), "elements-kept");
            is(t);
            break;
        }
        default: {
            three t(a, b, c);
            three u(std::move(t));
            is(u);
            three w(a, a, a);
            w = std::move(u);
            is(w);
        }
    }
    kept();
    vf_cover("kept");
}
// conversions, references, move-only and nested elements
VF_HARNESS_FN(tuple_mixed) {
    u32 a = (u32)vf_sym("a", 32), b = (u32)vf_sym("b", 32);
    u64 c = vf_sym("c", 64);
    switch (vf_pick("what", 8)) {
        case 0: {  // other element types
            tuple<u32, u16, u64> t(a, (u16)b, c);
            tuple<u64, u32, u32> w(t);
            expect(int(get<0>(w) == a) & int(get<1>(w) == (u16)b) & int(get<2>(w) == (u32)c), "converted");
            tuple<u32, u8> n(tuple<u64, u32>(c, b));
            expect(int(get<0>(n) == (u32)c) & int(get<1>(n) == (u8)b), "converted");
            w = tuple<u32, u16, u64>(b, (u16)a, c);
            expect(int(get<0>(w) == b) & int(get<1>(w) == (u16)a) & int(get<2>(w) == (u32)c), "converted");
            break;
        }
        case 1: {  // pointers gain const
            tuple<u32 *, u64 *> t(&a, &c);
            tuple<const u32 *, const u64 *> k(t);
            expect(get<0>(k) == &a && get<1>(k) == &c, "pointers-kept");
            const auto &r = k;
            expect(get<0>(r) == &a && get<1>(r) == &c, "pointers-kept");
            break;
        }
        case 2: {  // references
            u32 x = a, y = b;
            tuple<u32 &, const u32 &, u64> t(x, y, c);
            expect(int(&get<0>(t) == &x) & int(&get<1>(t) == &y) & int(&get<2>(t) != &c), "references-alias");
            get<0>(t) = b;
            y = a;
            expect(int(x == b) & int(get<1>(t) == a) & int(get<2>(t) == c), "references-alias");
            auto u = t;
            expect(int(&get<0>(u) == &x) & int(&get<1>(u) == &y) & int(get<2>(u) == c), "references-alias");
            tuple<u32, u32, u64> v(t);
            get<0>(t) = 7;
            expect(int(get<0>(v) == b) & int(get<1>(v) == a) & int(get<2>(v) == c), "values-from-references");
            const u32 k = a;
            auto w = vecmem::tie(k, x);
            expect(&get<0>(w) == &k && &get<1>(w) == &x, "tied-constant");
            break;
        }
        case 7: {  // references gain const; values can be referred to
            u32 x = a, y = b;
            auto t = vecmem::tie(x, c, y);
            tuple<const u32 &, const u64 &, const u32 &> k(t);
            expect(int(&get<0>(k) == &x) & int(&get<1>(k) == &c) & int(&get<2>(k) == &y), "references-alias");
            tuple<const u32 &, u64, const u32 &> m(t);
            expect(int(&get<0>(m) == &x) & int(get<1>(m) == c) & int(&get<1>(m) != &c) & int(&get<2>(m) == &y), "references-alias");
            tuple<const u32 &, const u64 &, const u32 &> n(k);
            expect(int(&get<0>(n) == &x) & int(&get<1>(n) == &c) & int(&get<2>(n) == &y), "references-alias");
            x = b;
            expect(int(get<0>(k) == b) & int(get<0>(m) == b), "references-alias");
            break;
        }
        case 3: {  // elements that can only be moved
            tuple<moved_only, u32> t(moved_only(a), b);
            expect(int(get<0>(t).v == a) & int(get<1>(t) == b), "moved-in");
            tuple<moved_only, u32> u(std::move(t));
            expect(int(get<0>(u).v == a) & int(get<1>(u) == b) & int(get<0>(t).v == 0), "moved-on");
            auto w = make_tuple(std::move(get<0>(u)), std::move(c));
            expect(int(get<0>(w).v == a) & int(get<1>(w) == c) & int(get<0>(u).v == 0), "moved-in");
            t = std::move(u);
            break;
        }
        case 4: {  // make_tuple copies what it is given
            u32 x = a;
            const u64 y = c;
            u8 arr[2] = {1, 2};
            auto t = make_tuple(x, y, arr);
            x = b;
            expect(int(std::is_same<decltype(t), tuple<u32, u64, u8 *>>::value) & int(get<0>(t) == a) & int(get<1>(t) == c) & int(get<2>(t) == arr), "copied-in");
            break;
        }
        case 5: {  // tuples of tuples
            auto t = make_tuple(make_tuple(a, c), b);
            expect(std::is_same<decltype(t), tuple<tuple<u32, u64>, u32>>::value, "nested");
            expect(int(get<0>(get<0>(t)) == a) & int(get<1>(get<0>(t)) == c) & int(get<1>(t) == b), "nested");
            auto u = t;
            get<1>(get<0>(u)) = a;
            expect(int(get<1>(get<0>(u)) == a) & int(get<1>(get<0>(t)) == c) & int(get<1>(u) == b), "nested");
            break;
        }
        default: {
            tuple<> e, f(e);
            (void)f;
            tuple<u32, u8> z{};
            expect(int(get<0>(z) == 0) & int(get<1>(z) == 0), "value-initialised");
            constexpr tuple<u32, u8> k(5u, (u8)6);
            constexpr bool known = get<0>(k) == 5 && get<1>(k) == 6;
            expect(known, "constant");
        }
    }
    vf_cover("mixed");
}
