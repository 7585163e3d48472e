// C04, C05: device_vector.
#include <utility>
#include <vecmem/containers/device_vector.hpp>

#include "tracked.hpp"
using namespace vfh;

namespace {
constexpr unsigned MAXCAP = VF_CAP;
using M = seq<MAXCAP + 1>;
// raw storage with red zones, all bytes known
template <class T>
struct arena {
    struct alignas(64) bytes {
        u64 before[4];
        u32 size_before;
        u32 size;
        u32 size_after, pad;
        u64 between[4];
        alignas(T) unsigned char el[MAXCAP * sizeof(T)];
        u64 after[4];
    };
    bytes *m, *copy;
    unsigned cap, n;
    arena() {
        m = (bytes *)vf_malloc(sizeof(bytes), 64, VF_HARNESS);
        copy = (bytes *)vf_malloc(sizeof(bytes), 64, VF_HARNESS);
        auto fill = [](bytes *p) {
            for (unsigned i = 0; i < sizeof(bytes); ++i)
                ((unsigned char *)p)[i] = (unsigned char)(0x40 + i % 77);
        };
        fill(m), fill(copy);
    }
    ~arena() {
        vf_free(m, VF_HARNESS);
        vf_free(copy, VF_HARNESS);
    }
    T *el() { return (T *)m->el; }
    // nothing outside the first `cap` elements and the counter has changed
    void untouched(const char *id) {
        bool ok = true;
        for (unsigned i = 0; i < 4; ++i)
            ok &= int(m->before[i] == copy->before[i]) & int(m->between[i] == copy->between[i]) & int(m->after[i] == copy->after[i]);
        ok &= int(m->size_before == copy->size_before) & int(m->size_after == copy->size_after);
        for (unsigned i = cap * sizeof(T); i < MAXCAP * sizeof(T); ++i)
            ok &= m->el[i] == copy->el[i];
        expect(ok, id);
    }
};
// source for assign from iterators that are not pointers
struct counter_it {
    using iterator_category = std::input_iterator_tag;
    using value_type = u32;
    using difference_type = std::ptrdiff_t;
    using pointer = const u32 *;
    using reference = const u32 &;
    const u32 *p;
    reference operator*() const { return *p; }
    counter_it &operator++() {
        ++p;
        return *this;
    }
    counter_it operator++(int) {
        auto c = *this;
        ++p;
        return c;
    }
    bool operator==(const counter_it &o) const { return p == o.p; }
    bool operator!=(const counter_it &o) const { return p != o.p; }
};

template <class T>
struct tester {
    using DV = vecmem::device_vector<T>;
    using CV = vecmem::device_vector<const T>;
    static constexpr bool plain = std::is_trivially_destructible<T>::value;
    static void same(DV &v, arena<T> &a, const M &m, bool it) {
        same_elements(v, m);
        same_elements(const_cast<const DV &>(v), m);
        if (it) {
            same_iteration(v, m);
            same_iteration(const_cast<const DV &>(v), m);
        }
        expect(v.capacity() == a.cap && v.max_size() == a.cap, "capacity");
        expect(v.data() == a.el() && const_cast<const DV &>(v).data() == a.el(), "data");
        bool ok = true;
        for (unsigned i = 0; i < m.n; ++i)
            ok &= int(&v[i] == a.el() + i) & int(&v.at(i) == a.el() + i) & int(&*(v.begin() + i) == a.el() + i);
        expect(ok, "the-view's-elements");
        a.untouched("outside-untouched");
        if (!plain)
            expect(aliveNow() == int(m.n), "exactly-the-elements-live");
    }
    static void step(DV &v, arena<T> &a, M &m, unsigned op) {
        const unsigned room = a.cap - m.n;
        auto need = [](bool c) {
            if (!c)
                vf_assume(0);
        };
        switch (op) {
            case 0: {
                need(room);
                u32 x = fresh_value<T>();
                expect(v.push_back(T(x)) == m.n, "push_back-position");
                m.insert(m.n, x);
                break;
            }
            case 1: {
                need(room);
                u32 x = fresh_value<T>();
                T &r = v.emplace_back(x);
                expect(&r == a.el() + m.n, "emplace_back-result");
                m.insert(m.n, x);
                break;
            }
            case 2: {  // an element of the vector itself
                need(room && m.n);
                unsigned k = some("own", m.n - 1);
                u32 x = m.v[k];
                expect(v.push_back(v[k]) == m.n, "push_back-position");
                m.insert(m.n, x);
                break;
            }
            case 3: {
                unsigned k = some("count", room);
                expect(v.bulk_append(k) == m.n, "bulk_append-position");
                m.insert(m.n, dflt<T>(), k);
                break;
            }
            case 4: {
                unsigned k = some("count", room);
                u32 x = fresh_value<T>();
                expect(v.bulk_append(k, T(x)) == m.n, "bulk_append-position");
                m.insert(m.n, x, k);
                break;
            }
            case 5: {
                need(m.n);
                expect(v.pop_back() == m.n - 1, "pop_back-result");
                m.n--;
                break;
            }
            case 6:
                v.clear();
                m.n = 0;
                break;
            case 7: {
                unsigned k = some("count", a.cap);
                v.resize(k);
                m.resize(k, dflt<T>());
                break;
            }
            case 8: {
                unsigned k = some("count", a.cap);
                u32 x = fresh_value<T>();
                v.resize(k, T(x));
                m.resize(k, x);
                break;
            }
            case 9: {
                unsigned k = some("count", a.cap);
                u32 x = fresh_value<T>();
                v.assign(k, T(x));
                m.n = 0;
                m.resize(k, x);
                break;
            }
            case 10: {
                unsigned k = some("count", a.cap);
                values<T, MAXCAP> src;
                v.assign((const T *)src, (const T *)src + k);
                m.n = 0;
                for (unsigned i = 0; i < k; ++i)
                    m.insert(i, val(src[i]));
                break;
            }
            case 11: {
                need(m.n);
                unsigned k = some("own", m.n - 1);
                u32 x = fresh_value<T>();
                switch (vf_pick("way", 6)) {
                    case 0: v[k] = T(x); break;
                    case 1: v.at(k) = T(x); break;
                    case 2: *(v.begin() + k) = T(x); break;
                    case 3: *(v.rbegin() + (m.n - 1 - k)) = T(x); break;
                    case 4:
                        need(k == 0);
                        v.front() = T(x);
                        break;
                    default:
                        need(k + 1 == m.n);
                        v.back() = T(x);
                }
                m.v[k] = x;
                break;
            }
            case 12: {  // a second device vector over the same memory
                DV w(v);
                if (room) {
                    u32 x = fresh_value<T>();
                    w.push_back(T(x));
                    m.insert(m.n, x);
                }
                same(w, a, m, false);
                break;
            }
            case 13: {
                need(m.n);
                unsigned k = some("count", a.cap);
                unsigned o = some("own", m.n - 1);
                need(k >= m.n);
                u32 x = m.v[o];
                v.resize(k, v[o]);
                m.resize(k, x);
                break;
            }
            case 14:
                implicit(v, a, m, std::is_trivial<T>());
                break;
        }
    }
    static void implicit(DV &, arena<T> &, M &, std::false_type) { vf_assume(0); }
    static void implicit(DV &v, arena<T> &a, M &m, std::true_type) {
        const unsigned n0 = m.n;
        switch (vf_pick("way", 5)) {
            case 0: {
                unsigned k = some("count", a.cap - m.n);
                expect(v.bulk_append_implicit(k) == n0, "bulk_append-position");
                m.n += k;
                break;
            }
            case 1: {
                unsigned k = some("count", a.cap - m.n);
                expect(v.bulk_append_implicit_unsafe(k) == n0, "bulk_append-position");
                m.n += k;
                break;
            }
            case 2: v.resize_implicit(m.n = some("count", a.cap)); break;
            case 3: v.resize_implicit_unsafe(m.n = some("count", a.cap)); break;
            default: {
                unsigned k = some("count", a.cap);
                u32 src[MAXCAP];
                for (unsigned i = 0; i < MAXCAP; ++i)
                    src[i] = nth_value<T>(i, MAXCAP);
                v.assign(counter_it{src}, counter_it{src + k});
                m.n = 0;
                for (unsigned i = 0; i < k; ++i)
                    m.insert(i, src[i]);
                return;
            }
        }
        expect(v.size() == m.n, "size");
        for (unsigned i = n0; i < m.n; ++i)
            m.v[i] = val(v[i]);  // whatever the memory held
    }
    static void start(arena<T> &a, M &m, bool resizable) {
        a.cap = big ? MAXCAP : vf_pick("capacity", (unsigned)vf_param("maxCap", MAXCAP) + 1);
        m.n = a.n = resizable ? some("size", a.cap) : a.cap;
        for (unsigned i = 0; i < m.n; ++i) {
            m.v[i] = nth_value<T>(i, m.n);
            new (a.el() + i) T(m.v[i]);
        }
        if (resizable)
            a.m->size = m.n;
    }
    static void finish(arena<T> &a, const M &m, bool resizable) {
        expect(a.m->size == (resizable ? m.n : a.copy->size), "shared-size");
        for (unsigned i = 0; i < m.n; ++i)
            a.el()[i].~T();
        if (!plain)
            expect(aliveNow() == 0, "exactly-the-elements-live");
        vf_cover("done");
    }
    static void history() {
        arena<T> a;
        M m;
        start(a, m, true);
        vecmem::data::vector_view<T> view(a.cap, &a.m->size, a.el());
        DV v(view);
        same(v, a, m, true);
        const unsigned n = (unsigned)vf_param("ops", 2);
        const u64 first = vf_param("first", 99);
        for (unsigned i = 0; i < n; ++i) {
            step(v, a, m, i == 0 && first < 99 ? (unsigned)first : vf_pick("op", 15));
            expect(a.m->size == m.n, "shared-size");
            same(v, a, m, i + 1 == n);
        }
        // another device vector made from the view now shows the same
        DV w(view);
        same(w, a, m, false);
        DV u(vecmem::data::vector_view<T>(0u, (T *)nullptr));
        u = w;
        same(u, a, m, false);
        DV &self = u;
        u = self;
        same(u, a, m, false);
        vecmem::data::vector_view<const T> cview(view);
        const CV c(cview);
        same_elements(c, m);
        same_iteration(c, m);
        expect(c.capacity() == a.cap, "capacity");
        finish(a, m, true);
    }
    static void fixed() {
        arena<T> a;
        M m;
        start(a, m, false);
        vecmem::data::vector_view<T> view(a.cap, a.el());
        DV v(view);
        same(v, a, m, true);
        for (unsigned i = 0; i < 2; ++i)
            if (m.n) {
                step(v, a, m, 11);
                same(v, a, m, true);
            }
        CV c{vecmem::data::vector_view<const T>(view)};
        same_elements(c, m);
        same_iteration(c, m);
        finish(a, m, false);
    }
    // Two memories, each with a counter of its own or of fixed size: device vectors
    // made, copied and assigned between them show, and change, only what they stand for.
    static void rebinding() {
        arena<T> a[2];
        M m[2];
        bool res[2];
        vecmem::data::vector_view<T> view[2];
        for (int i = 0; i < 2; ++i) {
            res[i] = vf_pick("resizable", 2);
            start(a[i], m[i], res[i]);
            if (res[i])
                view[i] = vecmem::data::vector_view<T>(a[i].cap, &a[i].m->size, a[i].el());
            else
                view[i] = vecmem::data::vector_view<T>(a[i].cap, a[i].el());
        }
        DV v0(view[0]), v1(view[1]);
        DV *v[2] = {&v0, &v1};
        unsigned at[2] = {0, 1};
        const unsigned n = (unsigned)vf_param("ops", 1);
        for (unsigned i = 0; i < n; ++i) {
            const unsigned w = vf_pick("which", 2);
            switch (vf_pick("op", 5)) {
                case 0:
                    *v[w] = *v[1 - w];
                    at[w] = at[1 - w];
                    break;
                case 1: {
                    const unsigned k = vf_pick("memory", 2);
                    *v[w] = DV(view[k]);
                    at[w] = k;
                    break;
                }
                case 2: {
                    DV &self = *v[w];
                    *v[w] = self;
                    break;
                }
                case 3: {  // a copy that then goes elsewhere leaves the original alone
                    DV c(*v[w]);
                    look(c, a, m, at[w]);
                    c = *v[1 - w];
                    look(c, a, m, at[1 - w]);
                    break;
                }
                default:
                    change(*v[w], a, m, res, at[w]);
            }
            for (int k = 0; k < 2; ++k)
                look(*v[k], a, m, at[k]);
            for (int k = 0; k < 2; ++k)
                expect(a[k].m->size == (res[k] ? m[k].n : a[k].copy->size), "shared-size");
        }
        for (int k = 0; k < 2; ++k) {
            look(*v[k], a, m, at[k]);
            change(*v[k], a, m, res, at[k]);
            look(*v[k], a, m, at[k]);
        }
        for (int k = 0; k < 2; ++k) {
            a[k].untouched("outside-untouched");
            expect(a[k].m->size == (res[k] ? m[k].n : a[k].copy->size), "shared-size");
            for (unsigned i = 0; i < m[k].n; ++i)
                a[k].el()[i].~T();
        }
        if (!plain)
            expect(aliveNow() == 0, "exactly-the-elements-live");
        vf_cover("done");
    }
    static void look(DV &v, arena<T> *a, const M *m, unsigned at) {
        same_elements(v, m[at]);
        expect(v.capacity() == a[at].cap && v.max_size() == a[at].cap, "capacity");
        expect(v.data() == a[at].el() && const_cast<const DV &>(v).data() == a[at].el(), "data");
        expect(v.empty() == (m[at].n == 0), "empty");
        expect(v.end() - v.begin() == (std::ptrdiff_t)m[at].n, "iteration-length");
    }
    static void change(DV &v, arena<T> *a, M *m, const bool *res, unsigned at) {
        const u32 x = fresh_value<T>();
        if (res[at] && m[at].n < a[at].cap) {
            expect(v.push_back(T(x)) == m[at].n, "push_back-position");
            m[at].insert(m[at].n, x);
        } else if (res[at] && m[at].n) {
            v.pop_back();
            m[at].n--;
        } else if (m[at].n) {
            v[m[at].n - 1] = T(x);
            m[at].v[m[at].n - 1] = x;
        }
    }
};
struct plain4 {
    u32 x;
    plain4() = default;
    plain4(u32 v) : x(v) {}
};
}  // namespace
VF_HARNESS_FN(device_rebinding) {
    switch (vf_param("type", 0)) {
        case 0: tester<u32>::rebinding(); break;
        case 1: tester<tracked<4>>::rebinding(); break;
        case 2: tester<pod3>::rebinding(); break;
        case 3: tester<tracked<64>>::rebinding(); break;
    }
}
VF_HARNESS_FN(device_history) {
    switch (vf_param("type", 0)) {
        case 0: tester<u32>::history(); break;
        case 1: tester<tracked<4>>::history(); break;
        case 2: tester<pod3>::history(); break;
        case 3: tester<tracked<64>>::history(); break;
    }
}
VF_HARNESS_FN(device_fixed) {
    switch (vf_param("type", 0)) {
        case 0: tester<u32>::fixed(); break;
        case 1: tester<tracked<4>>::fixed(); break;
        case 2: tester<pod3>::fixed(); break;
        case 3: tester<tracked<64>>::fixed(); break;
    }
}

// C05: several threads append through device vectors of their own over the same memory.
namespace {
constexpr unsigned ROOM = 8;
template <class T>
struct job {
    struct {
        u64 before;
        u32 size, size_after;
        T el[ROOM];
        u64 after;
    } m;
    unsigned cap, ops, look;
    struct {
        unsigned way, count, at;
        u32 x;
    } h[5][3];
};
template <class T>
void appender(void *arg) {
    job<T> &j = *(job<T> *)arg;
    const int t = vf_tid();
    vecmem::device_vector<T> v(vecmem::data::vector_view<T>(j.cap, &j.m.size, j.m.el));
    for (unsigned i = 0; i < j.ops; ++i) {
        auto &o = j.h[t][i];
        switch (o.way) {
            case 0: o.at = v.push_back(T(o.x)); break;
            case 1: o.at = (unsigned)(&v.emplace_back(o.x) - j.m.el); break;
            case 2: o.at = v.bulk_append(o.count, T(o.x)); break;
            case 3: o.at = v.bulk_append(o.count); break;
            default:
                o.at = o.way == 4 ? v.bulk_append_implicit(o.count) : v.bulk_append_implicit_unsafe(o.count);
                for (unsigned k = 0; k < o.count; ++k)
                    v[o.at + k] = T(o.x + k);
        }
        // what was appended stays as it is while the others work
        for (unsigned k = 0; k < o.count; ++k)
            expect(val(j.m.el[o.at + k < ROOM ? o.at + k : 0]) == (o.way == 3 ? 0 : o.way > 3 ? o.x + k : o.x), "own-element");
        if (j.look)
            expect(v.size() >= o.at + o.count, "size-includes-own");
    }
}
template <class T>
void concurrent() {
    static job<T> *j;
    j = new job<T>();
    const unsigned T_ = (unsigned)vf_param("threads", 2);
    j->ops = (unsigned)vf_param("ops", 1);
    const unsigned maxCount = (unsigned)vf_param("maxCount", 2);
    j->look = (unsigned)vf_param("look", 1);
    j->m.before = j->m.after = 0x5151515151515151ull;
    j->m.size_after = 0x77777777;
    const unsigned n0 = vf_pick("size", 2);
    u32 first = (u32)vf_sym("old", 32);
    j->m.size = n0;
    for (unsigned i = 0; i < ROOM; ++i)
        j->m.el[i] = T(0x1234567 + i);
    j->m.el[0] = n0 ? T(first) : T(0x1234567);
    unsigned total = n0;
    const u64 set = vf_param("set", 63);
    for (unsigned t = 1; t <= T_; ++t)
        for (unsigned i = 0; i < j->ops; ++i) {
            auto &o = j->h[t][i];
            o.way = vf_pick("way", 6);
            if (!((set >> o.way) & 1))
                vf_assume(0);
            o.count = o.way < 2 || maxCount < 2 ? 1 : vf_pick("count", maxCount + 1);
            o.x = (u32)vf_sym("x", 32);
            total += o.count;
        }
    if (total > ROOM)
        vf_assume(0);
    // capacity exactly what is needed, or one more
    j->cap = total + (total < ROOM ? vf_pick("spare", 2) : 0);
    for (unsigned t = 0; t < T_; ++t)
        vf_spawn(appender<T>, j);
    vf_join();
    expect(j->m.size == total, "final-size");
    int owner[ROOM] = {};
    bool slots = true;
    for (unsigned t = 1; t <= T_; ++t)
        for (unsigned i = 0; i < j->ops; ++i) {
            auto &o = j->h[t][i];
            expect(o.at >= n0 && o.at + o.count <= total, "position-in-range");
            if (i)
                expect(o.at >= j->h[t][i - 1].at + j->h[t][i - 1].count, "own-appends-in-order");
            bool ok = true;
            for (unsigned k = 0; k < o.count; ++k) {
                slots &= owner[o.at + k]++ == 0;
                ok &= val(j->m.el[o.at + k]) == (o.way == 3 ? 0 : o.way > 3 ? o.x + k : o.x);
            }
            expect(ok, "appended-elements-at-their-position");
        }
    expect(slots, "distinct-slots");
    bool rest = true;
    for (unsigned i = 0; i < ROOM; ++i)
        if (i < n0)
            rest &= val(j->m.el[i]) == first;
        else if (i >= total)
            rest &= val(j->m.el[i]) == 0x1234567 + i;
    expect(rest, "other-elements-untouched");
    expect(int(j->m.before == 0x5151515151515151ull) & int(j->m.after == 0x5151515151515151ull) & int(j->m.size_after == 0x77777777),
           "outside-untouched");
    vf_cover("joined");
    delete j;
}
}  // namespace
VF_HARNESS_FN(device_append) { concurrent<u32>(); }
