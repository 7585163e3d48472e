// C01, C02: static_vector.
#include <utility>
#include <vecmem/containers/static_vector.hpp>

#include "tracked.hpp"
using namespace vfh;

namespace {
using vfh::val;
constexpr unsigned CAP = VF_CAP;
template <class T>
struct tester {
    using SV = vecmem::static_vector<T, CAP>;
    // red zones around the vector: any stray write shows
    struct alignas(64) frame {
        u64 before[8];
        SV v;
        u64 after[8];
    };
    static void same(SV &v, const seq<CAP + 4> &m, bool it) {
        same_elements(v, m);
        same_elements(const_cast<const SV &>(v), m);
        if (it) {
            same_iteration(v, m);
            same_iteration(const_cast<const SV &>(v), m);
            expect(v.data() == v.begin() && const_cast<const SV &>(v).data() == v.begin(), "data");
        }
        expect(v.capacity() == CAP && v.max_size() == CAP, "capacity");
        // inside its own storage
        if (m.n) {
            const char *b = (const char *)&v;
            const char *p = (const char *)&v[0];
            expect(p >= b && p + m.n * sizeof(T) <= b + sizeof(SV), "elements-inside");
            expect(((u64)p & (alignof(T) - 1)) == 0, "element-aligned");
        }
    }
    static void same_life(const seq<CAP + 4> &m, unsigned extra) {
        if (!std::is_trivially_destructible<T>::value)
            expect(aliveNow() == int(m.n + extra), "exactly-the-elements-live");
    }
    static void step(SV &v, seq<CAP + 4> &m, unsigned op) {
        const unsigned room = CAP - m.n;
        auto pos = [&](unsigned lim) { return some("pos", lim); };
        auto at = [&](typename SV::iterator it, unsigned want, const char *id) {
            expect(it == v.begin() + want, id);
        };
        auto need = [&](bool c) {
            if (!c)
                vf_assume(0);
        };
        switch (op) {
            case 0: {
                need(room);
                u32 x = fresh_value<T>();
                v.push_back(T(x));
                m.insert(m.n, x);
                break;
            }
            case 1: {
                need(room);
                u32 x = fresh_value<T>();
                T &r = v.emplace_back(x);
                m.insert(m.n, x);
                expect(&r == &v[m.n - 1], "emplace_back-result");
                break;
            }
            case 2: {
                need(room);
                u32 x = fresh_value<T>();
                unsigned p = pos(m.n);
                at(v.insert(v.cbegin() + p, T(x)), p, "insert-result");
                m.insert(p, x);
                break;
            }
            case 3: {
                u32 x = fresh_value<T>();
                unsigned p = pos(m.n), k = some("count", room);
                at(v.insert(v.cbegin() + p, (std::size_t)k, T(x)), p, "insert-n-result");
                m.insert(p, x, k);
                break;
            }
            case 4: {
                unsigned p = pos(m.n), k = some("count", room);
                values<T, CAP> src;
                at(v.insert(v.cbegin() + p, (const T *)src, (const T *)src + k), p, "insert-range-result");
                for (unsigned i = 0; i < k; ++i)
                    m.insert(p + i, val(src[i]));
                break;
            }
            case 5: {
                need(room);
                u32 x = fresh_value<T>();
                unsigned p = pos(m.n);
                at(v.emplace(v.cbegin() + p, x), p, "emplace-result");
                m.insert(p, x);
                break;
            }
            case 6: {
                need(m.n);
                unsigned p = some("pos", m.n - 1);
                at(v.erase(v.cbegin() + p), p, "erase-result");
                m.erase(p, p + 1);
                break;
            }
            case 7: {
                unsigned a = pos(m.n), b = a + some("len", m.n - a);
                at(v.erase(v.cbegin() + a, v.cbegin() + b), a, "erase-range-result");
                m.erase(a, b);
                break;
            }
            case 8:
                need(m.n);
                v.pop_back();
                m.erase(m.n - 1, m.n);
                break;
            case 9:
                v.clear();
                m.n = 0;
                break;
            case 10: {
                unsigned k = some("newsize", CAP);
                v.resize(k);
                m.resize(k, dflt<T>());
                break;
            }
            case 11: {
                unsigned k = some("newsize", CAP);
                u32 x = fresh_value<T>();
                v.resize(k, T(x));
                m.resize(k, x);
                break;
            }
            case 12: {
                unsigned k = some("newsize", CAP);
                u32 x = fresh_value<T>();
                v.assign((std::size_t)k, T(x));
                m.n = 0;
                m.resize(k, x);
                break;
            }
            case 13: {
                unsigned k = some("count", CAP);
                values<T, CAP> src;
                v.assign((const T *)src, (const T *)src + k);
                m.n = 0;
                for (unsigned i = 0; i < k; ++i)
                    m.insert(i, val(src[i]));
                break;
            }
            case 14: {  // copies are independent
                SV w(v);
                same(w, m, false);
                same_life(m, m.n);
                if (m.n) {
                    u32 x = fresh_value<T>();
                    unsigned p = some("pos", m.n - 1);
                    w[p] = T(x);
                    expect(val(v[p]) == m.v[p], "copy-is-independent");
                    w.pop_back();
                }
                same(v, m, false);
                break;
            }
            case 15: {  // copy assignment
                unsigned k = some("newsize", CAP);
                u32 x = fresh_value<T>();
                SV w((std::size_t)k, T(x));
                expect(&(v = w) == &v, "assignment-result");
                m.n = 0;
                m.resize(k, x);
                same_life(m, k);
                if (k) {
                    u32 y = fresh_value<T>();
                    w[0] = T(y);
                    expect(val(v[0]) == x, "copy-is-independent");
                }
                break;
            }
            case 16: {  // to itself
                SV &w = v;
                v = w;
                break;
            }
            case 17: {  // values that are elements of the vector itself
                need(room && m.n);
                unsigned p = pos(m.n), s = some("src", m.n - 1), how = vf_pick("how", 4);
                u32 x = m.v[s];
                if (how == 0) {
                    v.insert(v.cbegin() + p, v[s]);
                    m.insert(p, x);
                } else if (how == 1) {
                    v.push_back(v[s]);
                    m.insert(m.n, x);
                } else if (how == 2) {
                    v.emplace(v.cbegin() + p, v[s]);
                    m.insert(p, x);
                } else {
                    unsigned k = some("count", room);
                    v.insert(v.cbegin() + p, (std::size_t)k, v[s]);
                    m.insert(p, x, k);
                }
                break;
            }
            case 18: {
                v.reserve(some("cap", CAP));
                break;
            }
            default: vf_fail("harness:no-such-op");
        }
    }
    static void run() {
        const int ops = (int)vf_param("ops", 2);
        const unsigned nops = (unsigned)vf_param("nops", 19);
        toks = 0;
        seq<CAP + 4> m;
        {
            // constructors
            unsigned how = big ? 3 : vf_pick("ctor", 4);
            alignas(frame) static unsigned char raw[sizeof(frame)];
            frame *f = reinterpret_cast<frame *>(raw);
            for (int i = 0; i < 8; ++i)
                f->before[i] = f->after[i] = 0x5a5a5a5a5a5a5a5aull;
            SV *v = nullptr;
            if (how == 0) {
                v = new (&f->v) SV();
            } else if (how == 1) {
                unsigned k = some("n", CAP);
                u32 x = fresh_value<T>();
                v = new (&f->v) SV((std::size_t)k, T(x));
                m.resize(k, x);
            } else if (how == 2) {
                unsigned k = some("n", CAP);
                v = new (&f->v) SV((std::size_t)k);
                m.resize(k, dflt<T>());
            } else {
                unsigned k = some("n", CAP);
                values<T, CAP> src;
                v = new (&f->v) SV((const T *)src, (const T *)src + k);
                for (unsigned i = 0; i < k; ++i)
                    m.insert(i, val(src[i]));
            }
            same(*v, m, true);
            same_life(m, 0);
            for (int i = 0; i < ops; ++i) {
                unsigned op = i == 0 && vf_param("first", 99) != 99 ? (unsigned)vf_param("first", 99) : vf_pick("op", nops);
                step(*v, m, op);
                same(*v, m, i + 1 == ops);
                same_life(m, 0);
            }
            v->~SV();
            m.n = 0;
            same_life(m, 0);
            bool ok = true;
            for (int i = 0; i < 8; ++i)
                ok &= (f->before[i] == 0x5a5a5a5a5a5a5a5aull) & (f->after[i] == 0x5a5a5a5a5a5a5a5aull);
            expect(ok, "nothing-else-written");
        }
        vf_cover("done");
    }
};
}  // namespace
VF_HARNESS_FN(static_vector_history) {
    switch (vf_param("type", 0)) {
        case 0: tester<u32>::run(); break;
        case 1: tester<tracked<4>>::run(); break;
        case 2: tester<tracked<64>>::run(); break;
        case 3: tester<pod3>::run(); break;
    }
}
VF_HARNESS_FN(static_vector_empty_type) {  // no room at all
    vecmem::static_vector<u32, 0> v, w(v);
    expect(v.size() == 0 && v.empty() && v.capacity() == 0 && v.max_size() == 0, "empty");
    expect(v.begin() == v.end() && v.rbegin() == v.rend() && w.begin() == w.end(), "no-elements");
    v.clear();
    v.resize(0);
    v.assign((std::size_t)0, 3u);
    expect(v.size() == 0, "empty");
    vf_cover("done");
}
