// Model of a sequence and comparison of containers with it.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <type_traits>
#include <utility>

#include "vf.h"

namespace vfh {
using u64 = uint64_t;
using u32 = uint32_t;
#ifndef VFH_CHECK
#define VFH_CHECK
#endif
inline void expect(bool c, const char *id) { vf_assert(c, id); }

template <int MAX>
struct seq {
    u32 v[MAX];
    unsigned n = 0;
    void insert(unsigned pos, u32 x, unsigned k = 1) {
        if (n + k > MAX)
            vf_fail("harness:model-full");
        for (unsigned i = n; i-- > pos;)
            v[i + k] = v[i];
        for (unsigned i = 0; i < k; ++i)
            v[pos + i] = x;
        n += k;
    }
    void erase(unsigned a, unsigned b) {
        for (unsigned i = b; i < n; ++i)
            v[a + i - b] = v[i];
        n -= b - a;
    }
    void resize(unsigned k, u32 x) {
        while (n < k)
            insert(n, x);
        n = k;
    }
};

// value of an element
inline u32 val(u32 x) { return x; }

// Everything an outside user can read: V is a (const) container.
template <class C, class M>
void same_elements(C &c, const M &m) {
    bool all = true;
    expect(c.size() == m.n, "size");
    expect(c.empty() == (m.n == 0), "empty");
    for (unsigned i = 0; i < m.n; ++i)
        all &= int(val(c[i]) == m.v[i]) & int(val(c.at(i)) == m.v[i]);
    expect(all, "indexing");
    if (m.n) {
        expect(val(c.front()) == m.v[0], "front");
        expect(val(c.back()) == m.v[m.n - 1], "back");
        expect(std::addressof(c.front()) == std::addressof(c[0]), "front-is-the-first");
        expect(std::addressof(c.back()) == std::addressof(c[m.n - 1]), "back-is-the-last");
    }
}
template <class C, class M>
void same_iteration(C &c, const M &m) {
    using diff = typename C::difference_type;
    unsigned k = 0;
    bool all = true;
    for (auto it = c.begin(); it != c.end(); ++it, ++k) {
        if (k >= m.n)
            break;
        all &= val(*it) == m.v[k];
    }
    expect(k == m.n && all, "forward-iteration");
    k = 0, all = true;
    for (auto it = c.cbegin(); it != c.cend(); it++, ++k) {
        if (k >= m.n)
            break;
        all &= val(*it) == m.v[k];
    }
    expect(k == m.n && all, "const-iteration");
    k = 0, all = true;
    for (auto it = c.rbegin(); it != c.rend(); ++it, ++k) {
        if (k >= m.n)
            break;
        all &= val(*it) == m.v[m.n - 1 - k];
    }
    expect(k == m.n && all, "reverse-iteration");
    k = 0, all = true;
    for (auto it = c.crbegin(); it != c.crend(); it++, ++k) {
        if (k >= m.n)
            break;
        all &= val(*it) == m.v[m.n - 1 - k];
    }
    expect(k == m.n && all, "const-reverse-iteration");
    expect((unsigned)(c.end() - c.begin()) == m.n, "distance");
    if (m.n) {  // the reverse iterator's arithmetic
        auto r = c.rbegin();
        all = true;
        for (unsigned i = 0; i < m.n; ++i) {
            u32 want = m.v[m.n - 1 - i];
            all &= val(r[(diff)i]) == want;
            all &= val(*(r + (diff)i)) == want;
            auto s = r;
            s += (diff)i;
            all &= val(*s) == want;
            all &= int(s.base() == c.end() - (diff)i);
            all &= int(s - (diff)i == r);
            all &= std::addressof(*s) == s.operator->();
            auto t = s;
            t -= (diff)i;
            all &= int(t == r) & int(!(t != r));
            all &= int(i == 0) == int(s == r);
            auto u = s++;
            all &= val(*u) == want;
            auto w = s--;
            all &= int(w.base() == c.end() - (diff)(i + 1)) & int(s == u);
            ++s, --s;
            all &= int(s == u);
        }
        expect(all, "reverse-arithmetic");
    }
}
}  // namespace vfh
