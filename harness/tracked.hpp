// Elements that record their lifetime.
#pragma once
#include <new>

#include "seq.hpp"
namespace vfh {
// Elements know which object they are; moving their bytes keeps identity.
#ifndef VF_CAP
#define VF_CAP 4  // capacity of the containers under test
#endif
constexpr bool big = VF_CAP > 8;
constexpr int MAXOBJ = big ? 8 * VF_CAP : 96;
inline int aliveTok[MAXOBJ], toks = 0;
template <int A>
struct alignas(A) tracked {
    u32 v;
    u32 tok;
    void fresh() {
        if (toks >= MAXOBJ)
            vf_fail("harness:too-many-objects");
        tok = toks++;
        aliveTok[tok] = 1;
        expect((reinterpret_cast<u64>(this) & (A - 1)) == 0, "element-aligned");
    }
    void usable() const {
        expect(tok < (u32)toks && aliveTok[tok < (u32)MAXOBJ ? tok : 0] == 1, "element-alive");
    }
    tracked(u32 x = 7) : v(x) { fresh(); }
    tracked(const tracked &o) : v(o.v) {
        o.usable();
        fresh();
    }
    tracked &operator=(const tracked &o) {
        usable();
        o.usable();
        v = o.v;
        return *this;
    }
    ~tracked() {
        usable();
        aliveTok[tok] = 0;
    }
};
template <int A>
u32 val(const tracked<A> &t) {
    t.usable();
    return t.v;
}
inline int aliveNow() {
    int r = 0;
    for (int i = 0; i < toks; ++i)
        r += aliveTok[i];
    return r;
}
struct pod3 {
    unsigned char a, b, c;
    pod3(u32 x = 0) : a(x), b(x >> 8), c(x >> 16) {}
};
inline u32 val(const pod3 &p) { return p.a | p.b << 8 | p.c << 16; }
template <class T>
u32 dflt() { return val(T()); }

// a number up to `lim`: any, or one of some for big containers
inline unsigned some(const char *name, unsigned lim) {
    if (lim <= 8)
        return vf_pick(name, lim + 1);
    const unsigned l[5] = {0, 1, lim / 2, lim > 257 ? 257 : lim - 1, lim};
    return l[vf_pick(name, 5)];
}
template <class T>
u32 fresh_value();
// an array of `CAP` unknown values (few of them unknown in big ones)
template <class T>
u32 nth_value(unsigned i, unsigned cap) {
    return cap <= 8 || i == 0 || i == cap / 2 || i == cap - 1 ? fresh_value<T>() : 0x10203 * i + 5;
}
template <class T, unsigned N>
struct values {
    alignas(T) unsigned char raw[N * sizeof(T)];
    values() {
        for (unsigned i = 0; i < N; ++i)
            new (raw + i * sizeof(T)) T(nth_value<T>(i, N));
    }
    ~values() {
        for (unsigned i = 0; i < N; ++i)
            ((T *)raw)[i].~T();
    }
    operator const T *() const { return (const T *)raw; }
    const T &operator[](unsigned i) const { return ((const T *)raw)[i]; }
};
template <class T>
u32 fresh_value() {
    u32 x = (u32)vf_sym("v", 32);
    if (sizeof(T) == 3)
        vf_assume(x < (1u << 24));
    return x;
}
}  // namespace vfh
