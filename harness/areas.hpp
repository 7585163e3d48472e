// Storage that must lie apart inside memory obtained from a resource.
#pragma once
#include "res.hpp"

namespace vfh {
// areas that must lie apart, inside memory obtained from the resources
struct areas {
    u64 p[48], n[48];
    int cnt = 0;
    template <class UP>
    void add(const UP &up, const void *q, u64 k, u64 al, const char *what) {
        const u64 x = addr(q);
        check(int(k == 0) | int(x != 0), "storage-not-null");
        check(int(k == 0) | int((x & (al - 1)) == 0), "storage-aligned");
        check(int(k == 0) | int(up.inside(x, k) != 0), "storage-inside-the-block");
        for (int i = 0; i < cnt; ++i)
            check(int(k == 0) | int(n[i] == 0) | int(x + k <= p[i]) | int(p[i] + n[i] <= x), "storage-disjoint");
        p[cnt] = x;
        n[cnt] = k;
        ++cnt;
        (void)what;
    }
};
}  // namespace vfh
