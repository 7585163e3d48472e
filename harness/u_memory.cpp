// U01, U02: allocator and unique pointers.
#include <memory>
#include <type_traits>
#include <utility>
#include <vecmem/memory/allocator.hpp>
#include <vecmem/memory/unique_ptr.hpp>

#include "res.hpp"
using namespace vfh;

// ------------------------------------------------------------------ U01
namespace {
struct alignas(64) wide {
    unsigned char c[128];
};
struct odd {
    unsigned char c[13];
};
struct mid {
    u64 a;
    unsigned b;
};
using UP = sym_upstream<6>;
struct owner {  // what a slot must own now
    u64 p = 0, n = 0;
    int res = -1;
};
UP up[2];
int liveBlocks() { return up[0].live() + up[1].live(); }
// was a request for k bytes made that returned q, aligned for T?
void took(int r, const void *q, u64 k, u64 al, u64 count, u64 each) {
    const block &b = up[r].b[up[r].n - 1];
    bool wrap = each != 0 && count > ~u64(0) / each;
    check(!wrap, "no-block-for-overflowing-size");
    check(b.p == addr(q), "pointer-is-the-block");
    check(b.n == k, "requested-bytes");
    check(int(b.a >= al) & int((b.a & (b.a - 1)) == 0), "requested-alignment");
}
template <class F>
bool attempt(F f) {
    try {
        f();
        return true;
    } catch (const std::bad_alloc &) {
        return false;
    }
}
template <class T>
void alloc_slots() {
    using ptr_t = vecmem::unique_alloc_ptr<T[]>;
    const int ops = (int)vf_param("ops", 3);
    owner own[2];
    int released = 0;
    {
        ptr_t s[2];
        for (int i = 0; i < ops; ++i) {
            switch (i == 0 ? 0 : vf_pick("op", 6)) {
                case 0: {  // make
                    int r = (int)vf_pick("res", 2), k = i == 0 ? 0 : (int)vf_pick("slot", 2);
                    u64 n = vf_range("n", 1, ~u64(0));
                    int before = up[r].n;
                    ptr_t t;
                    bool ok = attempt([&] { t = vecmem::make_unique_alloc<T[]>(up[r], n); });
                    if (!ok) {
                        check(up[r].n == before, "failure-leaves-nothing");
                        vf_cover("refused");
                        break;
                    }
                    vf_cover("made");
                    check(up[r].n == before + 1, "one-request");
                    took(r, t.get(), n * sizeof(T), alignof(T), n, sizeof(T));
                    int gone = liveBlocks() - 1;
                    bool had = own[k].res >= 0;
                    s[k] = std::move(t);
                    check(liveBlocks() == gone + 1 - had, "old-block-returned");
                    own[k] = owner{up[r].b[up[r].n - 1].p, n * sizeof(T), r};
                    break;
                }
                case 1: {  // reset
                    int k = (int)vf_pick("slot", 2), l = liveBlocks();
                    bool had = own[k].res >= 0;
                    s[k].reset();
                    check(liveBlocks() == l - had, "reset-returns-once");
                    own[k] = owner{};
                    break;
                }
                case 2: {  // move assign
                    int k = (int)vf_pick("slot", 2), l = liveBlocks();
                    bool had = own[1 - k].res >= 0;
                    s[1 - k] = std::move(s[k]);
                    check(liveBlocks() == l - had, "assignment-returns-the-old-block");
                    own[1 - k] = own[k];
                    own[k] = owner{};
                    vf_cover("moved");
                    break;
                }
                case 3: {
                    int l = liveBlocks();
                    std::swap(s[0], s[1]);
                    std::swap(own[0], own[1]);
                    check(liveBlocks() == l, "swap-returns-nothing");
                    break;
                }
                case 4: {
                    int k = (int)vf_pick("slot", 2), l = liveBlocks();
                    T *p = s[k].release();
                    check(addr(p) == own[k].p, "release-gives-the-block");
                    released += own[k].res >= 0;
                    own[k] = owner{};
                    check(liveBlocks() == l, "release-returns-nothing");
                    vf_cover("released");
                    break;
                }
                case 5: {
                    int k = (int)vf_pick("slot", 2), l = liveBlocks();
                    {
                        ptr_t t(std::move(s[k]));
                        check(!s[k], "moved-from-is-empty");
                        s[k] = std::move(t);
                    }
                    check(liveBlocks() == l, "move-returns-nothing");
                    break;
                }
            }
            for (int k = 0; k < 2; ++k)
                check(addr(s[k].get()) == own[k].p, "owner-holds-its-block");
        }
    }
    check(liveBlocks() == released, "all-but-released-returned");
}
template <class T>
void alloc_single() {
    for (int v = 0; v < 4; ++v) {
        const int before = up[0].n;
        if (v == 0) {
            vecmem::unique_alloc_ptr<T> p = vecmem::make_unique_alloc<T>(up[0]);
            took(0, p.get(), sizeof(T), alignof(T), 1, sizeof(T));
        } else if (v == 1) {  // with initial contents
            T *f = reinterpret_cast<T *>(0x4000);
            void *to = nullptr;
            u64 bytes = 0;
            const void *from = nullptr;
            auto cp = [&](void *d, const void *s, u64 k) { to = d, from = s, bytes = k; };
            auto p = vecmem::make_unique_alloc<T>(up[0], f, cp);
            took(0, p.get(), sizeof(T), alignof(T), 1, sizeof(T));
            check(to == p.get() && from == f && bytes == sizeof(T), "contents-copied");
        } else if (v == 2) {
            u64 n = vf_range("count", 1, ~u64(0));
            T *f = reinterpret_cast<T *>(0x4000);
            void *to = nullptr;
            u64 bytes = 0;
            const void *from = nullptr;
            auto cp = [&](void *d, const void *s, u64 k) { to = d, from = s, bytes = k; };
            bool ok = attempt([&] {
                auto p = vecmem::make_unique_alloc<T[]>(up[0], n, f, cp);
                took(0, p.get(), n * sizeof(T), alignof(T), n, sizeof(T));
                check(int(to == p.get()) & int(from == f) & int(bytes == n * sizeof(T)), "contents-copied");
            });
            if (!ok) {
                vf_cover("refused");
                check(up[0].n == before, "failure-leaves-nothing");
                continue;
            }
        } else {
            vecmem::allocator al(up[0]);
            u64 n = vf_range("elems", 1, ~u64(0));
            T *p = nullptr;
            if (attempt([&] { p = al.allocate_object<T>(n); })) {
                took(0, p, n * sizeof(T), alignof(T), n, sizeof(T));
                al.deallocate_object(p, n);
            } else
                continue;
        }
        check(up[0].n == before + 1, "one-request");
        check(up[0].live() == 0, "given-back");
    }
    vf_cover("single");
}
template <class F>
void for_type(F f) {
    switch (vf_param("type", 0)) {
        case 0: f.template operator()<char>(); break;
        case 1: f.template operator()<mid>(); break;
        case 2: f.template operator()<wide>(); break;
        case 3: f.template operator()<odd>(); break;
    }
}
struct slots_s {
    template <class T>
    void operator()() {
        alloc_slots<T>();
    }
};
struct single_s {
    template <class T>
    void operator()() {
        alloc_single<T>();
    }
};
}  // namespace
VF_HARNESS_FN(unique_alloc_history) { for_type(slots_s{}); }
VF_HARNESS_FN(unique_alloc_single) { for_type(single_s{}); }

VF_HARNESS_FN(allocator_bytes) {
    vecmem::allocator al(up[0]);
    const int ops = (int)vf_param("ops", 3);
    clients<4> cl;
    for (int i = 0; i < ops; ++i) {
        int k = cl.liveCount() ? (int)vf_pick("op", 2) : 0;
        if (k == 0) {
            u64 n = vf_range("n", 0, ~u64(0)), a = pow2("align", 20);
            bool dflt = vf_pick("default", 2);
            void *volatile q = nullptr;
            int before = up[0].allocs;
            bool ok = attempt([&] { q = dflt ? al.allocate_bytes(n) : al.allocate_bytes(n, a); });
            void *p = q;
            if (n == 0) {
                check(ok && p == nullptr && up[0].allocs == before, "empty-request");
                continue;
            }
            check(up[0].allocs == before + 1, "one-request");
            check(up[0].lastN == n, "requested-bytes");
            check(up[0].lastA == (dflt ? 16 : a), "requested-alignment");
            if (ok) {
                cl.add(up[0], p, n, dflt ? 16 : a);
                vf_cover("allocated");
            } else
                check(up[0].fails > 0, "only-upstream-fails");
        } else {
            int j = cl.nth((int)vf_pick("which", cl.liveCount()));
            int before = up[0].frees;
            al.deallocate_bytes(ptr(cl.p[j]), cl.n[j], cl.a[j]);
            check(up[0].frees == before + 1, "one-return");
            cl.live[j] = false;
            vf_cover("returned");
        }
    }
    check(up[0].live() == cl.liveCount(), "exactly-the-live-blocks");
}

// ------------------------------------------------------------------ U02
namespace {
// backs requests with real memory
class real_upstream : public std::pmr::memory_resource {
public:
    struct blk {
        u64 p, n, a;
        bool live;
    } b[4];
    int n = 0;
    int live() const {
        int r = 0;
        for (int i = 0; i < n; ++i)
            r += b[i].live;
        return r;
    }

private:
    void *do_allocate(std::size_t k, std::size_t a) override {
        if (n >= 4)
            vf_fail("harness:too-many-upstream-blocks");
        void *p = vf_malloc(k ? k : 1, a, VF_HARNESS);
        b[n++] = blk{addr(p), k, a, true};
        return p;
    }
    void do_deallocate(void *q, std::size_t k, std::size_t a) override;
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};
struct seen {
    u64 at;
    int alive, made, destroyed;
    u64 a, b;
};
seen obj[8];
int objects = 0, throwAt = -1, made = 0;
struct boom {};
void born(const void *p, u64 a, u64 b) {
    if (made++ == throwAt)
        throw boom{};
    for (int i = 0; i < objects; ++i)
        check(!(obj[i].alive && obj[i].at == addr(p)), "constructed-once");
    if (objects >= 8)
        vf_fail("harness:too-many-objects");
    obj[objects++] = seen{addr(p), 1, 1, 0, a, b};
}
void gone(const void *p) {
    int found = 0;
    for (int i = 0; i < objects; ++i)
        if (obj[i].alive && obj[i].at == addr(p)) {
            obj[i].alive = 0;
            ++found;
        }
    check(found == 1, "destroyed-once");
}
int alive() {
    int r = 0;
    for (int i = 0; i < objects; ++i)
        r += obj[i].alive;
    return r;
}
void real_upstream::do_deallocate(void *q, std::size_t k, std::size_t a) {
    int found = 0;
    for (int i = 0; i < n; ++i)
        if (b[i].live && b[i].p == addr(q)) {
            ++found;
            check(b[i].n == k && b[i].a == a, "returned-as-obtained");
            b[i].live = false;
            for (int j = 0; j < objects; ++j)
                check(!(obj[j].alive && obj[j].at >= b[i].p && obj[j].at < b[i].p + k), "destroyed-before-return");
        }
    check(found == 1, "returned-once");
    vf_free(q, VF_HARNESS);
}
template <int S, int A>
struct alignas(A) probe {
    unsigned char pad[S];
    probe() { born(this, 1, 2); }
    probe(u64 a, u64 b) { born(this, a, b); }
    probe(const probe &) = delete;
    ~probe() { gone(this); }
};
struct movearg {
    u64 v;
    bool taken = false;
    movearg(u64 x) : v(x) {}
    movearg(movearg &&o) : v(o.v) { o.taken = true; }
    movearg(const movearg &) = delete;
};
struct mprobe {
    u64 v;
    mprobe(movearg m) : v(m.v) { born(this, v, 0); }
    ~mprobe() { gone(this); }
};
template <class T>
void objects_t() {
    real_upstream u;
    const unsigned mode = vf_pick("mode", 4);
    throwAt = (int)vf_pick("throwAt", 5) - 1;
    u64 a = vf_sym("a", 64), b = vf_sym("b", 64);
    u64 before = vf_heap_live();
    try {
        switch (mode) {
            case 0: {
                auto p = vecmem::make_unique_obj<T>(u, a, b);
                check(objects == 1 && obj[0].at == addr(p.get()) && obj[0].alive, "one-object-in-place");
                check(int(obj[0].a == a) & int(obj[0].b == b), "arguments-forwarded");
                check(u.n == 1 && u.b[0].p == addr(p.get()) && u.b[0].n == sizeof(T) && u.b[0].a >= alignof(T), "block-fits");
                if (vf_pick("move", 2)) {
                    vecmem::unique_obj_ptr<T> q(std::move(p));
                    check(objects == 1 && alive() == 1, "moving-touches-no-object");
                }
                vf_cover("single");
                break;
            }
            case 1:
            case 2: {
                unsigned n = vf_pick("n", 4);
                auto p = vecmem::make_unique_obj<T[]>(u, n);
                check((unsigned)objects == n && (unsigned)alive() == n, "n-objects");
                for (unsigned i = 0; i < n; ++i)
                    check(obj[i].at == addr(p.get()) + i * sizeof(T), "objects-in-place");
                if (n)
                    check(u.n == 1 && u.b[0].n == n * sizeof(T) && u.b[0].a >= alignof(T), "block-fits");
                vecmem::unique_obj_ptr<T[]> q = std::move(p);
                check((unsigned)alive() == n, "moving-touches-no-object");
                if (mode == 2) {
                    throwAt = made;  // a second one that fails at once
                    auto r = vecmem::make_unique_obj<T[]>(u, 1);
                    (void)r;
                }
                q.reset();
                check(alive() == 0 && u.live() == 0, "reset-destroys-and-returns");
                vf_cover("array");
                break;
            }
            case 3: {
                vecmem::allocator al(u);
                T *p = al.new_object<T>(a, b);
                check(objects == 1 && obj[0].at == addr(p), "one-object-in-place");
                check(int(obj[0].a == a) & int(obj[0].b == b), "arguments-forwarded");
                check(u.n == 1 && u.b[0].n == sizeof(T) && u.b[0].a >= alignof(T), "block-fits");
                al.delete_object(p);
                vf_cover("allocator");
                break;
            }
        }
    } catch (const boom &) {
        vf_cover("threw");
    }
    check(alive() == 0, "all-destroyed");
    check(u.live() == 0, "all-memory-returned");
    check(vf_heap_live() <= before + 1, "no-heap-leak");
}
}  // namespace
VF_HARNESS_FN(object_lifetimes) {
    switch (vf_param("type", 0)) {
        case 0: objects_t<probe<24, 8>>(); break;
        case 1: objects_t<probe<64, 64>>(); break;
        case 2: objects_t<probe<3, 1>>(); break;
    }
}
VF_HARNESS_FN(object_arguments) {
    real_upstream u;
    u64 v = vf_sym("v", 64);
    {
        movearg m(v);
        auto p = vecmem::make_unique_obj<mprobe>(u, std::move(m));
        check(int(p->v == v) & int(m.taken), "moved-argument");
        vecmem::allocator al(u);
        movearg m2(v);
        mprobe *q = al.new_object<mprobe>(std::move(m2));
        check(int(q->v == v) & int(m2.taken), "moved-argument");
        al.delete_object(q);
    }
    {  // trivial types: value initialised
        auto p = vecmem::make_unique_obj<unsigned[]>(u, 2);
        check(p[0] == 0 && p[1] == 0, "value-initialised");
        auto q = vecmem::make_unique_obj<u64>(u, v);
        check(*q == v, "value");
    }
    check(alive() == 0 && u.live() == 0, "all-given-back");
    vf_cover("done");
}
