// A copy object that stands for a device: "device" memory can only be reached
// through its elementary operations, which happen when an event is waited for.
#pragma once
#include <memory>
#include <memory_resource>
#include <vecmem/utils/copy.hpp>

#include "seq.hpp"
#include "tracked.hpp"
#include "vf.h"

#define VF_PIECES (VF_CAP > 8 ? 160 : 40)
namespace vfh {
enum side { HOST = 0, DEVICE = 1 };
enum role { OTHER = 0, SRC = 1, DST = 2 };
struct device_fault {};

// A piece of memory. What the library gets to see of device memory (`face`) is
// never read or written; the contents are at `real`.
struct piece {
    unsigned char *face, *real, *old;
    std::size_t n;
    side s;
    role r;
    bool live;
};

class machine {
public:
    static constexpr int MAXP = VF_PIECES;
    piece p[MAXP];
    int np = 0;
    // memory of the given kind; contents are unknown bytes
    int add(std::size_t n, side s, role r, std::size_t align = 64, bool known = false) {
        if (np == MAXP)
            vf_fail("harness:too-many-pieces");
        piece &x = p[np];
        x.n = n;
        x.s = s;
        x.r = r;
        x.live = true;
        x.real = static_cast<unsigned char *>(vf_malloc(n, align, VF_HARNESS));
        x.face = s == HOST ? x.real : static_cast<unsigned char *>(vf_malloc(n, align, VF_HARNESS));
        x.old = nullptr;
        if (s == DEVICE)
            for (std::size_t i = 0; i < n; ++i)
                x.face[i] = 0xa5;
        if (!known && n)
            vf_symbytes(x.real, n, "memory");
        return np++;
    }
    // memory that lives elsewhere (a host container's)
    int note(const void *q, std::size_t n, role r) {
        if (np == MAXP)
            vf_fail("harness:too-many-pieces");
        p[np] = piece{(unsigned char *)q, (unsigned char *)q, nullptr, n, HOST, r, true};
        return np++;
    }
    void snapshot() {
        for (int i = 0; i < np; ++i)
            if (p[i].live) {
                p[i].old = static_cast<unsigned char *>(vf_malloc(p[i].n, 1, VF_HARNESS));
                for (std::size_t k = 0; k < p[i].n; ++k)
                    p[i].old[k] = p[i].real[k];
            }
    }
    // are bytes [from, to) of piece i as they were?
    bool kept(int i, std::size_t from, std::size_t to) const {
        bool ok = true;
        for (std::size_t k = from; k < to; ++k)
            ok &= p[i].real[k] == p[i].old[k];
        return ok;
    }
    bool kept(int i) const { return kept(i, 0, p[i].n); }
    void faces_untouched() const {
        bool ok = true;
        for (int i = 0; i < np; ++i)
            if (p[i].s == DEVICE && p[i].live)
                for (std::size_t k = 0; k < p[i].n; ++k)
                    ok &= p[i].face[k] == 0xa5;
        expect(ok, "device-memory-written-by-the-host");
    }
    const piece *find(const void *q) const {
        auto a = static_cast<const unsigned char *>(q);
        for (int i = 0; i < np; ++i)
            if (p[i].live && a >= p[i].face && a < p[i].face + p[i].n)
                return &p[i];
        return nullptr;
    }
    // where the bytes [q, q+n) really are
    unsigned char *real(const void *q, std::size_t n) const {
        const piece *x = find(q);
        if (!x)
            return static_cast<unsigned char *>(const_cast<void *>(q));
        expect((std::size_t)(static_cast<const unsigned char *>(q) - x->face) + n <= x->n, "transfer-leaves-its-memory");
        return x->real + (static_cast<const unsigned char *>(q) - x->face);
    }
    template <class T>
    T &at(const T *q) const { return *reinterpret_cast<T *>(real(q, sizeof(T))); }
};

class probe_copy : public vecmem::copy {
public:
    machine &m;
    bool lazy = false;       // operations happen when their event is waited for
    int failAt = -1;         // this elementary operation throws
    type::copy_type asked = type::unknown;
    bool directed = false;   // `asked` is what the caller asked for
    mutable int calls = 0, payload = 0, events = 0;
    explicit probe_copy(machine &mm) : m(mm) {}
    // nothing is left to happen
    bool idle() const { return done == queued; }

private:
    struct op {
        std::size_t n;
        const void *from;
        void *to;
        int value;
    };
    static constexpr int MAXQ = 2 * VF_PIECES;
    mutable op q[MAXQ];
    mutable int queued = 0, done = 0;
    static void run(const machine &m, const op &o) {
        if (!o.n)
            return;
        unsigned char *to = m.real(o.to, o.n);
        if (o.from) {
            unsigned char *from = m.real(o.from, o.n);
            for (std::size_t i = 0; i < o.n; ++i)
                to[i] = from[i];
        } else
            for (std::size_t i = 0; i < o.n; ++i)
                to[i] = (unsigned char)o.value;
    }
    void flush(int upto) const {
        for (; done < upto; ++done)
            run(m, q[done]);
    }
    void step() const {
        if (calls++ == failAt) {
            vf_cover("failed-transfer");
            throw device_fault{};
        }
    }
    void issue(const op &o) const {
        if (queued == MAXQ)
            vf_fail("harness:too-many-operations");
        q[queued++] = o;
        if (!lazy)
            flush(queued);
    }
    side where(const void *x) const {
        const piece *k = m.find(x);
        return k ? k->s : HOST;
    }
    struct event : vecmem::abstract_event {
        const probe_copy *c;
        int upto;
        event(const probe_copy *cc, int u) : c(cc), upto(u) {}
        ~event() override { wait(); }
        void wait() override { c->flush(upto); }
        void ignore() override { upto = 0; }
    };

protected:
    void do_copy(std::size_t n, const void *from, void *to, type::copy_type t) const override {
        step();
        if (n) {
            const side f = where(from), d = where(to);
            expect(t == type::unknown || t == (f == HOST ? d == HOST ? type::host_to_host : type::host_to_device
                                                         : d == HOST ? type::device_to_host : type::device_to_device),
                   "direction-of-transfer");
            const piece *a = m.find(from), *b = m.find(to);
            if (a)
                expect((a->r & (SRC | OTHER)) || !b || b->r == a->r, "transfer-reads-the-destination");
            if (b) {
                expect(b->r != SRC, "transfer-writes-the-source");
                if (directed && a && a->r == SRC && b->r == DST) {
                    expect(t == asked, "direction-asked-for");
                    ++payload;
                }
            }
            m.real(from, n);
            m.real(to, n);
        }
        issue(op{n, n ? from : nullptr, to, 0});
    }
    void do_memset(std::size_t n, void *to, int value) const override {
        step();
        if (n) {
            const piece *b = m.find(to);
            expect(b && b->r != SRC, "fill-writes-something-else");
            m.real(to, n);
        }
        issue(op{n, nullptr, to, value});
    }
    event_type create_event() const override {
        ++events;
        return std::make_unique<event>(this, queued);
    }
};

// memory for the buffers the library makes
class piece_resource : public std::pmr::memory_resource {
public:
    machine &m;
    side s;
    role r;
    int allocs = 0, frees = 0;
    piece_resource(machine &mm, side ss, role rr) : m(mm), s(ss), r(rr) {}

private:
    void *do_allocate(std::size_t n, std::size_t a) override {
        ++allocs;
        return m.p[m.add(n ? n : 1, s, r, a)].face;
    }
    void do_deallocate(void *q, std::size_t, std::size_t) override {
        if (!q)
            return;
        ++frees;
        for (int i = 0; i < m.np; ++i)
            if (m.p[i].live && m.p[i].face == q) {
                m.p[i].live = false;
                return;
            }
        vf_fail("harness:unknown-memory-returned");
    }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};

inline vecmem::copy::type::copy_type direction(side f, side d) {
    using t = vecmem::copy::type;
    return f == HOST ? d == HOST ? t::host_to_host : t::host_to_device : d == HOST ? t::device_to_host : t::device_to_device;
}
}  // namespace vfh
