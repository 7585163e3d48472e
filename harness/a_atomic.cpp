// A01: atomic references.
#include <vecmem/memory/atomic.hpp>
#include <vecmem/memory/details/dummy_device_atomic_ref.hpp>
#include <vecmem/memory/details/posix_device_atomic_ref.hpp>
#include <vecmem/memory/device_atomic_ref.hpp>

#include "seq.hpp"
using namespace vfh;

namespace {
enum { LOAD, STORE, ASSIGN, XCHG, CAS, ADD, SUB, AND, OR, XOR, NOPS };
template <class T>
struct rec {  // one operation and what it answered
    unsigned op = 0;
    T a = 0, e = 0, r = 0, e2 = 0;  // argument, expected before, result, expected after
    bool ok = false;
};
// the documented effect; true when the recorded answer is the right one
template <class T>
bool effect(const rec<T> &x, T &cur) {
    const T old = cur;
    switch (x.op) {
        case LOAD: return x.r == old;
        case STORE: cur = x.a; return true;
        case ASSIGN: cur = x.a; return x.r == x.a;
        case XCHG: cur = x.a; return x.r == old;
        case CAS: {
            const bool hit = old == x.e;
            cur = hit ? x.a : old;
            return int(x.ok == hit) & int(x.e2 == (hit ? x.e : old));
        }
        case ADD: cur = T(old + x.a); return x.r == old;
        case SUB: cur = T(old - x.a); return x.r == old;
        case AND: cur = T(old & x.a); return x.r == old;
        case OR: cur = T(old | x.a); return x.r == old;
        default: cur = T(old ^ x.a); return x.r == old;
    }
}
template <class T>
T any() { return (T)vf_sym("x", sizeof(T) * 8); }
using vecmem::memory_order;
constexpr memory_order all_orders[] = {memory_order::relaxed, memory_order::consume, memory_order::acquire,
                                       memory_order::release, memory_order::acq_rel, memory_order::seq_cst};
// which form of the call: 0 default arguments, 1..6 an explicit order, 7.. (CAS) two orders
template <class R, class T>
void perform(const R &r, rec<T> &x, unsigned form) {
    const memory_order o = all_orders[form ? (form - 1) % 6 : 5];
    // orders that make sense for this kind of operation
    if (form && form < 7) {
        if (x.op == LOAD && (o == memory_order::release || o == memory_order::acq_rel))
            vf_assume(0);
        if (x.op == STORE && (o == memory_order::consume || o == memory_order::acquire || o == memory_order::acq_rel))
            vf_assume(0);
        if (x.op == ASSIGN)
            vf_assume(0);
    }
    if (form >= 7 && x.op != CAS)
        vf_assume(0);
    switch (x.op) {
        case LOAD: x.r = form ? r.load(o) : r.load(); break;
        case STORE: form ? r.store(x.a, o) : r.store(x.a); break;
        case ASSIGN: x.r = (r = x.a); break;
        case XCHG: x.r = form ? r.exchange(x.a, o) : r.exchange(x.a); break;
        case CAS:
            x.e2 = x.e;
            if (form == 0)
                x.ok = r.compare_exchange_strong(x.e2, x.a);
            else if (form < 7)
                x.ok = r.compare_exchange_strong(x.e2, x.a, o);
            else if (form == 7)
                x.ok = r.compare_exchange_strong(x.e2, x.a, memory_order::acq_rel, memory_order::acquire);
            else
                x.ok = r.compare_exchange_strong(x.e2, x.a, memory_order::seq_cst, memory_order::relaxed);
            break;
        case ADD: x.r = form ? r.fetch_add(x.a, o) : r.fetch_add(x.a); break;
        case SUB: x.r = form ? r.fetch_sub(x.a, o) : r.fetch_sub(x.a); break;
        case AND: x.r = form ? r.fetch_and(x.a, o) : r.fetch_and(x.a); break;
        case OR: x.r = form ? r.fetch_or(x.a, o) : r.fetch_or(x.a); break;
        default: x.r = form ? r.fetch_xor(x.a, o) : r.fetch_xor(x.a);
    }
}
template <class T>
struct frame {
    T before, v, after;
};
template <class T, template <class> class R>
void single_t() {
    frame<T> f{any<T>(), any<T>(), any<T>()};
    const frame<T> g = f;
    T cur = f.v;
    {
        R<T> r(f.v);
        const unsigned n = (unsigned)vf_param("ops", 2);
        for (unsigned i = 0; i < n; ++i) {
            R<T> c(r);  // a copied reference works on the same object
            rec<T> x;
            x.op = vf_pick("op", NOPS);
            x.a = any<T>();
            x.e = any<T>();
            perform(c, x, i == 0 ? vf_pick("form", 9) : 0);
            expect(effect(x, cur), "result");
            expect(f.v == cur, "effect");
            vf_cover("operated");
        }
    }
    expect(int(f.v == cur) & int(f.before == g.before) & int(f.after == g.after), "only-the-object");
}
template <class T>
using posix = vecmem::posix_device_atomic_ref<T>;
template <class T>
using posix_local = vecmem::posix_device_atomic_ref<T, vecmem::device_address_space::local>;
template <class T>
using dummy = vecmem::dummy_device_atomic_ref<T>;
template <class T>
using chosen = vecmem::device_atomic_ref<T>;

// the older pointer based type; on the host it is only for one thread
template <class T>
void pointer_t() {
    frame<T> f{any<T>(), any<T>(), any<T>()};
    const frame<T> g = f;
    T cur = f.v;
    vecmem::atomic<T> r(&f.v);
    for (unsigned i = 0; i < 2; ++i) {
        rec<T> x;
        x.op = vf_pick("op", NOPS);
        x.a = any<T>();
        x.e = any<T>();
        switch (x.op) {
            case LOAD: x.r = r.load(); break;
            case STORE: r.store(x.a); break;
            case ASSIGN: vf_assume(0); break;
            case XCHG: x.r = r.exchange(x.a); break;
            case CAS:
                x.e2 = x.e;
                x.ok = r.compare_exchange_strong(x.e2, x.a);
                break;
            case ADD: x.r = r.fetch_add(x.a); break;
            case SUB: x.r = r.fetch_sub(x.a); break;
            case AND: x.r = r.fetch_and(x.a); break;
            case OR: x.r = r.fetch_or(x.a); break;
            default: x.r = r.fetch_xor(x.a);
        }
        expect(effect(x, cur), "result");
        expect(f.v == cur, "effect");
        vf_cover("operated");
    }
    expect(int(f.before == g.before) & int(f.after == g.after), "only-the-object");
}

constexpr int MAXT = 4, MAXO = 3;
template <class T>
struct shared {
    frame<T> f;
    rec<T> h[MAXT][MAXO];
    unsigned ops, threads;
    unsigned forms[MAXT];
};
template <class T, template <class> class R>
void client(void *arg) {
    shared<T> &s = *(shared<T> *)arg;
    const int t = vf_tid() - 1;
    R<T> r(s.f.v);
    for (unsigned i = 0; i < s.ops; ++i)
        perform(r, s.h[t][i], 0);
}
// is there an order of all operations that explains every answer and the final value?
template <class T>
bool explained(const shared<T> &s, unsigned *next, T cur) {
    bool any_left = false;
    bool yes = false;
    for (unsigned t = 0; t < s.threads; ++t)
        if (next[t] < s.ops) {
            any_left = true;
            T c = cur;
            const bool fits = effect(s.h[t][next[t]], c);
            ++next[t];
            const bool rest = explained(s, next, c);
            --next[t];
            yes = int(yes) | (int(fits) & int(rest));
        }
    return any_left ? yes : s.f.v == cur;
}
template <class T, template <class> class R>
void threads_t() {
    static shared<T> *s;
    s = new shared<T>();
    s->threads = (unsigned)vf_param("threads", 2);
    s->ops = (unsigned)vf_param("ops", 1);
    s->f = {any<T>(), any<T>(), any<T>()};
    const frame<T> g = s->f;
    const u64 set = vf_param("set", 0x3ff);  // the operations to choose from
    for (unsigned t = 0; t < s->threads; ++t)
        for (unsigned i = 0; i < s->ops; ++i) {
            rec<T> &x = s->h[t][i];
            x.op = vf_pick("op", NOPS);
            if (!((set >> x.op) & 1))
                vf_assume(0);
            x.a = any<T>();
            x.e = any<T>();
        }
    for (unsigned t = 0; t < s->threads; ++t)
        vf_spawn(client<T, R>, s);
    vf_join();
    unsigned next[MAXT] = {};
    expect(explained(*s, next, g.v), "some-order-explains-all");
    expect(int(s->f.before == g.before) & int(s->f.after == g.after), "only-the-object");
    vf_cover("joined");
    delete s;
}
}  // namespace

VF_HARNESS_FN(atomic_single) {
    switch (vf_param("kind", 0)) {
        case 0: single_t<u32, chosen>(); break;
        case 1: single_t<u64, posix>(); break;
        case 2: single_t<int, posix>(); break;
        case 3: single_t<u32, dummy>(); break;
        case 4: single_t<long, dummy>(); break;
        case 5: single_t<unsigned short, posix>(); break;
        case 6: single_t<unsigned char, posix_local>(); break;
    }
}
VF_HARNESS_FN(atomic_pointer) { vf_param("kind", 0) ? pointer_t<u64>() : pointer_t<u32>(); }
VF_HARNESS_FN(atomic_threads) {
    switch (vf_param("kind", 0)) {
        case 0: threads_t<u32, chosen>(); break;
        case 1: threads_t<u64, posix>(); break;
        case 2: threads_t<unsigned short, posix>(); break;
    }
}

// Writes made before a releasing operation are visible after an acquiring one saw it.
namespace {
template <class T>
struct letter {
    T flag = 0;
    u32 data = 0, want = 0;
    unsigned send = 0, sendForm = 0, recv = 0, recvForm = 0;
    int seen = 0;
};
template <class T, template <class> class R>
void sender(void *arg) {
    letter<T> &l = *(letter<T> *)arg;
    l.data = l.want;
    R<T> r(l.flag);
    // 0 the default order, 1 release, 2 acquire-release
    const memory_order o = l.sendForm == 1 ? memory_order::release : memory_order::acq_rel;
    T e = 0;
    switch (l.send) {
        case STORE: l.sendForm ? r.store(1, memory_order::release) : r.store(1); break;
        case ASSIGN: r = 1; break;
        case XCHG: l.sendForm ? r.exchange(1, o) : r.exchange(1); break;
        case CAS:
            l.sendForm == 0   ? r.compare_exchange_strong(e, 1)
            : l.sendForm == 1 ? r.compare_exchange_strong(e, 1, memory_order::release)
            : l.sendForm == 2 ? r.compare_exchange_strong(e, 1, memory_order::acq_rel)
                              : r.compare_exchange_strong(e, 1, memory_order::release, memory_order::relaxed);
            break;
        case ADD: l.sendForm ? r.fetch_add(1, o) : r.fetch_add(1); break;
        case SUB: l.sendForm ? r.fetch_sub(T(-1), o) : r.fetch_sub(T(-1)); break;
        case OR: l.sendForm ? r.fetch_or(1, o) : r.fetch_or(1); break;
        case XOR: l.sendForm ? r.fetch_xor(1, o) : r.fetch_xor(1); break;
        default: break;
    }
}
template <class T, template <class> class R>
void receiver(void *arg) {
    letter<T> &l = *(letter<T> *)arg;
    R<T> r(l.flag);
    // 0 the default order, 1 acquire, 2 acquire-release, 3 consume
    const memory_order o = l.recvForm == 1   ? memory_order::acquire
                           : l.recvForm == 2 ? memory_order::acq_rel
                                             : memory_order::consume;
    T got = 0, e = 1;
    switch (l.recv) {
        case LOAD: got = l.recvForm ? r.load(o) : r.load(); break;
        case XCHG: got = l.recvForm ? r.exchange(1, o) : r.exchange(1); break;
        case CAS:
            got = l.recvForm == 0   ? r.compare_exchange_strong(e, 1)
                  : l.recvForm == 1 ? r.compare_exchange_strong(e, 1, memory_order::acquire)
                  : l.recvForm == 2 ? r.compare_exchange_strong(e, 1, memory_order::acq_rel)
                                    : r.compare_exchange_strong(e, 1, memory_order::acquire, memory_order::relaxed);
            break;
        case NOPS: {
            // an exchange that fails: a read with an order of its own
            T f = 2;
            const bool done = l.recvForm == 0   ? r.compare_exchange_strong(f, 3)
                              : l.recvForm == 1 ? r.compare_exchange_strong(f, 3, memory_order::acquire)
                              : l.recvForm == 2 ? r.compare_exchange_strong(f, 3, memory_order::acq_rel)
                              : l.recvForm == 3 ? r.compare_exchange_strong(f, 3, memory_order::acq_rel, memory_order::acquire)
                                                : r.compare_exchange_strong(f, 3, memory_order::seq_cst, memory_order::consume);
            expect(!done, "exchanged-another-value");
            got = f;
            break;
        }
        case ADD: got = l.recvForm ? r.fetch_add(0, o) : r.fetch_add(0); break;
        case SUB: got = l.recvForm ? r.fetch_sub(0, o) : r.fetch_sub(0); break;
        case AND: got = l.recvForm ? r.fetch_and(1, o) : r.fetch_and(1); break;
        case OR: got = l.recvForm ? r.fetch_or(0, o) : r.fetch_or(0); break;
        case XOR: got = l.recvForm ? r.fetch_xor(0, o) : r.fetch_xor(0); break;
        default: break;
    }
    if (got == 1) {
        expect(l.data == l.want, "published-data");
        l.seen = 1;
    }
}
template <class T, template <class> class R>
void publish_t() {
    static letter<T> *l;
    l = new letter<T>();
    l->want = (u32)vf_sym("want", 32);
    l->send = vf_pick("send", NOPS);
    l->recv = vf_pick("recv", NOPS + 1);
    l->sendForm = vf_pick("sendForm", 4);
    l->recvForm = vf_pick("recvForm", 5);
    if (l->recvForm == 4 && l->recv != NOPS)
        vf_assume(0);
    if (l->send == LOAD || l->send == AND || l->recv == STORE || l->recv == ASSIGN)
        vf_assume(0);
    if (l->sendForm == 3 && l->send != CAS)
        vf_assume(0);
    if ((l->send == STORE && l->sendForm > 1) || (l->send == ASSIGN && l->sendForm))
        vf_assume(0);
    if (l->recv == LOAD && l->recvForm == 2)
        vf_assume(0);
    vf_spawn(sender<T, R>, l);
    vf_spawn(receiver<T, R>, l);
    vf_join();
    if (l->seen)
        vf_cover("received");
    expect(l->flag == 1 || l->send == XOR || l->send == ADD || l->send == SUB || l->send == CAS, "flag-set");
    delete l;
}
}  // namespace
VF_HARNESS_FN(atomic_publish) { vf_param("kind", 0) ? publish_t<u64, posix>() : publish_t<u32, chosen>(); }
