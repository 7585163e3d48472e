// Replay runtime: vf_* for natively compiled harnesses.  Inputs come from the
// file named by VF_INPUTS (lines "name value"), in the order the symbolic
// executor created them.
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <map>
#include <new>
#include <string>
#include <vector>

#include "vf.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#include <sanitizer/asan_interface.h>
#include <sanitizer/lsan_interface.h>
#endif
#endif

extern "C" void VF_ENTRY();
#ifdef VF_SCHED
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t *);
#define RLOCK __real_pthread_mutex_lock
#define RUNLOCK __real_pthread_mutex_unlock
#else
#define RLOCK pthread_mutex_lock
#define RUNLOCK pthread_mutex_unlock
#endif

namespace {
struct In {
    std::string name;
    uint64_t v;
};
std::vector<In> *inputs;
std::map<std::string, uint64_t> *params;
size_t next = 0;
int failures = 0;
const char *expectId = nullptr;
struct Blk {
    char *raw;
    int kind;
    bool live;
    size_t n, pre;
};
std::map<void *, Blk> *blocks;
int64_t liveNew = 0;

uint64_t take(const char *name) {
    if (next >= inputs->size()) {
        // past the recorded inputs: the path under replay ended here
        return 0;
    }
    In &i = (*inputs)[next++];
    if (i.name != name) {
        printf("REPLAY-DIVERGED: wanted %s, recorded %s\n", name, i.name.c_str());
        fflush(stdout);
        _exit(78);
    }
    return i.v;
}
}  // namespace

// ---------------------------------------------------------------- allocation
#ifndef VF_NO_NEW
static void *rawNew(size_t n) {
    void *p = n > (1u << 20) ? nullptr : malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    ++liveNew;
    return p;
}
static void *rawNewA(size_t n, size_t a) {
    void *p = nullptr;
    if (n > (1u << 20) || posix_memalign(&p, a < 8 ? 8 : a, n ? n : 1))
        throw std::bad_alloc();
    ++liveNew;
    return p;
}
static void rawDel(void *p) {
    if (p) {
        --liveNew;
        free(p);
    }
}
void *operator new(size_t n) { return rawNew(n); }
void *operator new[](size_t n) { return rawNew(n); }
void *operator new(size_t n, std::align_val_t a) { return rawNewA(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return rawNewA(n, (size_t)a); }
void operator delete(void *p) noexcept { rawDel(p); }
void operator delete(void *p, size_t) noexcept { rawDel(p); }
void operator delete[](void *p) noexcept { rawDel(p); }
void operator delete[](void *p, size_t) noexcept { rawDel(p); }
void operator delete(void *p, std::align_val_t) noexcept { rawDel(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { rawDel(p); }
void operator delete[](void *p, std::align_val_t) noexcept { rawDel(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { rawDel(p); }
#endif
#ifdef VF_WRAP_ALLOC
// aligned_alloc / free as called by the library (host memory resource)
extern "C" void *__real_aligned_alloc(size_t, size_t);
// a harness may put its own model in their place
extern "C" __attribute__((weak)) void *vf_user_aligned_alloc(size_t, size_t);
extern "C" __attribute__((weak)) bool vf_user_free(void *);
extern "C" void *__wrap_aligned_alloc(size_t a, size_t n) {
    if (vf_user_aligned_alloc)
        return vf_user_aligned_alloc(a, n);
    if (n > (1u << 20))
        return nullptr;
    return vf_malloc(n, a, VF_MALLOC);
}
extern "C" void __real_free(void *);
extern "C" void __wrap_free(void *p) {
    if (vf_user_free && vf_user_free(p))
        return;
    if (blocks && blocks->count(p))
        vf_free(p, VF_MALLOC);
    else
        __real_free(p);
}
#define RFREE __real_free
#else
#define RFREE free
#endif

extern "C" {
uint64_t vf_sym(const char *name, unsigned) { return take(name); }
void vf_symbytes(void *p, size_t n, const char *name) {
    for (size_t i = 0; i < n; ++i)
        ((unsigned char *)p)[i] = (unsigned char)take(name);
}
void vf_assume(int c) {
    if (!c) {
        printf("REPLAY-ASSUMPTION\n");
        fflush(stdout);
        _exit(failures ? 10 : 77);
    }
}
void vf_assert(int c, const char *id) {
    if (!c) {
        printf("REPLAY-ASSERT %s\n", id);
        fflush(stdout);
        ++failures;
        if (expectId && strcmp(id, expectId) == 0)
            _exit(10);
    }
}
void vf_fail(const char *id) {
    printf("REPLAY-ASSERT %s\n", id);
    fflush(stdout);
    _exit(10);
}
void vf_cover(const char *) {}
void vf_done() { _exit(failures ? 10 : 0); }
uint64_t vf_concretize(uint64_t v) { return v; }
uint64_t vf_param(const char *name, uint64_t def) {
    auto it = params->find(name);
    return it == params->end() ? def : it->second;
}
void vf_print(const char *w, uint64_t v) {
    printf("%s %llu\n", w, (unsigned long long)v);
}
void *vf_malloc(size_t n, size_t a, int kind) {
    size_t al = a < 16 ? 16 : a;
    size_t pre = al;  // aligned to a, and (for a >= 16) not to 2a
    while (pre % (2 * al) == 0)
        pre += al;
    if (a < 16)
        pre = 32 + a;
    void *rv = nullptr;
    posix_memalign(&rv, 2 * al < 64 ? 64 : 2 * al, pre + n);  // exact size: a redzone follows
    char *raw = (char *)rv;
    if (!raw)
        abort();
    char *p = raw + pre;
    memset(p, 0xCD, n);
#ifdef VF_ASAN
    __asan_poison_memory_region(raw, pre / 8 * 8);
#endif
    (*blocks)[p] = Blk{raw, kind, true, n, pre};
    if (kind != VF_HARNESS)
        ++liveNew;
    return p;
}
void vf_free(void *p, int kind) {
    if (!p)
        return;
    auto it = blocks->find(p);
    if (it == blocks->end() || !it->second.live || it->second.kind != kind) {
        printf("REPLAY-MEM bad free\n");
        fflush(stdout);
        _exit(11);
    }
    it->second.live = false;
    if (kind != VF_HARNESS)
        --liveNew;
#ifdef VF_ASAN
    __asan_poison_memory_region(p, it->second.n);
#endif
    // the memory stays reserved so that addresses are never reused
}
uint64_t vf_heap_live() { return (uint64_t)liveNew; }
uint64_t vf_extent(const void *p) {
    for (auto &kv : *blocks)
        if (kv.second.live && (const char *)p >= (char *)kv.first &&
            (const char *)p < (char *)kv.first + kv.second.n)
            return (uint64_t)((char *)kv.first + kv.second.n - (const char *)p);
    return 0;
}
int vf_in_object(const void *p, size_t n) { return vf_extent(p) >= n; }
void vf_poison(void *p, size_t n) { memset(p, 0xCD, n); }
}

// ------------------------------------------------------------------- threads
namespace {
struct Th {
    bool finished = false, granted = false, joining = false;
    void *blockedOn = nullptr;
    void (*fn)(void *) = nullptr;
    void *arg = nullptr;
    pthread_t h;
};
std::vector<Th> *th;
std::map<void *, int> *owner;
int cur = 0;
bool multi = false;
thread_local int me = 0;
pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
[[noreturn]] void deadlock() {
    printf("REPLAY-DEADLOCK\n");
    fflush(stdout);
    _exit(12);
}
#ifdef VF_SCHED
bool runnable(int i) {
    Th &t = (*th)[i];
    if (t.finished)
        return false;
    if (t.blockedOn) {
        auto it = owner->find(t.blockedOn);
        return it == owner->end() || it->second < 0;
    }
    if (t.joining) {
        for (size_t k = 0; k < th->size(); ++k)
            if ((int)k != i && !(*th)[k].finished)
                return false;
    }
    return true;
}
void schedule() {
    std::vector<int> r;
    for (size_t i = 0; i < th->size(); ++i)
        if (runnable((int)i))
            r.push_back((int)i);
    if (r.empty())
        deadlock();
    int pick = r[0];
    if (r.size() > 1) {
        uint64_t v = take("sched");
        bool ok = false;
        for (int x : r)
            ok |= x == (int)v;
        if (ok)
            pick = (int)v;
    }
    cur = pick;
    (*th)[cur].granted = true;
    pthread_cond_broadcast(&cv);
}
void waitTurn() {
    while (cur != me)
        pthread_cond_wait(&cv, &big);
}
void visible() {
    if (!multi)
        return;
    RLOCK(&big);
    waitTurn();
    while (true) {
        Th &t = (*th)[me];
        if (t.granted) {
            t.granted = false;
            break;
        }
        schedule();
        waitTurn();
    }
    RUNLOCK(&big);
}
void *threadMain(void *p) {
    me = (int)(intptr_t)p;
    RLOCK(&big);
    waitTurn();
    Th t = (*th)[me];
    RUNLOCK(&big);
    t.fn(t.arg);
    RLOCK(&big);
    (*th)[me].finished = true;
    schedule();
    RUNLOCK(&big);
    return nullptr;
}
#else
void visible() {}
void *threadMain(void *p) {
    me = (int)(intptr_t)p;
    Th t = (*th)[me];
    t.fn(t.arg);
    return nullptr;
}
#endif
}  // namespace
#ifdef VF_SCHED
// Happens-before race detection along the replayed schedule.
namespace {
struct VC {
    uint32_t c[8] = {};
    void join(const VC &o) {
        for (int i = 0; i < 8; ++i)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};
struct Shadow {
    int wt = -1;
    uint32_t wc = 0;
    bool wa = false;  // last write atomic
    uint32_t rc[8] = {}, ra[8] = {};  // plain and atomic reads
};
VC clk[8];
std::map<void *, VC> *syncs;
std::map<uint64_t, Shadow> *shadow;
bool raceOn = false;
void access(const volatile void *p, size_t n, bool write, bool atomic) {
    if (!raceOn || !multi)
        return;
    for (size_t k = 0; k < n; ++k) {
        Shadow &s = (*shadow)[(uint64_t)p + k];
        bool bad = s.wt >= 0 && s.wt != me && !(s.wa && atomic) && s.wc > clk[me].c[s.wt];
        if (write)
            for (int t = 0; t < 8; ++t)
                if (t != me && (s.rc[t] > clk[me].c[t] || (!atomic && s.ra[t] > clk[me].c[t])))
                    bad = true;
        if (bad) {
            printf("REPLAY-RACE on %p by thread %d\n", (void *)p, me);
            fflush(stdout);
            _exit(14);
        }
        if (write)
            s.wt = me, s.wc = clk[me].c[me], s.wa = atomic;
        else
            (atomic ? s.ra : s.rc)[me] = clk[me].c[me];
    }
}
void acquire(const volatile void *p) { clk[me].join((*syncs)[(void *)p]); }
void release(const volatile void *p, bool rmw) {
    VC &v = (*syncs)[(void *)p];
    rmw ? v.join(clk[me]) : (void)(v = clk[me]);
    clk[me].c[me]++;
}
bool acq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
bool rel(int o) { return o == 3 || o == 4 || o == 5; }
void onRmw(const volatile void *p, size_t n, int o) {
    access(p, n, true, true);
    if (acq(o))
        acquire(p);
    if (rel(o))
        release(p, true);
}
}  // namespace
#endif
extern "C" {
void vf_spawn(void (*fn)(void *), void *arg) {
#ifdef VF_SCHED
    RLOCK(&big);
    multi = true;
    Th t;
    t.fn = fn;
    t.arg = arg;
    th->push_back(t);
    size_t id = th->size() - 1;
    clk[id] = clk[me];
    clk[id].c[id]++;
    clk[me].c[me]++;
    if (pthread_create(&(*th)[id].h, nullptr, threadMain, (void *)(intptr_t)id))
        abort();
    RUNLOCK(&big);
#else
    // started together by vf_join, so that they really run concurrently
    Th t;
    t.fn = fn;
    t.arg = arg;
    th->push_back(t);
#endif
}
void vf_join() {
#ifdef VF_SCHED
    RLOCK(&big);
    waitTurn();
    (*th)[0].joining = true;
    if (!runnable(0)) {
        schedule();
        waitTurn();
    }
    (*th)[0].joining = false;
    (*th)[0].granted = false;
    multi = false;
    for (int i = 1; i < 8; ++i)
        clk[me].join(clk[i]);
    RUNLOCK(&big);
    for (size_t i = 1; i < th->size(); ++i)
        if ((*th)[i].fn) {
            pthread_join((*th)[i].h, nullptr);
            (*th)[i].fn = nullptr;
        }
#else
    std::vector<size_t> mine;
    for (size_t i = 1; i < th->size(); ++i)
        if (!(*th)[i].finished) {
            mine.push_back(i);
            pthread_create(&(*th)[i].h, nullptr, threadMain, (void *)(intptr_t)i);
        }
    for (size_t i : mine) {
        pthread_join((*th)[i].h, nullptr);
        (*th)[i].finished = true;
    }
#endif
}
void vf_yield() { visible(); }
int vf_tid() { return me; }

#ifdef VF_SCHED
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    while (true) {
        visible();
        RLOCK(&big);
        auto it = owner->find(m);
        int o = it == owner->end() ? -1 : it->second;
        if (o == me)
            deadlock();
        if (o < 0) {
            (*th)[me].blockedOn = nullptr;
            (*owner)[m] = me;
            acquire(m);
            RUNLOCK(&big);
            return 0;
        }
        (*th)[me].blockedOn = m;
        schedule();
        waitTurn();
        RUNLOCK(&big);
    }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    visible();
    RLOCK(&big);
    auto it = owner->find(m);
    int o = it == owner->end() ? -1 : it->second;
    if (o < 0) {
        (*owner)[m] = me;
        acquire(m);
    }
    RUNLOCK(&big);
    return o < 0 ? 0 : 16;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    RLOCK(&big);
    (*owner)[m] = -1;
    release(m, false);
    RUNLOCK(&big);
    return 0;
}
// the instrumented code calls these instead of plain atomic instructions
#define NOP1(n) void n(void *) {}
#define NOP2(n) void n(void *, unsigned long) {}
#define ACC(N)                                                                          \
    void __tsan_read##N(void *p) { access(p, N, false, false); }                        \
    void __tsan_write##N(void *p) { access(p, N, true, false); }                        \
    void __tsan_unaligned_read##N(void *p) { access(p, N, false, false); }              \
    void __tsan_unaligned_write##N(void *p) { access(p, N, true, false); }              \
    void __tsan_read_write##N(void *p) { access(p, N, true, false); }                   \
    void __tsan_unaligned_read_write##N(void *p) { access(p, N, true, false); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
NOP1(__tsan_func_entry) NOP1(__tsan_vptr_read)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, false); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, false); }
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_vptr_update(void **, void *) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    access(s, n, false, false), access(d, n, true, false);
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    access(s, n, false, false), access(d, n, true, false);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    access(d, n, true, false);
    return memset(d, c, n);
}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOMICS(N, T)                                                              \
    T __tsan_atomic##N##_load(const volatile T *a, int o) {                          \
        visible();                                                                 \
        access(a, sizeof(T), false, true);\
        if (acq(o)) acquire(a);\
        return *a;                                                                 \
    }                                                                              \
    void __tsan_atomic##N##_store(volatile T *a, T v, int o) {                       \
        visible();                                                                 \
        access(a, sizeof(T), true, true);\
        if (rel(o)) release(a, false);\
        *a = v;                                                                    \
    }                                                                              \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) {                       \
        visible();                                                                 \
        onRmw(a, sizeof(T), mo);\
        T o = *a;                                                                  \
        *a = v;                                                                    \
        return o;                                                                  \
    }                                                                              \
    T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) {                      \
        visible();                                                                 \
        onRmw(a, sizeof(T), mo);\
        T o = *a;                                                                  \
        *a = (T)(o + v);                                                           \
        return o;                                                                  \
    }                                                                              \
    T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) {                      \
        visible();                                                                 \
        onRmw(a, sizeof(T), mo);\
        T o = *a;                                                                  \
        *a = (T)(o - v);                                                           \
        return o;                                                                  \
    }                                                                              \
    T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) {                      \
        visible();                                                                 \
        onRmw(a, sizeof(T), mo);\
        T o = *a;                                                                  \
        *a = o & v;                                                                \
        return o;                                                                  \
    }                                                                              \
    T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) {                       \
        visible();                                                                 \
        onRmw(a, sizeof(T), mo);\
        T o = *a;                                                                  \
        *a = o | v;                                                                \
        return o;                                                                  \
    }                                                                              \
    T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) {                      \
        visible();                                                                 \
        onRmw(a, sizeof(T), mo);\
        T o = *a;                                                                  \
        *a = o ^ v;                                                                \
        return o;                                                                  \
    }                                                                              \
    T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) {                     \
        visible();                                                                 \
        onRmw(a, sizeof(T), mo);\
        T o = *a;                                                                  \
        *a = ~(o & v);                                                             \
        return o;                                                                  \
    }                                                                              \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fo) { \
        visible();                                                                 \
        onRmw(a, sizeof(T), *a == *c ? mo : fo);\
        if (*a == *c) {                                                            \
            *a = v;                                                                \
            return 1;                                                              \
        }                                                                          \
        *c = *a;                                                                   \
        return 0;                                                                  \
    }                                                                              \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int f, int g) { \
        return __tsan_atomic##N##_compare_exchange_strong(a, c, v, f, g);          \
    }                                                                              \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fo) { \
        visible();                                                                 \
        onRmw(a, sizeof(T), *a == c ? mo : fo);\
        T o = *a;                                                                  \
        if (o == c)                                                                \
            *a = v;                                                                \
        return o;                                                                  \
    }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
#endif
}

int main(int argc, char **argv) {
    inputs = new std::vector<In>;
    params = new std::map<std::string, uint64_t>;
    blocks = new std::map<void *, Blk>;
    th = new std::vector<Th>(1);
    th->reserve(16);
    owner = new std::map<void *, int>;
    expectId = getenv("VF_EXPECT");
    if (const char *f = getenv("VF_INPUTS")) {
        FILE *fp = fopen(f, "r");
        if (!fp) {
            perror(f);
            return 79;
        }
        char n[256];
        unsigned long long v;
        while (fscanf(fp, "%255s %llu", n, &v) == 2)
            inputs->push_back({n, v});
        fclose(fp);
    }
    for (int i = 1; i < argc; ++i) {
        char *eq = strchr(argv[i], '=');
        if (eq)
            (*params)[std::string(argv[i], eq)] = strtoull(eq + 1, nullptr, 10);
    }
    liveNew = 0;
#ifdef VF_SCHED
    syncs = new std::map<void *, VC>;
    shadow = new std::map<uint64_t, Shadow>;
    clk[0].c[0] = 1;
    raceOn = getenv("VF_RACE") != nullptr;
#endif
    VF_ENTRY();
    fflush(stdout);
    _exit(failures ? 10 : 0);
}
