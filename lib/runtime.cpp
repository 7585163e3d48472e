// C++ runtime pieces that live in shared libraries, written against the
// executor's memory primitives.  Compiled to bitcode and linked to harnesses.
#include <bits/stl_tree.h>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <list>
#include <new>
#include <stdexcept>
#include <unordered_map>
#include <functional>
#include <string>

#include "vf.h"

#define WEAK __attribute__((weak))
static const size_t kMaxBlock = 1u << 20;

WEAK void *operator new(size_t n) {
    if (n > kMaxBlock)
        throw std::bad_alloc();
    return vf_malloc(n, 16, VF_NEW);
}
WEAK void *operator new[](size_t n) {
    if (n > kMaxBlock)
        throw std::bad_alloc();
    return vf_malloc(n, 16, VF_NEWARR);
}
WEAK void *operator new(size_t n, const std::nothrow_t &) noexcept {
    return n > kMaxBlock ? nullptr : vf_malloc(n, 16, VF_NEW);
}
WEAK void *operator new(size_t n, std::align_val_t a) {
    if (n > kMaxBlock)
        throw std::bad_alloc();
    return vf_malloc(n, (size_t)a, VF_NEW);
}
WEAK void *operator new[](size_t n, std::align_val_t a) {
    if (n > kMaxBlock)
        throw std::bad_alloc();
    return vf_malloc(n, (size_t)a, VF_NEWARR);
}
WEAK void operator delete(void *p) noexcept { vf_free(p, VF_NEW); }
WEAK void operator delete(void *p, size_t) noexcept { vf_free(p, VF_NEW); }
WEAK void operator delete[](void *p) noexcept { vf_free(p, VF_NEWARR); }
WEAK void operator delete[](void *p, size_t) noexcept { vf_free(p, VF_NEWARR); }
WEAK void operator delete(void *p, std::align_val_t) noexcept { vf_free(p, VF_NEW); }
WEAK void operator delete(void *p, size_t, std::align_val_t) noexcept {
    vf_free(p, VF_NEW);
}
WEAK void operator delete[](void *p, std::align_val_t) noexcept { vf_free(p, VF_NEWARR); }
WEAK void operator delete[](void *p, size_t, std::align_val_t) noexcept {
    vf_free(p, VF_NEWARR);
}
WEAK void operator delete(void *p, const std::nothrow_t &) noexcept {
    vf_free(p, VF_NEW);
}
// Text output has no effect on the checked properties.
namespace {
char g_streams[2];
}
#undef stdout
#undef stderr
extern "C" {
FILE *stdout = reinterpret_cast<FILE *>(&g_streams[0]);
FILE *stderr = reinterpret_cast<FILE *>(&g_streams[1]);
WEAK int printf(const char *, ...) { return 0; }
WEAK int fprintf(FILE *, const char *, ...) { return 0; }

WEAK int vfprintf(FILE *, const char *, va_list) { return 0; }
WEAK int putc(int c, FILE *) { return c; }
WEAK int puts(const char *) { return 0; }
WEAK int fputs(const char *, FILE *) { return 0; }
WEAK int fputc(int c, FILE *) { return c; }

WEAK int fflush(FILE *) { return 0; }
WEAK size_t fwrite(const void *, size_t, size_t n, FILE *) { return n; }
WEAK int snprintf(char *b, size_t n, const char *, ...) {
    if (n != 0)
        *b = 0;
    return 0;
}
WEAK int posix_memalign(void **r, size_t a, size_t n) {
    void *p = aligned_alloc(a, n);
    if (p == nullptr)
        return 12;
    *r = p;
    return 0;
}
}
extern "C" {
WEAK void *malloc(size_t n) { return n > kMaxBlock ? nullptr : vf_malloc(n, 16, VF_MALLOC); }
WEAK void *aligned_alloc(size_t a, size_t n) {
    return n > kMaxBlock ? nullptr : vf_malloc(n, a, VF_MALLOC);
}
WEAK void free(void *p) { vf_free(p, VF_MALLOC); }
}

namespace std {
void __throw_bad_alloc() { throw std::bad_alloc(); }
void __throw_bad_array_new_length() { throw std::bad_alloc(); }
void __throw_length_error(const char *m) { throw std::length_error(m); }
void __throw_logic_error(const char *m) { throw std::logic_error(m); }
void __throw_out_of_range(const char *m) { throw std::out_of_range(m); }
void __throw_out_of_range_fmt(const char *m, ...) { throw std::out_of_range(m); }
void __throw_invalid_argument(const char *m) { throw std::invalid_argument(m); }
void __throw_runtime_error(const char *m) { throw std::runtime_error(m); }
void __throw_bad_function_call() { throw std::bad_function_call(); }
void __throw_system_error(int) { throw std::runtime_error("system"); }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

// red-black tree primitives: an unbalanced search tree has the same
// observable behaviour (order of the elements)
using NP = _Rb_tree_node_base *;
static NP treeInc(NP x) {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left)
            x = x->_M_left;
        return x;
    }
    NP y = x->_M_parent;
    while (x == y->_M_right) {
        x = y;
        y = y->_M_parent;
    }
    if (x->_M_right != y)
        x = y;
    return x;
}
static NP treeDec(NP x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
        return x->_M_right;
    if (x->_M_left) {
        NP y = x->_M_left;
        while (y->_M_right)
            y = y->_M_right;
        return y;
    }
    NP y = x->_M_parent;
    while (x == y->_M_left) {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
NP _Rb_tree_increment(NP x) throw() { return treeInc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() {
    return treeInc(const_cast<NP>(x));
}
NP _Rb_tree_decrement(NP x) throw() { return treeDec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() {
    return treeDec(const_cast<NP>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, NP x, NP p,
                                   _Rb_tree_node_base &h) throw() {
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) {
            h._M_parent = x;
            h._M_right = x;
        } else if (p == h._M_left)
            h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right)
            h._M_right = x;
    }
}
NP _Rb_tree_rebalance_for_erase(NP const z, _Rb_tree_node_base &h) throw() {
    if (h._M_left == z)
        h._M_left = treeInc(z);
    if (h._M_right == z)
        h._M_right = h._M_parent == z && !z->_M_left ? &h : treeDec(z);
    auto replace = [&](NP u, NP v) {
        if (h._M_parent == u)
            h._M_parent = v;
        else if (u == u->_M_parent->_M_left)
            u->_M_parent->_M_left = v;
        else
            u->_M_parent->_M_right = v;
        if (v)
            v->_M_parent = u->_M_parent;
    };
    if (!z->_M_left)
        replace(z, z->_M_right);
    else if (!z->_M_right)
        replace(z, z->_M_left);
    else {
        NP y = z->_M_right;
        while (y->_M_left)
            y = y->_M_left;
        if (y->_M_parent != z) {
            replace(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if (!h._M_parent) {
        h._M_left = &h;
        h._M_right = &h;
    }
    return z;
}

namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    size_t r = 13;
    while (r < n)
        r = r * 2 + 1;
    _M_next_resize = r;
    return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne,
                                                        size_t ins) const {
    if (ne + ins > _M_next_resize || nb == 1) {
        size_t want = ne + ins < 13 ? 13 : ne + ins;
        if (want > nb || nb == 1)
            return {true, _M_next_bkt(want)};
        _M_next_resize = nb;
    }
    return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base *const p) noexcept {
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    _M_next->_M_prev = _M_prev;
    _M_prev->_M_next = _M_next;
}
void _List_node_base::_M_transfer(_List_node_base *const f,
                                  _List_node_base *const l) noexcept {
    if (this != l) {
        l->_M_prev->_M_next = this;
        f->_M_prev->_M_next = l;
        _M_prev->_M_next = f;
        _List_node_base *const t = _M_prev;
        _M_prev = l->_M_prev;
        l->_M_prev = f->_M_prev;
        f->_M_prev = t;
    }
}
}  // namespace __detail

size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
    const unsigned char *c = (const unsigned char *)p;
    size_t h = seed;
    for (size_t i = 0; i < n; ++i)
        h = h * 131 + c[i];
    return h;
}

// time passes, by an arbitrary amount
static uint64_t clockNow = 1000;
static uint64_t tick() {
    return clockNow += 7;
}
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
    return time_point(duration((int64_t)tick()));
}
steady_clock::time_point steady_clock::now() noexcept {
    return time_point(duration((int64_t)tick()));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std

template class std::basic_string<char>;
template class std::allocator<char>;
