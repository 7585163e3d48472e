// Every kind of memory resource, on top of a given one.
#pragma once
#include <functional>
#include <memory>
#include <utility>
#include <vector>

#include "vf.h"

#include "vecmem/memory/arena_memory_resource.hpp"
#include "vecmem/memory/binary_page_memory_resource.hpp"
#include "vecmem/memory/choice_memory_resource.hpp"
#include "vecmem/memory/coalescing_memory_resource.hpp"
#include "vecmem/memory/conditional_memory_resource.hpp"
#include "vecmem/memory/contiguous_memory_resource.hpp"
#include "vecmem/memory/debug_memory_resource.hpp"
#include "vecmem/memory/host_memory_resource.hpp"
#include "vecmem/memory/identity_memory_resource.hpp"
#include "vecmem/memory/instrumenting_memory_resource.hpp"
#include "vecmem/memory/pool_memory_resource.hpp"
#include "vecmem/memory/synchronized_memory_resource.hpp"
#include "vecmem/memory/terminal_memory_resource.hpp"


namespace vfh {
using base_t = std::pmr::memory_resource;
struct counters {
    int hooks = 0;
};
template <class R>
std::unique_ptr<R> make(base_t &up, counters &ct);
using std::make_unique;
template <>
std::unique_ptr<vecmem::pool_memory_resource> make(base_t &up, counters &) {
    vecmem::pool_memory_resource::options o;
    o.min_blocks_per_chunk = 1;
    o.min_bytes_per_chunk = 16;
    o.max_blocks_per_chunk = 3;
    o.max_bytes_per_chunk = 192;
    o.smallest_block_size = 16;
    o.largest_block_size = 64;
    o.alignment = 16;
    o.cached_size_cutoff_factor = 4;
    o.cached_alignment_cutoff_factor = 8;
    return make_unique<vecmem::pool_memory_resource>(up, o);
}
template <>
std::unique_ptr<vecmem::binary_page_memory_resource> make(base_t &up, counters &) {
    return make_unique<vecmem::binary_page_memory_resource>(up);
}
template <>
std::unique_ptr<vecmem::arena_memory_resource> make(base_t &up, counters &) {
    return make_unique<vecmem::arena_memory_resource>(up, 1024, 1 << 20);
}
template <>
std::unique_ptr<vecmem::contiguous_memory_resource> make(base_t &up, counters &) {
    return make_unique<vecmem::contiguous_memory_resource>(up, 4096);
}
template <>
std::unique_ptr<vecmem::choice_memory_resource> make(base_t &up, counters &ct) {
    return make_unique<vecmem::choice_memory_resource>([&up, &ct](std::size_t, std::size_t) -> base_t & {
        ++ct.hooks;
        return up;
    });
}
template <>
std::unique_ptr<vecmem::coalescing_memory_resource> make(base_t &up, counters &) {
    std::vector<std::reference_wrapper<base_t>> v;
    v.push_back(up);
    return make_unique<vecmem::coalescing_memory_resource>(std::move(v));
}
template <>
std::unique_ptr<vecmem::conditional_memory_resource> make(base_t &up, counters &ct) {
    return make_unique<vecmem::conditional_memory_resource>(up, [&ct](std::size_t, std::size_t) {
        ++ct.hooks;
        return true;
    });
}
template <>
std::unique_ptr<vecmem::debug_memory_resource> make(base_t &up, counters &) {
    return make_unique<vecmem::debug_memory_resource>(up);
}
template <>
std::unique_ptr<vecmem::instrumenting_memory_resource> make(base_t &up, counters &ct) {
    auto r = make_unique<vecmem::instrumenting_memory_resource>(up);
    r->add_pre_allocate_hook([&ct](std::size_t, std::size_t) { ++ct.hooks; });
    r->add_post_allocate_hook([&ct](std::size_t, std::size_t, void *) { ++ct.hooks; });
    r->add_pre_deallocate_hook([&ct](void *, std::size_t, std::size_t) { ++ct.hooks; });
    return r;
}
template <>
std::unique_ptr<vecmem::synchronized_memory_resource> make(base_t &up, counters &) {
    return make_unique<vecmem::synchronized_memory_resource>(up);
}
template <>
std::unique_ptr<vecmem::identity_memory_resource> make(base_t &up, counters &) {
    return make_unique<vecmem::identity_memory_resource>(up);
}
template <>
std::unique_ptr<vecmem::host_memory_resource> make(base_t &, counters &) {
    return make_unique<vecmem::host_memory_resource>();
}
// R m(std::move(r)) / a = std::move(b), where the type can be moved
template <class F>
void dispatch(F f) {
    switch (vf_param("kind", 0)) {
        case 0: f.template operator()<vecmem::pool_memory_resource>(); break;
        case 1: f.template operator()<vecmem::binary_page_memory_resource>(); break;
        case 2: f.template operator()<vecmem::arena_memory_resource>(); break;
        case 3: f.template operator()<vecmem::contiguous_memory_resource>(); break;
        case 4: f.template operator()<vecmem::choice_memory_resource>(); break;
        case 5: f.template operator()<vecmem::coalescing_memory_resource>(); break;
        case 6: f.template operator()<vecmem::conditional_memory_resource>(); break;
        case 7: f.template operator()<vecmem::debug_memory_resource>(); break;
        case 8: f.template operator()<vecmem::instrumenting_memory_resource>(); break;
        case 9: f.template operator()<vecmem::synchronized_memory_resource>(); break;
        case 10: f.template operator()<vecmem::identity_memory_resource>(); break;
        case 11: f.template operator()<vecmem::host_memory_resource>(); break;
    }
}
}  // namespace vfh
