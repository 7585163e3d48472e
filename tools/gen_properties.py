#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept in a script so that long lines stay reviewable).
import json, os
R=[]
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    R.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
C="core/include/vecmem/"; S="core/src/"
MD=S+"memory/details/"

# ---------------------------------------------------------------- memory
P("M01","Pool resource hands out disjoint, big enough, aligned blocks",
 "At any time, the blocks that a pool memory resource has handed out and not got back are pairwise disjoint, each at least as large as requested and lying entirely inside memory obtained from the upstream resource and not yet returned to it. Each block is aligned as requested. This holds for pooled, oversized and over-aligned requests, with and without caching.",
 ["histories","inputs","configurations"],
 "every sequence of allocations and deallocations, every size and power-of-two alignment, every accepted option set",
 "Tests run a few fixed allocate/deallocate loops with default options; overlap depends on the size class, on the option set and on the reuse history.",
 [MD+"pool_memory_resource_impl.cpp",S+"utils/integer_math.hpp"],
 [("size-class selection and chunk splitting",MD+"pool_memory_resource_impl.cpp allocate()"),("free lists and oversized cache",MD+"pool_memory_resource_impl.cpp deallocate()")],
 [("free_blocks","blocks available per size class",MD+"pool_memory_resource_impl.hpp"),("m_cached_oversized","returned oversized blocks, sorted",MD+"pool_memory_resource_impl.hpp")])
P("M02","Pool resource settles its account with the upstream resource exactly",
 "Every block a pool memory resource obtained from upstream is returned to the same upstream exactly once, with the pointer, size and alignment it was obtained with, at the latest when the pool is destroyed and all its clients gave their blocks back. Nothing else is ever returned upstream, and nothing is returned while a client still holds part of it.",
 ["histories","inputs","configurations"],
 "every history of allocations and deallocations followed by destruction, every accepted option set",
 "Tests do not observe what the pool returns upstream; a leak or a wrong size is silent with malloc underneath.",
 [MD+"pool_memory_resource_impl.cpp"],[("destructor and uncached oversized path",MD+"pool_memory_resource_impl.cpp")])
P("M03","Pool resource reuses returned memory and honours its options",
 "Memory given back to a pool memory resource satisfies a later identical request without a new upstream request (for oversized blocks: when caching is on and both cut-off factors exceed one). Requests above the largest block size or alignment go upstream with exactly the requested alignment and the requested size (rounded up to at most the smallest block size), a cached oversized block is only used when it is big enough, aligned enough and below the configured cut-off factor for size, and inconsistent option sets are rejected with an invalid-argument error.",
 ["histories","inputs","configurations"],
 "every request size and alignment, every option set, every history within the bound",
 "Tests use the default options only and check only that allocation works.",
 [MD+"pool_memory_resource_impl.cpp",C+"memory/pool_memory_resource.hpp"],[("option validation",MD+"pool_memory_resource_impl.cpp check_valid()"),("oversized cache lookup",MD+"pool_memory_resource_impl.cpp allocate()")])
P("M04","Binary page resource hands out disjoint, big enough blocks",
 "At any time the blocks handed out by a binary page memory resource and not yet returned are pairwise disjoint, at least as large as requested, and lie inside memory currently held from upstream. Blocks of a size start at a multiple of that (rounded) size from the start of their upstream block.",
 ["histories","inputs"],
 "every sequence of allocations and deallocations and every size whose rounding fits in the address space",
 "Tests cover a few fixed size lists; the buddy-page index arithmetic depends on the split/merge history.",
 [MD+"binary_page_memory_resource_impl.cpp",S+"utils/integer_math.hpp"],
 [("page search, split and unsplit",MD+"binary_page_memory_resource_impl.cpp"),("page index to address mapping",MD+"binary_page_memory_resource_impl.cpp page_ref::get_addr()")],
 [("m_pages","state per page of the buddy tree",MD+"binary_page_memory_resource_impl.hpp")])
P("M05","Binary page resource merges, reuses and finally returns its memory",
 "After a block is returned to a binary page memory resource, its memory (merged with free neighbours) is available again: once everything is returned, any request whose rounded size lies between 1/256 of and the whole of an upstream block already held is served without another upstream request. On destruction every upstream block is returned exactly once with the size and alignment it was obtained with.",
 ["histories","inputs"],
 "every history of allocations and deallocations followed by a large request and by destruction",
 "Fragmentation and leaks are invisible to tests that only check that pointers are usable.",
 [MD+"binary_page_memory_resource_impl.cpp"],[("sibling merge",MD+"binary_page_memory_resource_impl.cpp deallocate()"),("superpage ownership",MD+"binary_page_memory_resource_impl.hpp superpage::m_memory")])
P("M06","Arena resource hands out disjoint, big enough blocks",
 "At any time the blocks handed out by an arena memory resource and not yet returned are non-null, pairwise disjoint, at least as large as requested and lie inside single blocks currently held from upstream.",
 ["histories","inputs","configurations"],
 "every sequence of allocations and deallocations, request size, initial arena size and placement of the upstream blocks (adjacent or not)",
 "Tests use one arena size and one upstream; splitting and merging depends on the history and on where upstream blocks lie.",
 [MD+"arena_memory_resource_impl.cpp"],[("first fit with split, address-ordered merge, arena growth",MD+"arena_memory_resource_impl.cpp")],
 [("free_blocks_","address-ordered free blocks",MD+"arena_memory_resource_impl.hpp"),("allocated_blocks_","live blocks",MD+"arena_memory_resource_impl.hpp")])
P("M07","Arena resource reuses its memory and returns all of it upstream",
 "Memory returned to an arena memory resource is reused: after everything has been returned, a request no larger than the arena's initial block (and below the resource's direct-growth threshold) needs no upstream request. On destruction every upstream block is returned exactly once with the pointer, size and alignment it was obtained with, wherever the upstream blocks lie.",
 ["histories","inputs","configurations"],
 "every history, arena size and placement of upstream blocks",
 "Tests never look at the calls that the arena makes to its upstream resource.",
 [MD+"arena_memory_resource_impl.cpp"],[("coalescing and destructor",MD+"arena_memory_resource_impl.cpp")])
P("M08","Contiguous resource places blocks in order inside its one buffer",
 "A contiguous memory resource takes one block of the given size from upstream and returns it exactly once at destruction. Every non-empty allocation either returns an aligned block inside that buffer, after all earlier ones and not overlapping any, or throws bad_alloc; it throws only when the request does not fit in the rest of the buffer, and a failed request changes nothing; deallocation never frees anything.",
 ["histories","inputs"],
 "every buffer size and address, every sequence of sizes and power-of-two alignments",
 "Tests try a handful of sizes at one buffer address; overflow and alignment padding corner cases depend on exact values.",
 [MD+"contiguous_memory_resource_impl.cpp"],[("aligned bump pointer",MD+"contiguous_memory_resource_impl.cpp allocate()")],
 [("m_next","next free address",MD+"contiguous_memory_resource_impl.hpp")])
P("M09","Host resource returns usable aligned memory or throws, and frees it",
 "A host memory resource returns, for every non-zero size and power-of-two alignment, a block of at least that size with that alignment, or throws bad_alloc; it never returns a smaller block because of arithmetic overflow. Returning a block frees exactly that block, once.",
 ["inputs","fault_sequences"],
 "every size up to the maximum of the size type, every power-of-two alignment, every outcome of the C allocator",
 "Tests use small sizes and a few alignments.",
 [S+"memory/host_memory_resource.cpp"],[("size and alignment adjustment",S+"memory/host_memory_resource.cpp do_allocate()")])
P("M10","Choice resource sends each request to the chosen resource and back",
 "A choice memory resource consults its decision function with the exact size and alignment for every non-empty allocation and forwards them unchanged to the chosen resource. A deallocation goes to the resource that served that block, with the same pointer, size and alignment, exactly once, whatever the decision function would say by then; a failing choice propagates the error and leaves no trace.",
 ["histories","inputs","fault_sequences"],
 "every decision sequence, size, alignment, order of deallocation and failure pattern",
 "Tests use one threshold function and a single order of deallocation.",
 [MD+"choice_memory_resource_impl.cpp"],[("allocation registry",MD+"choice_memory_resource_impl.cpp")])
P("M11","Coalescing resource falls through failing resources and routes frees",
 "A coalescing memory resource tries its upstream resources in the given order with the exact size and alignment, returns the first success without trying later ones, and throws bad_alloc only if all of them failed with bad_alloc. A deallocation goes exactly once, unchanged, to the resource that served the block.",
 ["histories","inputs","fault_sequences"],
 "every pattern of upstream failures, size, alignment and order of deallocation",
 "Tests try one or two failure patterns.",
 [MD+"coalescing_memory_resource_impl.cpp"],[("ordered try/catch and registry",MD+"coalescing_memory_resource_impl.cpp")])
P("M12","Conditional, identity and terminal resources forward or refuse exactly",
 "A conditional memory resource forwards a non-empty request unchanged if and only if its predicate accepts that size and alignment, and throws bad_alloc otherwise; an identity resource forwards every request unchanged; a terminal resource never hands out memory for a non-empty request. Deallocations of non-null pointers are forwarded unchanged exactly once by the first two, and have no effect on the last.",
 ["inputs","histories"],
 "every size, alignment, pointer and predicate outcome",
 "Tests use one predicate and a few sizes.",
 [MD+"conditional_memory_resource_impl.cpp",S+"memory/identity_memory_resource.cpp",S+"memory/terminal_memory_resource.cpp"],[("forwarding",MD+"conditional_memory_resource_impl.cpp")])
P("M13","Synchronized resource never lets two threads into its upstream at once",
 "Through one synchronized memory resource, no two calls into the upstream resource ever overlap in time, whatever the threads do, and every request and its result are forwarded unchanged. The lock is released also when the upstream throws.",
 ["schedules","fault_sequences","inputs"],
 "every interleaving of threads allocating and deallocating, every pattern of upstream failures",
 "The existing test, if any interleaving hits at all, runs the few schedules the machine happens to produce.",
 [S+"memory/synchronized_memory_resource.cpp"],[("mutex around upstream calls",S+"memory/synchronized_memory_resource.cpp")],
 [("m_mutex","the lock",C+"memory/synchronized_memory_resource.hpp")])
P("M14","Debug resource detects overlapping blocks and bad deallocations",
 "A debug memory resource throws a logic error when its upstream hands out a block overlapping a live one, when a pointer is returned that is not a live block, or when size or alignment of a deallocation differ from those of the allocation, and does not forward such a deallocation. It raises no error for, and forwards unchanged exactly once, every correct request.",
 ["histories","inputs"],
 "every placement and size of live blocks (in particular all ways two ranges can touch, overlap or nest) and every pointer, size and alignment passed back",
 "Tests try one overlap and one mismatch.",
 [MD+"debug_memory_resource_impl.cpp"],[("overlap scan and registry",MD+"debug_memory_resource_impl.cpp")])
P("M15","Instrumenting resource reports every request exactly and changes none",
 "An instrumenting memory resource forwards every request unchanged and records exactly one event per non-empty request, in order, with its kind, size, alignment and resulting pointer (null for a failed allocation). It calls every registered hook exactly once per matching request, in registration order, before or after the upstream call as its name says and with the exact arguments, and re-raises a failed allocation as bad_alloc.",
 ["histories","inputs","fault_sequences"],
 "every sequence of requests, sizes, alignments and upstream failures, every clock reading",
 "Tests check a few fixed events.",
 [MD+"instrumenting_memory_resource_impl.cpp",C+"memory/instrumenting_memory_resource.hpp"],[("event log and hooks",MD+"instrumenting_memory_resource_impl.cpp")])
P("M16","Memory monitor statistics equal the true allocation history",
 "A memory monitor attached to an instrumenting resource reports, after any history, the exact total of bytes successfully allocated, the bytes outstanding now, the largest value the outstanding bytes ever had, and the average allocation size rounded to the nearest byte once anything was allocated. Failed and empty requests count for nothing.",
 ["histories","inputs","fault_sequences"],
 "every sequence of allocations, deallocations and failures, every size (totals below 2^53 for the average)",
 "Tests check one history.",
 [S+"utils/memory_monitor.cpp"],[("hooks and counters",S+"utils/memory_monitor.cpp")])
P("M17","Memory resources never touch the memory they manage",
 "No memory resource that works on top of an upstream resource ever reads or writes the memory it obtained from upstream, so that all of them work on memory which the host cannot access.",
 ["histories","inputs","configurations"],
 "every history of requests on every kind of downstream memory resource, with upstream blocks at arbitrary addresses that are not host-accessible",
 "Without device hardware all tests run on host memory, where such an access goes unnoticed.",
 [MD+"pool_memory_resource_impl.cpp",MD+"binary_page_memory_resource_impl.cpp",MD+"arena_memory_resource_impl.cpp",MD+"contiguous_memory_resource_impl.cpp",MD+"debug_memory_resource_impl.cpp",MD+"instrumenting_memory_resource_impl.cpp"],
 [("bookkeeping kept outside the managed memory",MD+"*_impl.hpp")])
P("M18","Empty requests and null pointers never reach the upstream resource",
 "For every memory resource of the library except the plainly forwarding identity and synchronized ones and the always throwing terminal one, allocating zero bytes returns null without any upstream request, hook, event or error, and deallocating a null pointer does nothing. Neither changes the behaviour of later requests.",
 ["inputs","histories"],
 "every alignment and size argument, at any point of a history, for every kind of resource",
 "Tests do this once per resource on the initial state only.",
 [MD+"memory_resource_impl.hpp",S+"memory/host_memory_resource.cpp",S+"memory/terminal_memory_resource.cpp"],[("guards in do_allocate/do_deallocate",MD+"memory_resource_impl.hpp")])
P("M19","A failing upstream leaves resources consistent and leaks nothing",
 "If an upstream allocation fails with bad_alloc at any point, the downstream memory resource lets bad_alloc reach its caller, keeps all live blocks valid, serves later requests correctly once upstream recovers, and still returns upstream exactly what it obtained.",
 ["fault_sequences","histories","inputs"],
 "every position of upstream failures in every history of requests within the bound, for the pool, binary page, arena and contiguous resources",
 "No test injects upstream failures into the caching resources.",
 [MD+"pool_memory_resource_impl.cpp",MD+"binary_page_memory_resource_impl.cpp",MD+"arena_memory_resource_impl.cpp",MD+"contiguous_memory_resource_impl.cpp"],[("state updated only after the upstream request succeeded",MD+"*_impl.cpp")])
P("M20","Resources that compare equal are interchangeable",
 "Two memory resources compare equal only if memory obtained from one can be returned through the other: host resources always compare equal to each other, a forwarding resource (identity, synchronized) compares equal to another of its kind only when their upstream resources are equal, stateful resources compare equal only to themselves, and comparison is reflexive. Copies and moves of a synchronized or identity resource stay equal to the original upstream binding.",
 ["configurations","programs"],
 "every pair of resource kinds and every upstream they are built on",
 "Tests compare a few pairs.",
 [MD+"memory_resource_base.cpp",S+"memory/identity_memory_resource.cpp",S+"memory/synchronized_memory_resource.cpp",S+"memory/host_memory_resource.cpp",S+"memory/terminal_memory_resource.cpp"],[("do_is_equal overrides",S+"memory/*.cpp")])
P("M21","Moving a memory resource transfers everything it holds",
 "After a memory resource is move-constructed or move-assigned, the destination accepts the return of every block handed out before the move, keeps handing out disjoint memory, and settles with upstream exactly as the original would have; an assigned-over resource first gives back what it held itself.",
 ["histories","inputs"],
 "every history before and after the move, for every movable resource",
 "Tests do not move resources that have live blocks.",
 [MD+"memory_resource_impl.hpp"],[("defaulted moves of the implementation pointer",MD+"memory_resource_impl.hpp")])
P("U01","Allocator and unique pointers give memory back exactly as they got it",
 "The allocator and the unique allocation/object pointers request exactly the bytes and alignment stated by the element type and count (or the caller), give the same block back to the same resource exactly once with the same size and alignment, also across moves, resets and swaps, and never after release. A request whose byte count would not fit in the size type fails instead of yielding a too small block.",
 ["inputs","histories"],
 "every element count, byte count and sequence of move/reset/release operations",
 "Tests use fixed counts, and malloc ignores sizes on free.",
 [C+"memory/allocator.hpp",S+"memory/allocator.cpp",C+"memory/unique_ptr.hpp",C+"memory/details/unique_alloc_deleter.hpp",C+"memory/details/unique_obj_deleter.hpp"],[("deleters remembering size and resource",C+"memory/details/")])
P("U02","Object pointers construct and destroy each object exactly once",
 "Objects and arrays created through the allocator or a unique object pointer are constructed exactly once per element with the given arguments and destroyed exactly once per element before their memory is returned, for trivial and non-trivial types, also when construction throws (then whatever was allocated is given back).",
 ["inputs","fault_sequences","histories"],
 "every array length in bound, every position at which a constructor throws",
 "Tests do not count constructions or inject exceptions.",
 [C+"memory/unique_ptr.hpp",C+"memory/details/unique_obj_deleter.hpp",C+"memory/allocator.hpp"],[("placement construction and deleter loops",C+"memory/")])
P("A01","Atomic references update memory atomically in every interleaving",
 "Operations through atomic references (load, store, exchange, compare-exchange, fetch-and-op) on the same object by several threads behave as if executed one at a time in some order, each returning what that order implies, and touch only the referenced object. Used by one thread, each operation has exactly the documented effect and result for every value.",
 ["schedules","inputs"],
 "every interleaving of concurrent operations and every operand value, for all supported integer types",
 "Tests run single-threaded with fixed values, or parallel loops with whatever schedule happens.",
 [C+"memory/impl/posix_device_atomic_ref.ipp",C+"memory/impl/atomic.ipp",C+"memory/device_atomic_ref.hpp"],[("compiler atomic built-ins",C+"memory/impl/posix_device_atomic_ref.ipp")])

# ---------------------------------------------------------------- containers
P("C01","Fixed-capacity vector behaves like std::vector within its capacity",
 "Every sequence of constructions, copies, assignments, insertions, erasures, resizes, push/pop and clear operations on a static vector that stays within its capacity leaves it with the same elements, size and return values (iterators as positions) as std::vector would, for trivial and non-trivial element types. Iteration in both directions and every access function agree with that model.",
 ["inputs","histories"],
 "every element value, position, count and operation sequence within the bound",
 "Tests run a few fixed sequences.",
 [C+"containers/impl/static_vector.ipp",C+"containers/static_vector.hpp"],[("element shifting and size update",C+"containers/impl/static_vector.ipp")],
 [("m_size","number of live elements",C+"containers/static_vector.hpp")])
P("C02","Fixed-capacity vector manages element lifetimes exactly",
 "A static vector constructs and destroys each of its elements exactly once, keeps them inside its own suitably aligned storage, and never touches storage outside it; copying yields independent elements.",
 ["inputs","histories"],
 "every operation sequence within capacity on element types with counted construction and destruction, or strict alignment",
 "Tests do not count destructions or use over-aligned element types.",
 [C+"containers/impl/static_vector.ipp",C+"containers/static_vector.hpp"],[("raw storage and placement construction",C+"containers/static_vector.hpp")])
P("C03","Fixed-size and runtime-size arrays behave like std::array",
 "Static arrays, memory-resource backed arrays and device arrays give access to exactly their N elements: indexing, at, front, back, iteration in both directions, fill, size queries and (for the static array) comparisons agree with a std::array of the same values, and, where the array is a host-only type (static and memory-resource backed arrays), at throws out_of_range exactly for positions beyond the end. A memory-resource backed array gets and returns exactly one block of the right size.",
 ["inputs"],
 "every element value and every index, for sizes within the bound, including zero where the type allows it",
 "Tests use fixed values.",
 [C+"containers/impl/static_array.ipp",C+"containers/impl/array.ipp",C+"containers/impl/device_array.ipp"],[("element access",C+"containers/impl/")])
P("C04","Device vector behaves like std::vector within its fixed capacity",
 "A device vector on top of a view shows exactly the view's elements; for a resizable view, assign, push_back, emplace_back, bulk append, pop_back, clear and resize change elements and the shared size exactly as std::vector would, never beyond the capacity, never touching memory outside the element storage and size counter. Iteration, reverse iteration, indexing, at, front, back and size queries agree with that model.",
 ["inputs","histories"],
 "every size, capacity, element value and operation sequence within the bound",
 "Tests run a few fixed sequences.",
 [C+"containers/impl/device_vector.ipp",C+"containers/device_vector.hpp"],[("atomic size counter and placement construction",C+"containers/impl/device_vector.ipp")])
P("C05","Concurrent appends to a device vector never lose or share a slot",
 "When several threads append to the same resizable device vector concurrently within its capacity, every append gets its own distinct slot (bulk appends their own range), no element is lost or overwritten, the returned positions are those of the appended elements, and the final size is the initial size plus the number appended.",
 ["schedules","inputs"],
 "every interleaving of threads using push_back, emplace_back and bulk appends, every element value and initial size",
 "Tests append from parallel loops whose few schedules are up to the machine.",
 [C+"containers/impl/device_vector.ipp",C+"memory/impl/posix_device_atomic_ref.ipp"],[("atomic fetch-add on the size",C+"containers/impl/device_vector.ipp")])
P("C06","Jagged device vectors and their iterators address the right inner vectors",
 "A jagged device vector exposes, for every outer index, a device vector over exactly the inner view at that index, through indexing, at, front, back, iterators and reverse iterators. Iterator arithmetic, comparison and dereference obey the random-access iterator laws.",
 ["inputs"],
 "every outer size, inner size, index and iterator offset within the bound",
 "Tests walk one or two fixed jagged vectors.",
 [C+"containers/impl/jagged_device_vector.ipp",C+"containers/impl/jagged_device_vector_iterator.ipp",C+"containers/impl/reverse_iterator.ipp"],[("iterator arithmetic",C+"containers/impl/jagged_device_vector_iterator.ipp")])
P("C07","Vector buffers own storage that really fits what their view describes",
 "A one-dimensional buffer obtains from its memory resource storage holding capacity elements (plus a size counter when resizable), with element storage and counter aligned, disjoint and inside the block, and its view reports exactly the requested capacity and size. Moving a buffer keeps its view valid and the block is returned exactly once.",
 ["inputs","configurations"],
 "every capacity (including zero) and buffer type, for element types of different size and alignment, with a memory resource returning blocks aligned to no more than asked",
 "Tests only see buffers whose layout happens to work with malloc's generous alignment.",
 [C+"containers/impl/vector_buffer.ipp",C+"containers/impl/aligned_multiple_placement.ipp"],[("layout computation",C+"containers/impl/vector_buffer.ipp")])
P("C08","Jagged buffers own disjoint inner storage for every requested capacity",
 "A jagged buffer built from a list of capacities gives every inner vector its own storage for exactly that many elements, disjoint from all other inner vectors, size counters and descriptors, aligned and inside the memory obtained from the resource; descriptors in host-accessible memory and in the buffer's own memory describe the same layout. Fixed-size buffers report the requested sizes, resizable ones that capacity.",
 ["inputs","configurations"],
 "every list of capacities within the bound (with zeros anywhere), both buffer types, with and without a separate host resource, element types of different size and alignment",
 "Tests use one or two fixed lists.",
 [C+"containers/impl/jagged_vector_buffer.ipp",C+"containers/impl/aligned_multiple_placement.ipp"],[("layout computation",C+"containers/impl/jagged_vector_buffer.ipp")])
P("C09","Views compare, convert and report exactly what they describe",
 "A one-dimensional or jagged view reports the size, capacity and pointers it was built with, survives copies, assignment and conversion to a view of const elements unchanged, and two views compare equal if and only if they describe the same memory in the same way. Views obtained from host containers describe exactly these containers' elements.",
 ["inputs"],
 "every pointer, size and capacity combination, and every host container shape within the bound",
 "Tests compare a few views.",
 [C+"containers/impl/vector_view.ipp",C+"containers/impl/jagged_vector_view.ipp",C+"containers/impl/vector.ipp",C+"containers/impl/jagged_vector.ipp",C+"containers/impl/jagged_vector_data.ipp"],[("constructors and comparison",C+"containers/impl/vector_view.ipp")])
P("C10","Aligned placement of several arrays in one block never overlaps",
 "Placing several arrays in one allocation gives each array a start aligned for its element type and room for all of its elements, in the given order, with no two overlapping and none leaving the block that was requested from the resource, for any alignment of the block that the resource may legally return.",
 ["inputs"],
 "every combination of element counts (including zero) and every block address consistent with the requested alignment",
 "Tests cannot choose block addresses; malloc's are always aligned to 16.",
 [C+"containers/impl/aligned_multiple_placement.ipp"],[("byte counting and std::align",C+"containers/impl/aligned_multiple_placement.ipp")])

# ---------------------------------------------------------------- copy
P("K01","Copying a vector makes the destination equal and touches nothing else",
 "After a one-dimensional copy between views, buffers or into a host vector completes, the destination holds exactly the source's elements, a resizable destination reports exactly the source's size, the source is unchanged and no byte outside the destination's elements and size is written. A destination that cannot hold the source makes the copy throw a length error before anything is written.",
 ["inputs","configurations"],
 "every source size, destination capacity, element value, and every combination of fixed-size and resizable source and destination, within the bound",
 "Tests copy a few fixed vectors.",
 [C+"utils/impl/copy.ipp",S+"utils/copy.cpp"],[("copy_view_impl",C+"utils/impl/copy.ipp")])
P("K02","Copying a jagged vector reproduces every inner vector exactly",
 "After a jagged copy completes, every inner destination vector holds exactly the elements of the matching source vector, resizable inner vectors report the source's sizes, and nothing outside the destination elements and sizes is written, whether or not the memory on either side is contiguous. A destination with another number of inner vectors (unless there is nothing to copy) or too small inner vectors makes the copy throw a length error instead of writing anything.",
 ["inputs","configurations"],
 "every shape within the bound, contiguous and non-contiguous layouts, every combination of fixed-size and resizable source and destination",
 "Tests copy a few fixed shapes.",
 [C+"utils/impl/copy.ipp"],[("copy_views_impl and the contiguity test",C+"utils/impl/copy.ipp")])
P("K03","Setup, memset and size queries act on exactly the described memory",
 "Setting up a buffer makes a resizable one empty (and a jagged buffer's device-side descriptors equal to the host-side ones) without touching anything else; memset fills exactly the bytes of a vector's, or of all inner vectors', storage; the size queries return exactly the current size(s) of a vector, of all inner vectors, or of a structure-of-arrays container.",
 ["inputs","configurations"],
 "every capacity list, fill byte, current size and buffer type within the bound",
 "Tests check one or two fixed shapes.",
 [C+"utils/impl/copy.ipp"],[("setup, memset, get_size(s)",C+"utils/impl/copy.ipp")])
P("K04","Buffers made from containers are faithful copies",
 "Asking the copy object to convert any one-dimensional or jagged container into a buffer returns a buffer, in the memory asked for, whose sizes and contents equal the source, wherever the source's memory is, and asking it to fill a host container from any view gives a container with exactly those contents.",
 ["inputs","configurations"],
 "every shape, element value and buffer kind within the bound",
 "Tests round-trip fixed data.",
 [C+"utils/impl/copy.ipp"],[("to() and host-container copies",C+"utils/impl/copy.ipp")])
P("K05","Every transfer is a valid range copy of the right direction",
 "Every elementary transfer requested by a copy operation reads only bytes of the described source, writes only bytes of the described destination, and carries the direction the caller asked for, so that a device implementation can perform it; transfers of zero bytes never dereference anything. An elementary failure propagates to the caller.",
 ["inputs","configurations","fault_sequences"],
 "every copy, setup and memset operation and shape within the bound, with an elementary copy that records its arguments or fails at any call",
 "Only host-to-host transfers run in tests without a device, where directions and accessibility do not matter.",
 [C+"utils/impl/copy.ipp",C+"utils/copy.hpp"],[("do_copy/do_memset hooks",C+"utils/copy.hpp")])

# ---------------------------------------------------------------- EDM
P("K06","Transfers reach every element whatever the size",
 "Copying or filling a vector, a jagged vector or a structure of arrays moves or sets every byte of every element, and nothing outside the source and destination, for every size the containers can describe, including those of more than 4 GiB; a destination that is too small is refused.",
 ["inputs"],
 "every 32-bit size, capacity and inner size, any addresses",
 "Tests copy a few hundred bytes; sizes past 4 GiB cannot be allocated in a test.",
 [C+"utils/impl/copy.ipp",C+"edm/details/buffer_traits.hpp"],[("byte counts of single and joined transfers",C+"utils/impl/copy.ipp")])
P("E01","Structure-of-arrays buffers lay out every column safely",
 "A structure-of-arrays buffer gives every column (scalar, vector or jagged vector) its own storage for the requested capacity, aligned, inside the memory obtained and disjoint from all others, and its view describes exactly that layout on the host and, after setup, in the buffer's memory.",
 ["inputs","configurations"],
 "every capacity (and list of inner capacities) within the bound including zero, both buffer kinds, with and without a separate host resource",
 "Tests use one schema and one size.",
 [C+"edm/impl/buffer.ipp",C+"edm/details/buffer_traits.hpp",C+"containers/impl/aligned_multiple_placement.ipp"],[("setup_fixed/setup_resizable",C+"edm/impl/buffer.ipp")])
P("E02","Structure-of-arrays host containers keep all columns consistent",
 "All vector columns of a host structure-of-arrays container always have the reported size: resize and reserve act on every column, element access through the container or through proxies reads and writes exactly that row of every column, scalars are shared by all rows, and at throws out_of_range exactly for rows beyond the size. Views of the container describe exactly its columns, with an error when columns differ in size.",
 ["inputs","histories"],
 "every row, size, value and operation sequence within the bound",
 "Tests use fixed data.",
 [C+"edm/impl/host.ipp",C+"edm/details/host_traits.hpp",C+"edm/impl/proxy.ipp",C+"edm/details/proxy_traits.hpp"],[("per-column fold",C+"edm/details/host_traits.hpp")])
P("E03","Structure-of-arrays device containers address and append rows safely",
 "A device structure-of-arrays container reports the view's size and capacity, exposes exactly the described columns and rows, and appending default rows, also from several threads at once, gives each appender its own new row, default-initialised in every vector column, and raises the size by exactly the number appended.",
 ["inputs","schedules"],
 "every size, capacity, row and value within the bound, every interleaving of appending threads",
 "Tests append from a few fixed schedules.",
 [C+"edm/impl/device.ipp",C+"edm/details/device_traits.hpp"],[("atomic row counter",C+"edm/impl/device.ipp push_back_default()")])
P("E04","Copying structure-of-arrays containers preserves every column",
 "Copying between structure-of-arrays host containers, buffers and views in any supported combination reproduces every scalar, vector and jagged column and the size exactly, and writes nothing outside the destination's storage; incompatible sizes make it throw instead. Setting up, filling and asking the size of such containers affects exactly the sizes and descriptors, every element, or nothing.",
 ["inputs","configurations"],
 "every size, inner shape and value within the bound, fixed-size and resizable buffers on either side",
 "Tests round-trip one fixed container.",
 [C+"utils/impl/copy.ipp",C+"edm/impl/view.ipp",C+"edm/impl/host.ipp"],[("copy_payload and per-column copies",C+"utils/impl/copy.ipp")])
P("E05","Tuples keep each element and reference intact",
 "The library's device-usable tuple stores and returns exactly the values it was made from, element by element, through get, tie, make_tuple, copies, assignments and conversions; tied references alias the original objects.",
 ["inputs"],
 "every element value, for the tuple shapes in the bound",
 "Tests use fixed values.",
 [C+"utils/tuple.hpp",C+"utils/impl/tuple.ipp"],[("recursive storage and get",C+"utils/impl/tuple.ipp")])
P("G01","GPU back ends keep the same guarantees on their devices",
 "The CUDA, HIP and SYCL memory resources, copy objects and atomic references provide the guarantees listed for the host (disjoint usable memory, exact copies, atomic updates) on the devices they drive.",
 ["configurations","programs"],
 "every supported device, runtime and operation",
 "The tests need a device, a driver and a vendor compiler.",
 ["cuda/src","hip/src","sycl/src"],[("vendor runtime calls","cuda/src, hip/src, sycl/src")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for r in R:
        assert len(r["title"])<=80,(r["id"],len(r["title"]))
        f.write(json.dumps(r)+"\n")
print(len(R))
