"""Which harness functions decide which property, and within which bounds."""


def J(name, src, entry=None, **k):
    d = dict(name=name, src=src, entry=entry or name)
    d.update(k)
    return d


def pool(P, quick, thorough, **k):
    return J("pool_history", "m_pool.cpp", params={"P": P}, split_quick=quick, split_thorough=thorough,
             bounds="ops requests and returns in any order, sizes up to 4 KiB (wide: 2^45), alignments 1 and 64 "
                    "(cfg 3, and thorough: also 16, 4096), option sets cfg of harness/m_pool.cpp (cfg 6: symbolic chunk limits, "
                    "cut-off, caching; cfg 7: chunks growing up to symbolic limits); any upstream addresses",
             uncovered=["moved", "upstream-failed"] + ([] if P == 3 else
                        ["new-chunk", "oversized-fresh", "oversized-from-cache", "reused", "options-rejected"]), **k)


POOL_Q = [{"ops": 3, "cfg": 1, "first": f} for f in (0, 1, 2)] + \
         [{"ops": 5, "cfg": c, "script": 12, "over": 1} for c in (1, 2)] + \
         [{"ops": 5, "cfg": c, "script": 20, "first": 1} for c in (1, 3)] + \
         [{"ops": 2, "cfg": 6, "first": f} for f in (0, 1, 2)] + \
         [{"ops": 5, "cfg": 7, "script": 1 << 20, "maxN": 16, "aligns": 1}] + \
         [{"ops": 2, "cfg": c} for c in (2, 4, 5)] + [{"ops": 2, "cfg": 3, "aligns": 4}] + [{"ops": 1, "cfg": 0, "wide": 1, "maxN": (1 << 64) - 1}]
POOL_T = [{"ops": 4, "cfg": c, "first": f} for f in (0, 1, 2) for c in (1, 2, 3, 4)] + \
         [{"ops": 3, "cfg": c, "first": f, "aligns": 4} for f in (0, 1, 2) for c in (1, 2, 4, 5)] + \
         [{"ops": 7, "cfg": c, "script": s, "over": 1} for c in (1, 2) for s in (0b0011000, 0b0101100)] + \
         [{"ops": 6, "cfg": c, "script": 0b101000, "first": f} for c in (1, 3, 4) for f in (0, 1)] + \
         [{"ops": 3, "cfg": 6, "first": f} for f in (0, 1)] + \
         [{"ops": 6, "cfg": 7, "script": 1 << 20, "maxN": 16, "aligns": 1}] + \
         [{"ops": 2, "cfg": 0, "wide": 1, "maxN": (1 << 64) - 1, "aligns": 4}]

BPAGE_B = ("requests and returns in any order (script bits: 0 request, 1 return), sizes lo..hi bytes, any upstream "
           "addresses; bigger superpages than 32 MiB only by the request that would exceed the address range")
BPAGE_Q = [{"ops": 3, "lo": 129, "hi": 1024}, {"ops": 2, "lo": 1, "hi": 300}, {"ops": 2, "lo": 100000, "hi": 4000000},
           {"ops": 5, "script": 20, "lo": 257, "hi": 2048}, {"ops": 5, "script": 12, "lo": 10000, "hi": 66000},
           {"ops": 3, "lo": 129, "hi": 600, "move": 1}]
BPAGE_T = [{"ops": 4, "lo": 129, "hi": 1024}, {"ops": 3, "lo": 1, "hi": 300}, {"ops": 3, "lo": 100000, "hi": 4000000},
           {"ops": 6, "script": 0b011000, "lo": 257, "hi": 2048}, {"ops": 6, "script": 0b101100, "lo": 10000, "hi": 66000},
           {"ops": 7, "script": 0b0111000, "lo": 257, "hi": 1024},
           {"ops": 4, "lo": 129, "hi": 600, "move": 1}]


def bpage(P, quick, thorough, **k):
    return J("bpage_history", "m_bpage.cpp", params={"P": P}, split_quick=quick, split_thorough=thorough,
             bounds=BPAGE_B,
             uncovered=["upstream-failed", "merged", "moved", "returned", "served-from-held-memory"], **k)


ARENA_B = ("requests and returns in any order (script bits: 0 request, 1 return), sizes lo..hi bytes, initial arena "
           "size init or any in 256..2048, any upstream addresses")
ARENA_Q = [{"ops": 3, "init": 512, "hi": 300}, {"ops": 5, "init": 1024, "hi": 512, "script": 12}, {"ops": 2},
           {"ops": 2, "lo": 200000, "hi": 600000, "init": 300000}, {"ops": 2, "lo": 200000, "hi": (1 << 64) - 1, "init": 1000},
           {"ops": 3, "init": 512, "hi": 300, "move": 1, "script": 4}]
ARENA_T = [{"ops": 4, "init": 512, "hi": 300, "script": s} for s in (0b0100, 0b1000, 0b1100)] + \
          [{"ops": 6, "init": 1024, "hi": 512, "script": s} for s in (0b011000, 0b101100)] + \
          [{"ops": 7, "init": 512, "hi": 300, "script": 0b0011000},
           {"ops": 3, "maxInit": 4096}, {"ops": 3, "lo": 200000, "hi": 600000, "init": 300000, "script": 2},
           {"ops": 3, "lo": 200000, "hi": 600000, "init": 300000, "script": 4},
           {"ops": 2, "lo": 200000, "hi": (1 << 64) - 1, "init": 1000},
           {"ops": 3, "init": 512, "hi": 300, "move": 1}]


def arena(P, quick, thorough, **k):
    return J("arena_history", "m_arena.cpp", params={"P": P}, split_quick=quick, split_thorough=thorough,
             bounds=ARENA_B,
             uncovered=["upstream-failed", "reused", "moved", "returned", "served-from-held-memory"], **k)


LONG_B = ("waves (2) waves of n (20) requests, up to 160 live blocks; sizes of four patterns, one of them in the middle any size up "
          "to 200; returns in any of five orders; upstream addresses going up, down or apart")


def long(kinds, faults=None, **k):
    """Long histories: many live blocks."""
    k.setdefault("bounds", LONG_B)
    if faults:
        return J("long_history", "m_long.cpp", params={"faults": 1}, split_quick=[{"kind": i, "n": 12} for i in faults],
                 split_thorough=[{"kind": i, "n": n} for i in faults for n in (20, 40)],
                 uncovered=["wave", "served-again"], **k)
    return J("long_history", "m_long.cpp", split_quick=[{"kind": i} for i in kinds],
             split_thorough=[{"kind": i, "n": n, "waves": w} for i in kinds for n, w in ((20, 4), (48, 2))],
             uncovered=["failed", "wave", "served-again"], **k)


def routes(choice):
    return J("long_routes", "m_long.cpp", split_quick=[{"choice": choice}], split_thorough=[{"choice": choice, "n": 48}], bounds=LONG_B)


KINDS = ["pool", "binary page", "arena", "contiguous", "choice", "coalescing", "conditional", "debug", "instrumenting",
         "synchronized", "identity", "host"]


FAULT = ["failed-transfer"]
BIGUN = FAULT + ["to-container", "refused", "copied", "no-inner-vectors", "filled", "set-up"]
K1_B = ("vectors of capacity 0..3 (max), fixed-size and resizable, any contents; element sizes 4 and 3 bytes; with 'devices', either "
        "side in host or device memory, transfers done at once or when their event is waited for")
K2_B = ("up to maxOuter (2) inner vectors of up to maxInner (2) elements, contiguous or not, fixed-size and resizable, any contents; "
        "element sizes 4 and 3 bytes; with 'devices', either side in host or device memory, transfers done at once or late")
FAULT_B = "; any one elementary transfer may fail"
HUGE_B = "every 32-bit size and capacity, element sizes 8, 1 and 3, any addresses; "
HUGE_A = "no more than 2^46 bytes of memory per block; transfers are recorded rather than performed"
SOA_B = "schemas of 1 to 4 scalar, vector and jagged columns (harness/soa.hpp)"
E4_B = (SOA_B + ", host containers, fixed-size and resizable buffers of up to maxRows (2) rows and maxInner (2) inner elements, any contents; "
        "on a device, transfers done at once or when their event is waited for")
DEV_A = "a device is modelled as memory that only elementary transfers reach, performed in order"


BIG_B = "the same with many elements: every size up to 8, and beyond it 0, 1, half, all but one or 257, and all of %d; "


def big(name, src, entry, cap, split, bounds="", **k):
    """The same harness with containers of up to `cap` elements."""
    return J(name, src, entry, defines=["-DVF_CAP=%d" % cap], split_quick=split, bounds=BIG_B % cap + bounds, **k)


JOBS = {
    "M01": [pool(1, POOL_Q, POOL_T),
            long([0])],
    "M02": [pool(2, POOL_Q, POOL_T),
            long([0])],
    "M03": [pool(3, POOL_Q, POOL_T),
            J("pool_options", "m_pool.cpp", bounds="block sizes and alignments from a list with zero, non-powers and "
              "2^40; the four chunk limits any 64-bit values"),
            long([0])],
    "M04": [bpage(4, BPAGE_Q + [{"ops": 2, "lo": 1 << 62, "hi": (1 << 64) - 1}],
                  BPAGE_T + [{"ops": 2, "lo": 1 << 40, "hi": (1 << 64) - 1}]),
            long([1])],
    "M05": [bpage(5, BPAGE_Q, BPAGE_T),
            J("bpage_full", "m_bpage.cpp", split=[{"log": 16, "parts": 4}, {"log": 20, "parts": 4}],
              bounds="a superpage cut into parts, all returned in any order, then one request for the whole",
              uncovered=["upstream-failed", "moved", "returned", "new-superpage", "served-from-held-memory", "found"]),
            J("bpage_many", "m_bpage.cpp", defines=["-DVF_MANY"],
              split_quick=[{"n": 12}, {"n": 12, "log": 16}, {"n": 12, "log": 23, "part": 1}], split_thorough=[{"n": n, "log": l, "part": p} for n in (24, 33) for l in (16, 23) for p in (0, 1)],
              bounds="n upstream blocks held and full; any one or two of them (or, with 'part', halves of them) returned, requests of any "
                     "size of one rounding class served from there",
              uncovered=["upstream-failed", "moved", "returned", "new-superpage", "served-from-held-memory", "merged"]),
            long([1])],
    "M06": [arena(6, ARENA_Q, ARENA_T),
            long([2])],
    "M07": [arena(7, ARENA_Q, ARENA_T),
            long([2])],
    "M08": [
        J("m08_sequence", "m_contiguous.cpp",
          split_quick=[{"ops": 3, "wide": 1, "a0": a} for a in (0, 4, 33)] +
                      [{"ops": 2, "full": 1, "wide": 1, "a0": 0, "lo": l, "cnt": 16} for l in (0, 16, 32, 48)],
          split_thorough=[{"ops": 4, "a0": a, "dealloc": 1} for a in (0, 4, 33)] +
                         [{"ops": 3, "a0": a, "aligns": 6} for a in (0, 1, 4, 12, 33, 63)] +
                         [{"ops": 3, "full": 1, "wide": 1, "a0": 0, "lo": l, "cnt": 8} for l in range(0, 64, 8)],
          bounds="any buffer size up to 2^45 and place; ops requests of any 64-bit size; alignment from a "
                 "spread of powers of two, in the 'full' units every power of two for the last request; "
                 "deallocations in between"),
        J("m08_fault", "m_contiguous.cpp", bounds="construction with a failing upstream"),
        long([3])],
    "M09": [J("host_history", "m_host.cpp",
              split_quick=[{"ops": 1}, {"ops": 3, "maxLog": 3, "narrow": 1, "mayFail": 0}, {"ops": 2, "maxLog": 3, "mayFail": 0}],
              split_thorough=[{"ops": 2}, {"ops": 4, "maxLog": 3, "narrow": 1, "mayFail": 0}, {"ops": 3, "maxLog": 3, "mayFail": 0}],
              bounds="any 64-bit size, every power-of-two alignment for single requests; ops requests and returns; the "
                     "operating system's allocator is a model that honours alignment and may fail")],
    "M10": [J("choice_history", "m_forward.cpp", split_quick=[{"ops": 3}, {"ops": 2, "K": 3}], split_thorough=[{"ops": 4}, {"ops": 3, "K": 3}],
              bounds="ops requests/returns, any 64-bit sizes and alignments, any choice (also a throwing one) per request, "
                     "upstream resources that may fail"),
            routes(1)],
    "M11": [J("coalescing_history", "m_forward.cpp", split_quick=[{"ops": 3, "K": 3}, {"ops": 4, "K": 2}, {"ops": 2, "K": 1}, {"ops": 2, "K": 12}],
              split_thorough=[{"ops": 4, "K": 3}, {"ops": 5, "K": 2}, {"ops": 3, "K": 4}, {"ops": 3, "K": 12}],
              bounds="K upstream resources each failing or not, ops requests/returns, any 64-bit sizes and alignments"),
            routes(0)],
    "M12": [J("forward_or_refuse", "m_forward.cpp",
              split_quick=[{"kind": k, "ops": 3, "limit": l} for k in range(4) for l in ((0, 1) if k == 0 else (0,))],
              split_thorough=[{"kind": k, "ops": 4, "limit": l} for k in range(4) for l in ((0, 1) if k == 0 else (0,))],
              bounds="ops requests/returns, any 64-bit sizes and alignments, any predicate"),
            long([6])],
    "M13": [J("sync_threads", "m_sync.cpp", threads=True,
              split_quick=[{}, {"threads": 3, "ops": 1}, {"threads": 2, "ops": 2, "script": 0, "fails": 1}, {"threads": 3, "ops": 2}],
              split_thorough=[{"threads": 3, "ops": 2, "fails": 1}, {"threads": 2, "ops": 3, "script": 2, "fails": 1},
                              {"threads": 4, "ops": 1}, {"threads": 2, "ops": 4, "script": 10}],
              bounds="every interleaving of the threads at visible operations, sequentially consistent; any sizes")],
    "M14": [J("debug_history", "m_forward.cpp",
              split_quick=[{"ops": 2}, {"ops": 3, "script": 4, "bits": 10}, {"ops": 3, "script": 8, "bits": 10}, {"ops": 3, "script": 2, "bits": 10}],
              split_thorough=[{"ops": 3, "script": 4}, {"ops": 3, "script": 8}, {"ops": 3, "script": 2},
                              {"ops": 4, "script": 10, "bits": 10}, {"ops": 4, "script": 8, "bits": 10}],
              bounds="ops requests/returns, an upstream that answers with any address, returns of any pointer, size and "
                     "alignment; addresses and sizes of 'bits' bits"),
            long([7])],
    "M15": [J("instrument_history", "m_forward.cpp", split_quick=[{"ops": 3}, {"ops": 4}, {"ops": 3, "hooks": 0}, {"ops": 3, "hooks": 1}, {"ops": 3, "hooks": 10, "many": 9}],
              split_thorough=[{"ops": 5, "hooks": 1}, {"ops": 6, "hooks": 0}, {"ops": 4, "hooks": 3}, {"ops": 4, "hooks": 20, "many": 18}],
              bounds="ops requests/returns, any 64-bit sizes and alignments, failing upstream, up to 'hooks' hooks of each kind"),
            long([8])],
    "M16": [J("monitor_history", "m_forward.cpp", split_quick=[{"ops": 4}, {"ops": 5}, {"avg": 1, "maxN": 4}],
              split_thorough=[{"ops": 6}, {"ops": 7}, {"avg": 1, "maxN": 6, "ops": 4}],
              bounds="ops requests/returns, sizes up to 2^40 (average: up to maxN bytes, floating point being concrete)"),
            long([8])],
    "M17": [J("generic_history", "m_generic.cpp", params={"P": 17},
              split_quick=[{"kind": k, "ops": 2 if k in (0, 1) else 3} for k in range(12)],
              split_thorough=[{"kind": k, "ops": 3 if k in (0, 1) else 4} for k in range(12)],
              bounds="ops requests/returns of 1..100 bytes through each kind of resource, the upstream memory being "
                     "inaccessible; moves included in M21", uncovered=["failed", "construction-failed"]),
            bpage(17, [{"ops": 3, "lo": 257, "hi": 512}], [{"ops": 4, "lo": 257, "hi": 512}]),
            arena(17, [{"ops": 3, "init": 512, "hi": 300}], [{"ops": 3}])],
    "M18": [J("empty_requests", "m_generic.cpp",
              split_quick=[dict({"kind": k, "ops": 3}, **({"lo": 129, "hi": 256} if k == 1 else {})) for k in (*range(9), 11)],
              split_thorough=[dict({"kind": k, "ops": 3 if k < 2 else 4}) for k in (*range(9), 11)],
              bounds="ops requests, empty requests (any alignment), null returns in any order for each kind of resource")],
    "M19": [J("generic_history", "m_generic.cpp", params={"P": 19},
              split_quick=[{"kind": k, "ops": 2 if k in (0, 1) else 3} for k in range(11)],
              split_thorough=[{"kind": k, "ops": 3 if k in (0, 1) else 4} for k in range(11)],
              bounds="ops requests/returns through each kind of resource, every upstream request may fail",
              uncovered=["construction-failed"]),
            bpage(19, [{"ops": 3, "lo": 257, "hi": 512}], [{"ops": 4, "lo": 257, "hi": 512}]),
            arena(19, [{"ops": 3, "init": 512, "hi": 300}], [{"ops": 4, "init": 512, "hi": 300, "script": 4}]),
            pool(19, [{"ops": 3, "cfg": 1, "first": 0}, {"ops": 3, "cfg": 1, "first": 1}, {"ops": 3, "cfg": 2, "first": 2}],
                 [{"ops": 4, "cfg": c, "first": f} for c in (1, 2) for f in (0, 1, 2)]),
            J("m08_fault", "m_contiguous.cpp", bounds="construction with a failing upstream"),
            long((), faults=(0, 1, 2, 5, 7, 8),
                 bounds=LONG_B + "; the k-th of the first six upstream requests fails")],
    "M20": [J("equality", "m_equal.cpp", bounds="every pair of resource kinds of the library, with equal and different upstreams")],
    "M21": [J("moving", "m_generic.cpp",
              split_quick=[{"kind": k, "ops": 2 if k < 2 else 3} for k in range(10)],
              split_thorough=[{"kind": k, "ops": 3, "ops2": 2 if k > 1 else 1} for k in range(10)],
              bounds="ops requests/returns, move construction or assignment (over a resource that holds memory), ops2 more")],
    "U01": [J("unique_alloc_history", "u_memory.cpp", split_quick=[{"type": t, "ops": 3} for t in range(3)],
              split_thorough=[{"type": t, "ops": 4 if t < 3 else 3} for t in range(4)],
              bounds="two owners on two resources, ops of make/reset/move/swap/release, any 64-bit element count, element types "
                     "of 1, 16, 13 and 128 bytes (alignment 1, 8, 1, 64)"),
            J("unique_alloc_single", "u_memory.cpp", split=[{"type": t} for t in range(4)],
              bounds="every make_unique_alloc form and allocate_object, any 64-bit element count", uncovered=["refused"]),
            J("allocator_bytes", "u_memory.cpp", split_quick=[{"ops": 2}], split_thorough=[{"ops": 3}],
              bounds="ops requests/returns of any size, power-of-two alignments up to 2^20")],
    "U02": [J("object_lifetimes", "u_memory.cpp", split=[{"type": t} for t in range(3)],
              bounds="single objects, arrays of up to 3 objects, a constructor throwing at any construction, three element "
                     "types (one over-aligned)"),
            J("object_arguments", "u_memory.cpp", bounds="any 64-bit argument values")],
    "C01": [J("static_vector_history", "c_static_vector.cpp",
              split_quick=[{"type": t, "ops": 1} for t in (0, 3)] + [{"type": 0, "ops": 2, "first": f} for f in (1, 2, 3, 4, 6, 7, 10, 13, 15, 17)],
              split_thorough=[{"type": 3, "ops": 2, "first": f} for f in range(18)] + [{"type": 0, "ops": 3, "first": f} for f in range(18)],
              bounds="capacity 4, any constructor, then ops operations (all members) at any position with any element values; "
                     "4- and 3-byte elements", assumes="element copies do not throw and elements may be relocated bytewise"),
            J("static_vector_empty_type", "c_static_vector.cpp", bounds="capacity 0"),
            big("static_vector_big", "c_static_vector.cpp", "static_vector_history", 300, [{"type": 0, "ops": 1}],
                "any constructor, then one operation at any of the positions named")],
    "C02": [J("static_vector_history", "c_static_vector.cpp",
              split_quick=[{"type": t, "ops": 1} for t in (1, 2)] + [{"type": 1, "ops": 2, "first": f} for f in (1, 2, 3, 4, 6, 7, 10, 13, 15, 17)],
              split_thorough=[{"type": 2, "ops": 2, "first": f} for f in range(18)] + [{"type": 1, "ops": 3, "first": f} for f in range(18)],
              bounds="capacity 4, any constructor, then ops operations (all members) at any position; elements that record their "
                     "lifetime, with alignment 4 and 64; guard zones around the vector",
              assumes="element copies do not throw and elements may be relocated bytewise"),
            big("static_vector_big", "c_static_vector.cpp", "static_vector_history", 300, [{"type": 1, "ops": 1}],
                "any constructor, then one operation at any of the positions named")],
    "C03": [J("static_arrays", "c_arrays.cpp", split=[{"type": t} for t in range(3)],
              bounds="static_array of 1 to 3 elements of several types with any values, any 64-bit index"),
            J("resource_arrays", "c_arrays.cpp", split=[{"type": t} for t in range(2)],
              bounds="vecmem::array with static and run-time sizes, any values, any 64-bit index"),
            J("device_arrays", "c_arrays.cpp", bounds="device_array over host memory, any index")],
    "A01": [J("atomic_single", "a_atomic.cpp", split_quick=[{"kind": k} for k in range(7)],
              split_thorough=[{"kind": k, "ops": 3} for k in range(7)],
              bounds="ops operations in sequence, every order argument on the first; any initial value and arguments; the "
                     "default, the POSIX and the fallback reference over 8 to 64 bit integers"),
            J("atomic_pointer", "a_atomic.cpp", split=[{"kind": 0}, {"kind": 1}], bounds="2 operations through vecmem::atomic"),
            J("atomic_threads", "a_atomic.cpp", threads=True,
              split_quick=[{"kind": 0}, {"kind": 1}, {"kind": 2}, {"kind": 0, "threads": 3, "set": 120}, {"kind": 0, "ops": 2, "set": 56}],
              split_thorough=[{"kind": 0, "threads": 3}, {"kind": 1, "threads": 2, "ops": 2, "set": 127},
                              {"kind": 1, "threads": 2, "ops": 2, "set": 911}, {"kind": 0, "threads": 4, "set": 48}],
              bounds="every interleaving of 2-4 threads with 'ops' operations each out of 'set', any values; the answers must "
                     "be those of some sequential order; sequentially consistent, races by happens-before"),
            J("atomic_publish", "a_atomic.cpp", threads=True, split=[{"kind": 0}, {"kind": 1}],
              bounds="every releasing operation paired with every acquiring operation, every allowed order argument")],
    "C04": [J("device_history", "d_vector.cpp",
              split_quick=[{"type": t, "ops": 1} for t in range(4)] + [{"type": 0, "ops": 2, "first": f} for f in (0, 2, 5, 7, 8, 14)] +
                          [{"type": 1, "ops": 2, "first": f} for f in (1, 3, 6, 9, 10, 13)],
              split_thorough=[{"type": t, "ops": 2, "first": f} for t in range(3) for f in range(15)],
              bounds="capacity 0..4, any initial size, ops operations (all members), any values; elements of 4, 3, 64 bytes "
                     "and elements that record their lifetime; the memory around elements and counter is watched"),
            J("device_fixed", "d_vector.cpp", split=[{"type": t} for t in range(4)],
              bounds="fixed-size views of 0..4 elements, 2 writes by any route"),
            J("device_rebinding", "d_vector.cpp",
              split_quick=[{"type": 0, "ops": 2, "maxCap": 2}, {"type": 1}, {"type": 2}, {"type": 3, "maxCap": 3}],
              split_thorough=[{"type": 0, "ops": 3, "maxCap": 2}, {"type": 1, "ops": 3, "maxCap": 1}, {"type": 0, "ops": 2}, {"type": 2, "ops": 2}, {"type": 3, "ops": 2}],
              bounds="two memories of 0..maxCap (4) elements, each with a counter or of fixed size; ops operations out of copy assignment, "
                     "assignment from a view, self assignment, copies that are assigned in turn, and changes through any of them"),
            big("device_big", "d_vector.cpp", "device_history", 300, [{"type": 0, "ops": 1}, {"type": 1, "ops": 1}], "one operation")],
    "C05": [J("device_append", "d_vector.cpp", threads=True,
              split_quick=[{"threads": 2}, {"threads": 3, "look": 0, "maxCount": 1}, {"threads": 3, "look": 0, "set": 5},
                           {"ops": 2, "set": 7, "look": 0}, {"ops": 2, "look": 0, "maxCount": 1}, {"threads": 4, "set": 1, "look": 0}],
              split_thorough=[{"threads": 3, "look": 0}, {"ops": 2, "set": 5}, {"ops": 3, "set": 5, "look": 0},
                              {"threads": 4, "set": 5, "look": 0}, {"threads": 3, "ops": 2, "set": 1, "look": 0},
                              {"threads": 2, "maxCount": 3}],
              bounds="every interleaving of 2-4 threads with ops appends each ('set' of the six append forms), bulk appends of up "
                     "to 'maxCount' elements, any values; capacity just enough or one more; sequentially consistent, races by "
                     "happens-before")],
    "C06": [J("jagged_device", "d_views.cpp",
              split_quick=[{"type": t, "use": u} for t in (0, 1) for u in range(4)] + [{"type": 0, "use": 0, "maxOuter": 3}],
              split_thorough=[{"type": t, "use": u, "maxOuter": 3} for t in (0, 1) for u in range(4)],
              bounds="jagged device vectors of up to 2 (maxOuter) inner vectors of up to 2 elements, fixed-size and resizable, every "
                     "offset between iterators"),
            big("jagged_big", "d_views.cpp", "jagged_device", 20, [{"type": 0, "use": 0, "maxOuter": 20}, {"type": 0, "use": 3, "maxOuter": 20}], "inner vectors of up to 2 elements", uncovered=BIGUN)],
    "C07": [J("vector_buffers", "d_buffers.cpp", split=[{"type": t} for t in range(6)],
              bounds="capacities below 2^32, both buffer types, six element types of different size and alignment, any block address "
                     "aligned to no more than asked")],
    "C08": [J("jagged_buffers", "d_buffers.cpp", split_quick=[{"type": t, "maxOuter": 2} for t in range(6)] + [{"type": 0}],
              split_thorough=[{"type": t} for t in range(6)] + [{"type": 0, "maxOuter": 4}],
              bounds="up to maxOuter (3) inner vectors with capacities below 2^32 each, both buffer types, with and without a host "
                     "resource, six element types, any block address aligned to no more than asked"),
            J("many_buffers", "d_buffers.cpp", "jagged_buffers", split_quick=[{"maxOuter": 10, "all": 1}],
              bounds="maxOuter (10) inner vectors, the capacities below 2^32 each, both buffer types", uncovered=BIGUN)],
    "C09": [J("views", "d_views.cpp", split=[{"type": 0}, {"type": 1}], bounds="any 32-bit size and capacity, several pointers"),
            J("host_views", "d_views.cpp", split=[{"type": 0}, {"type": 1}], bounds="host containers of up to 3 inner vectors of up to 2 elements"),
            big("host_views_big", "d_views.cpp", "host_views", 20, [{"type": 0, "maxOuter": 20}, {"type": 1, "maxOuter": 20}], "host containers of up to 20 inner vectors of up to 2 elements", uncovered=BIGUN)],
    "C10": [J("placements", "d_buffers.cpp", split_quick=[{"types": t} for t in range(7)],
              split_thorough=[{"types": t, "log": l} for t in range(7) for l in (32, 36)],
              bounds="one to four arrays of different types (alignments 1 to 64), each count below 2^log, any block address aligned "
                     "to no more than asked")],
    "K01": [J("vector_copy", "k_copy.cpp", split=[{"type": 0}, {"type": 1}], uncovered=FAULT, bounds=K1_B),
            J("vector_copy_device", "k_copy.cpp", "vector_copy", params={"devices": 1}, split_quick=[{"type": 0}],
              split_thorough=[{"type": t, "max": 5} for t in (0, 1)], uncovered=FAULT, bounds=K1_B, assumes=DEV_A),
            big("vector_copy_big", "k_copy.cpp", "vector_copy", 20, [{"max": 300}, {"max": 300, "type": 1}, {"max": 300, "devices": 1}], "vectors of up to 300 elements", uncovered=FAULT, assumes=DEV_A)],
    "K02": [J("jagged_copy", "k_copy.cpp", split_quick=[{"how": 0}, {"how": 0, "type": 1, "maxInner": 1, "maxOuter": 3}] +
                          [{"how": h, "type": h - 1, "maxInner": 1} for h in (1, 2)],
              split_thorough=[{"how": h, "type": t, "toSizes": 1} for h in (0, 1, 2) for t in (0, 1)] +
                             [{"how": 0, "maxOuter": 3, "maxInner": 2}],
              uncovered=FAULT + ["to-container", "refused", "copied"], bounds=K2_B),
            J("jagged_copy_device", "k_copy.cpp", "jagged_copy", params={"devices": 1, "how": 0},
              split_quick=[{"sides": s, "maxInner": 1} for s in range(4)] + [{"sides": 1, "lazy": 1, "directed": 1}],
              split_thorough=[{"sides": s, "lazy": l, "type": t} for s in range(4) for l in (0, 1) for t in (0, 1)],
              uncovered=FAULT + ["to-container"], bounds=K2_B, assumes=DEV_A),
            J("jagged_copy_displaced", "k_copy.cpp", "jagged_copy", params={"maxOuter": 3, "maxInner": 1, "displaced": 2},
              split_quick=[{"how": 0}, {"how": 1, "displaced": 1}, {"how": 2, "displaced": 1}] + [{"how": 0, "devices": 1, "sides": s} for s in (1, 2)],
              split_thorough=[{"how": 0, "displaced": 1, "type": t} for t in (0, 1)] + [{"how": h, "displaced": 1, "maxInner": 2} for h in (1, 2)] +
                             [{"how": 0, "devices": 1, "sides": s, "lazy": 1, "maxInner": 2} for s in range(4)],
              bounds="3 inner vectors, packed one after the other but for one that has left its place for the end", uncovered=BIGUN, assumes=DEV_A),
            big("jagged_copy_big", "k_copy.cpp", "jagged_copy", 20, [{"maxOuter": 20, "how": 0, "displaced": 1}] + [{"maxOuter": 20, "how": h} for h in (0, 1, 2)] + [{"maxOuter": 20, "how": 0, "devices": 1, "sides": 2}],
                "inner vectors of up to 2 elements", uncovered=BIGUN, assumes=DEV_A)],
    "K03": [J("vector_services", "k_copy.cpp", split=[{"type": 0}, {"type": 1}, {"devices": 1}], uncovered=FAULT, bounds=K1_B),
            J("jagged_services", "k_copy.cpp",
              split_quick=[{"maxOuter": 2}, {"maxOuter": 2, "maxInner": 1, "type": 1}, {"maxOuter": 2, "maxInner": 1, "devices": 1},
                           {"maxInner": 1, "displaced": 1}, {"maxInner": 1, "displaced": 2, "devices": 1},
                           {"maxInner": 1, "type": 1}],
              split_thorough=[{"type": 0}, {"type": 1}] + [{"devices": 1, "sides": s, "lazy": 1, "directed": 0} for s in (0, 1)],
              uncovered=FAULT, bounds=K2_B, assumes=DEV_A),
            J("soa_sizes", "e_copy.cpp", "soa_services", params={"devices": 1}, split_quick=[{"schema": 0, "from": 2}, {"schema": 4, "from": 2, "maxRows": 1}],
              split_thorough=[{"schema": c, "from": k} for c in (0, 2, 4, 5) for k in (0, 1, 2)],
              uncovered=FAULT + ["filled", "set-up"], bounds=E4_B, assumes=DEV_A),
            big("services_big", "k_copy.cpp", "vector_services", 20, [{"max": 300}], "vectors of up to 300 elements", uncovered=FAULT),
            big("jagged_services_big", "k_copy.cpp", "jagged_services", 20, [{"maxOuter": 20}], "inner vectors of up to 2 elements", uncovered=FAULT),
            big("soa_sizes_big", "e_copy.cpp", "soa_services", 20, [{"schema": 1, "devices": 1, "from": 2, "maxRows": 20}], "rows", uncovered=BIGUN, assumes=DEV_A)],
    "K04": [J("vector_to", "k_copy.cpp", split=[{"type": 0}, {"type": 1}, {"devices": 1}], uncovered=FAULT, bounds=K1_B),
            J("jagged_to", "k_copy.cpp", split_quick=[{"type": 0}, {"type": 1}, {"devices": 1}, {"maxOuter": 3, "maxInner": 1, "displaced": 1},
                                                      {"maxOuter": 3, "maxInner": 1, "displaced": 2, "devices": 1}],
              split_thorough=[{"type": t, "maxOuter": 3} for t in (0, 1)] + [{"devices": 1, "sides": s, "maxOuter": 3} for s in range(4)],
              uncovered=FAULT, bounds=K2_B, assumes=DEV_A),
            J("jagged_containers", "k_copy.cpp", "jagged_copy",
              split_quick=[{"how": h, "type": h - 1} for h in (1, 2)] + [{"how": h, "devices": 1} for h in (1, 2)],
              split_thorough=[{"how": h, "type": t, "maxOuter": 3} for h in (1, 2) for t in (0, 1)] +
                             [{"how": h, "devices": 1, "type": t} for h in (1, 2) for t in (0, 1)],
              uncovered=FAULT + ["copied", "refused"], bounds=K2_B, assumes=DEV_A),
            big("vector_to_big", "k_copy.cpp", "vector_to", 20, [{"max": 300}], "vectors of up to 300 elements", uncovered=FAULT),
            big("jagged_to_big", "k_copy.cpp", "jagged_to", 20, [{"maxOuter": 20}, {"maxOuter": 20, "devices": 1}], "inner vectors of up to 2 elements", uncovered=FAULT, assumes=DEV_A)],
    "K05": [J("vector_copy_faults", "k_copy.cpp", "vector_copy", params={"devices": 1, "faults": 1}, split_quick=[{"max": 2}],
              split_thorough=[{"type": 0}, {"type": 1}], bounds=K1_B + FAULT_B, assumes=DEV_A),
            J("vector_others_faults", "k_copy.cpp", "vector_to", params={"devices": 1, "faults": 1}, bounds=K1_B + FAULT_B, assumes=DEV_A),
            J("vector_services_faults", "k_copy.cpp", "vector_services", params={"devices": 1, "faults": 1}, bounds=K1_B + FAULT_B,
              assumes=DEV_A),
            J("jagged_copy_faults", "k_copy.cpp", "jagged_copy", params={"devices": 1, "faults": 1},
              split_quick=[{"how": 0, "sides": s, "maxInner": 1} for s in range(4)] + [{"how": 1, "maxInner": 1}, {"how": 0, "faults": 0,
                            "sides": 2, "lazy": 1, "directed": 1}],
              split_thorough=[{"how": 0, "sides": s, "lazy": l, "maxFail": 8} for s in range(4) for l in (0, 1)] + [{"how": 1}, {"how": 2}],
              uncovered=FAULT + ["to-container", "refused", "copied"], bounds=K2_B + FAULT_B, assumes=DEV_A),
            J("jagged_to_faults", "k_copy.cpp", "jagged_to", params={"devices": 1, "faults": 1},
              split_quick=[{"maxInner": 1, "sides": s} for s in (1, 2, 3)], split_thorough=[{"sides": s, "maxFail": 8} for s in range(4)],
              bounds=K2_B + FAULT_B, assumes=DEV_A),
            J("jagged_services_faults", "k_copy.cpp", "jagged_services", params={"devices": 1, "faults": 1, "maxInner": 1},
              split_quick=[{"maxOuter": 1}, {"maxOuter": 2, "sides": 1, "lazy": 1, "directed": 0}],
              split_thorough=[{"maxOuter": 2}], bounds=K2_B + FAULT_B, assumes=DEV_A),
            J("soa_faults", "e_copy.cpp", "soa_copy", params={"devices": 1, "faults": 1},
              split_quick=[{"schema": 5, "from": 1, "to": 2, "maxRows": 1}, {"schema": 4, "from": 2, "to": 1, "maxRows": 1, "maxInner": 1}],
              split_thorough=[{"schema": c, "from": f, "to": t, "maxRows": 1} for c in (0, 4) for f in (1, 2) for t in (1, 2)],
              uncovered=["refused"], bounds=E4_B + FAULT_B, assumes=DEV_A)],
    # the payload's size and place, whatever it is: memory is not touched
    "K06": [J("vector_huge", "k_huge.cpp", split_quick=[{"type": t} for t in (0, 1, 2)], bounds=HUGE_B + "one vector", assumes=HUGE_A),
            J("jagged_huge", "k_huge.cpp", split_quick=[{"type": t} for t in (0, 1, 2)] + [{"same": 1}],
              split_thorough=[{"type": t, "rows": 3} for t in (0, 1, 2)] + [{"rows": 3, "same": 1}, {"rows": 4, "same": 1}, {"rows": 1}],
              uncovered=["refused"], bounds=HUGE_B + "rows (2; thorough 1..4) inner vectors", assumes=HUGE_A),
            J("soa_huge", "k_huge.cpp",
              split_quick=[{"schema": c} for c in (0, 2, 4, 5)] + [{"schema": c, "same": 1} for c in (1, 4)],
              split_thorough=[{"schema": c, "rows": r} for c in (1, 4) for r in (1, 2)] + [{"schema": c} for c in (0, 2, 5)] +
                             [{"schema": c, "same": 1, "rows": 2} for c in (0, 1, 2, 4, 5)],
              uncovered=["refused"], bounds=HUGE_B + "five schemas (harness/soa.hpp), jagged ones with 1 row (thorough 2)", assumes=HUGE_A)],
    "E01": [J("soa_buffer", "e_buffer.cpp",
              split_quick=[{"schema": 0}, {"schema": 2}, {"schema": 4}, {"schema": 1, "maxCap": 2}, {"schema": 5},
                           {"schema": 4, "two": 1}, {"schema": 1, "two": 1, "maxCap": 1}],
              split_thorough=[{"schema": c, "maxCap": 5} for c in (0, 2, 5)] + [{"schema": c, "maxCap": 4} for c in (1, 4)] +
                             [{"schema": 4, "two": 1, "maxCap": 4}, {"schema": 1, "two": 1}],
              uncovered=["empty"],
              bounds=SOA_B + "; capacities 0..3 (thorough 5), inner capacities 0..3, or any 32-bit values with two resources; any upstream addresses")],
    "E02": [J("soa_host", "e_soa.cpp", split_quick=[{"schema": c, "ops": 1} for c in range(6)] + [{"schema": c, "ops": 2, "maxRows": 2} for c in (2, 5)],
              split_thorough=[{"schema": c, "ops": 2} for c in range(6)] + [{"schema": 2, "ops": 3, "maxRows": 2}, {"schema": 5, "ops": 3, "maxRows": 1}],
              uncovered=[], bounds=SOA_B + "; ops (1..3) operations from any container of up to maxRows (3) rows, any values"),
            big("soa_host_big", "e_soa.cpp", "soa_host", 20, [{"schema": c, "ops": 1, "maxRows": 20} for c in (0, 1)], "rows, one operation", uncovered=BIGUN)],
    "E03": [J("soa_device", "e_soa.cpp", split_quick=[{"schema": 1, "maxCap": 1}] + [{"schema": c} for c in (0, 2, 3, 4, 5)],
              split_thorough=[{"schema": 1, "maxCap": 2}] + [{"schema": c, "maxCap": 5} for c in (0, 2, 3, 5)] + [{"schema": 4, "maxCap": 4}],
              uncovered=[], bounds=SOA_B + "; capacity 0..3 (thorough 5), any size up to it, any contents"),
            J("soa_append", "e_soa.cpp", split_quick=[{"schema": c} for c in (0, 2, 5)], uncovered=[],
              bounds="capacity 0..3, any size, any contents; three schemas"),
            J("soa_append_threads", "e_soa.cpp", threads=True,
              split_quick=[{"schema": 5, "threads": 2}, {"schema": 2, "threads": 2, "ops": 2}, {"schema": 0, "threads": 3}],
              split_thorough=[{"schema": c, "threads": 3} for c in (0, 2, 5)] + [{"schema": c, "threads": 2, "ops": 2} for c in (0, 2, 5)],
              uncovered=[], bounds="2 or 3 threads appending 1 or 2 rows each, every interleaving"),
            big("soa_device_big", "e_soa.cpp", "soa_device", 20, [{"schema": c, "maxCap": 20} for c in (0, 1)], "rows", uncovered=BIGUN),
            big("soa_append_big", "e_soa.cpp", "soa_append", 20, [{"schema": 0, "maxCap": 20}], "rows", uncovered=BIGUN)],
    "E04": [J("soa_copy", "e_copy.cpp",
              split_quick=[{"schema": 0, "from": f, "to": t} for f in (0, 1, 2) for t in (0, 1, 2)] +
                          [{"schema": c, "from": f, "to": t} for c in (2, 5) for f, t in ((0, 2), (2, 1), (2, 2))] +
                          [{"schema": 4, "from": 0, "to": 1}, {"schema": 4, "from": 1, "to": 1}, {"schema": 4, "from": 1, "to": 2}] +
                          [{"schema": c, "from": f, "to": t, "maxInner": 1} for c in (1, 4) for f in (0, 1, 2) for t in (0, 1, 2)] +
                          [{"schema": 1, "from": f, "to": t, "maxRows": 1} for f in (0, 1, 2) for t in (0, 1, 2)],
              split_thorough=[{"schema": c, "from": f, "to": t, "toSizes": 1} for c in (0, 2, 5) for f in (0, 1, 2) for t in (0, 1, 2)] +
                             [{"schema": c, "from": f, "to": t, "maxRows": 3} for c in (0, 2, 5) for f in (0, 1, 2) for t in (0, 1, 2)] +
                             [{"schema": 4, "from": f, "to": t} for f in (0, 1, 2) for t in (0, 1, 2)] +
                             [{"schema": 1, "from": f, "to": t, "maxInner": 1} for f in (0, 1, 2) for t in (0, 1, 2)],
              uncovered=FAULT, bounds=E4_B),
            J("soa_copy_device", "e_copy.cpp", "soa_copy", params={"devices": 1},
              split_quick=[{"schema": 0, "from": 2, "to": 2}, {"schema": 0, "from": 1, "to": 2, "faults": 1, "maxRows": 1},
                           {"schema": 4, "from": 2, "to": 2, "maxRows": 1}, {"schema": 5, "from": 2, "to": 1, "faults": 1, "maxRows": 1},
                           {"schema": 4, "from": 1, "to": 2, "maxInner": 1, "lazy": 1, "directed": 0},
                           {"schema": 1, "from": 2, "to": 2, "maxRows": 1, "maxInner": 1}] +
                          [{"schema": 1, "from": f, "to": t, "maxRows": 1, "maxInner": 1, "lazy": 1, "directed": 0} for f, t in ((1, 2), (2, 1), (0, 2))],
              split_thorough=[{"schema": c, "from": f, "to": t, "faults": 1} for c in (0, 2, 5) for f in (1, 2) for t in (1, 2)] +
                             [{"schema": 4, "from": f, "to": t, "maxInner": 1, "faults": 1, "sides": s}
                              for f in (1, 2) for t in (1, 2) for s in (1, 2, 3)] +
                             [{"schema": 1, "from": f, "to": t, "maxInner": 1, "lazy": 1, "directed": 0} for f in (1, 2) for t in (1, 2)],
              uncovered=FAULT, bounds=E4_B + FAULT_B, assumes=DEV_A),
            J("soa_to_container", "e_copy.cpp", "soa_copy", params={"into": 1, "devices": 1},
              split_quick=[{"schema": 0, "from": 0}, {"schema": 0, "from": 1}, {"schema": 0, "from": 2}, {"schema": 5, "from": 2},
                           {"schema": 4, "from": 0, "maxRows": 1}, {"schema": 4, "from": 1, "maxInner": 1},
                           {"schema": 4, "from": 2, "maxRows": 1}, {"schema": 1, "from": 2, "maxRows": 1, "maxInner": 1}],
              split_thorough=[{"schema": c, "from": f, "faults": x} for c in (0, 2, 5) for f in (0, 1, 2) for x in (0, 1)] +
                             [{"schema": 4, "from": f} for f in (0, 1, 2)] + [{"schema": 1, "from": f, "maxInner": 1} for f in (0, 1, 2)],
              uncovered=FAULT + ["refused"], bounds=E4_B + FAULT_B, assumes=DEV_A),
            J("soa_services", "e_copy.cpp", params={"devices": 1},
              split_quick=[{"schema": c, "from": k} for c in (0, 2, 5) for k in (1, 2)] + [{"schema": 4, "from": k} for k in (0, 1, 2)] +
                          [{"schema": 1, "from": 2, "maxRows": 1, "faults": 1}, {"schema": 0, "from": 0}],
              split_thorough=[{"schema": c, "from": k, "faults": 1} for c in (0, 2, 4, 5) for k in (0, 1, 2)] +
                             [{"schema": 1, "from": k} for k in (0, 1, 2)],
              uncovered=FAULT + ["filled", "set-up"], bounds=E4_B + FAULT_B, assumes=DEV_A),
            big("soa_copy_big", "e_copy.cpp", "soa_copy", 20, [{"schema": 0, "from": 0, "to": 2, "maxRows": 20}, {"schema": 0, "from": 2, "to": 2, "maxRows": 20},
                                                                {"schema": 1, "from": 0, "to": 2, "maxRows": 20}, {"schema": 1, "from": 2, "to": 1, "maxRows": 20},
                                                                {"schema": 5, "from": 2, "into": 1, "devices": 1, "maxRows": 20}],
                "rows", uncovered=BIGUN, assumes=DEV_A)],
    "E05": [J("tuple_shapes", "e_tuple.cpp", split=[{"shape": k} for k in range(9)], uncovered=["joined"],
              bounds="nine tuple shapes of 1 to 20 elements, any element values"),
            J("tuple_moves", "e_tuple.cpp", bounds="tuples of three elements that show when they were moved from, made in thirteen ways from objects and "
              "references, any values"),
            J("tuple_mixed", "e_tuple.cpp", uncovered=[], bounds="a tuple of values and references, any values")],
}

NOT_APPLICABLE = {
    "G01": "the CUDA, HIP and SYCL back ends need vendor compilers, headers and a device; none is in the sandbox, "
           "so their code cannot be compiled to an encodable form",
}
