// Where the two sides of a copy are, and which copy object does it.
#pragma once
#include "probe_copy.hpp"

namespace vfh {
using ctype = vecmem::copy::type;
template <class T>
using vview = vecmem::data::vector_view<T>;
template <class T>
using jview = vecmem::data::jagged_vector_view<T>;

struct setting {
    machine m;
    vecmem::copy plain;
    probe_copy probe;
    bool devices, faults;
    side from, to;
    ctype::copy_type t;
    setting() : probe(m) {
        devices = vf_param("devices", 0);
        faults = vf_param("faults", 0);
        from = to = HOST;
        t = ctype::unknown;
    }
    void sides(bool hostOnlyTarget = false) {
        if (devices) {
            const unsigned k = vf_param("sides", 4);  // one combination only?
            from = (side)(k < 4 ? k & 1 : vf_pick("from", 2));
            to = hostOnlyTarget ? HOST : (side)(k < 4 ? k >> 1 : vf_pick("to", 2));
            probe.lazy = vf_param("lazy", 2) < 2 ? vf_param("lazy", 0) : vf_pick("lazy", 2);
        }
        if (vf_param("directed", 2) < 2 ? vf_param("directed", 0) : vf_pick("directed", 2)) {
            t = direction(from, to);
            probe.directed = devices;
            probe.asked = t;
        }
        if (faults)
            probe.failAt = vf_pick("fail-at", vf_param("maxFail", 5) + 1);
    }
    const vecmem::copy &c() { return devices || faults ? (const vecmem::copy &)probe : plain; }
    // runs f; true if it ended normally
    template <class F>
    bool run(F f) {
        try {
            f();
            if (faults && probe.calls > probe.failAt)
                expect(false, "failure-of-a-transfer-swallowed");
            return true;
        } catch (const device_fault &) {
            expect(faults, "harness:fault");
            return false;
        }
    }
};
inline void wait(vecmem::copy::event_type e) {
    expect(e != nullptr, "event-returned");
    if (e)
        e->wait();
}
}  // namespace vfh
