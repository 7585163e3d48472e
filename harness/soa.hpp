// The structure-of-arrays containers the E checks use.
#pragma once
#include <tuple>
#include <utility>
#include <vecmem/edm/container.hpp>
#include <vecmem/memory/host_memory_resource.hpp>

#include "tracked.hpp"

namespace vfh {
namespace type = vecmem::edm::type;
using u8 = unsigned char;
using u16 = uint16_t;
template <class BASE>
class face : public BASE {
public:
    using BASE::BASE;
};
template <class... V>
using soa_of = vecmem::edm::container<face, V...>;

// what kind of column?
template <class V>
struct column;
template <class T>
struct column<type::scalar<T>> {
    static constexpr int dims = 0;
    using elem = T;
};
template <class T>
struct column<type::vector<T>> {
    static constexpr int dims = 1;
    using elem = T;
};
template <class T>
struct column<type::jagged_vector<T>> {
    static constexpr int dims = 2;
    using elem = T;
};
template <class T>
T from_bits(u64 x) { return static_cast<T>(x); }
template <>
inline pod3 from_bits<pod3>(u64 x) { return pod3((u32)x); }
template <class T>
u64 bits(const T &x) { return static_cast<u64>(x); }
inline u64 bits(const pod3 &x) { return val(x); }

template <class... V>
struct kit {
    static constexpr std::size_t N = sizeof...(V);
    using cont = soa_of<V...>;
    using idx = std::index_sequence_for<V...>;
    template <std::size_t I>
    using col = column<std::tuple_element_t<I, std::tuple<V...>>>;
    template <std::size_t I>
    using elem = typename col<I>::elem;
    template <std::size_t I>
    static constexpr int dims = col<I>::dims;
    static constexpr bool jagged = ((column<V>::dims == 2) || ...);
    static constexpr bool vectors = ((column<V>::dims >= 1) || ...);
    // f(integral_constant<I>) for every column
    template <class F>
    static void each(F f) { each_(f, idx{}); }
    template <class F, std::size_t... I>
    static void each_(F &f, std::index_sequence<I...>) { (f(std::integral_constant<std::size_t, I>{}), ...); }
};
using S0 = kit<type::scalar<u32>, type::vector<u32>, type::vector<u8>, type::vector<u64>>;
using S1 = kit<type::vector<u16>, type::jagged_vector<u32>, type::scalar<u64>, type::jagged_vector<u8>>;
using S2 = kit<type::vector<pod3>>;
using S3 = kit<type::scalar<u64>, type::scalar<u8>>;
using S4 = kit<type::jagged_vector<u32>, type::vector<u8>>;
using S5 = kit<type::vector<u8>, type::scalar<u32>, type::vector<u16>>;
}  // namespace vfh
