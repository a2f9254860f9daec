#pragma once
#include <functional>
#include <tuple>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include "cista/hash.h"
namespace cista {
namespace shim {
template <typename T>
struct hasher {
  std::size_t operator()(T const& t) const {
    if constexpr (requires { t.hash(); }) { return t.hash(); }
    else if constexpr (requires { std::tuple_size<T>::value; }) {
      hash_t h = BASE_HASH;
      std::apply([&](auto const&... x) { ((h = hash_combine(h, hasher<std::decay_t<decltype(x)>>{}(x))), ...); }, t);
      return h;
    }
    else { return std::hash<T>{}(t); }
  }
};
}  // namespace shim
namespace raw { template <typename T, typename H = shim::hasher<T>, typename E = std::equal_to<>> using hash_set = std::unordered_set<T, H, E>; }
namespace offset { using raw::hash_set; }
}  // namespace cista
