#pragma once
#include <algorithm>
#include <iterator>
#include <utility>
namespace utl {
template <typename A, typename B>
auto& concat(A& a, B const& b) {
  std::copy(std::begin(b), std::end(b), std::back_inserter(a));
  return a;
}
template <typename A, typename B, typename... Rest>
  requires(sizeof...(Rest) > 0)
auto& concat(A& a, B const& b, Rest const&... rest) {
  concat(a, b);
  return concat(a, rest...);
}
}  // namespace utl
