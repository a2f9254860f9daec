#pragma once
#include <algorithm>
#include <iterator>
#include <type_traits>
#include <vector>
namespace utl {
template <typename C, typename F>
auto to_vec(C&& c, F&& f) {
  using R = std::decay_t<decltype(f(*std::begin(c)))>;
  std::vector<R> v;
  v.reserve(static_cast<std::size_t>(std::distance(std::begin(c), std::end(c))));
  for (auto&& x : c) { v.emplace_back(f(x)); }
  return v;
}
template <typename C>
auto to_vec(C&& c) {
  using R = std::decay_t<decltype(*std::begin(c))>;
  std::vector<R> v;
  for (auto&& x : c) { v.emplace_back(x); }
  return v;
}
template <typename It, typename F>
auto to_vec(It a, It b, F&& f) {
  using R = std::decay_t<decltype(f(*a))>;
  std::vector<R> v;
  for (; a != b; ++a) { v.emplace_back(f(*a)); }
  return v;
}
}  // namespace utl
