#pragma once
#include <algorithm>
#include <iterator>
namespace utl {
template <typename It, typename Eq, typename F>
void equal_ranges_linear(It a, It b, Eq&& eq, F&& f) {
  while (a != b) {
    auto c = std::next(a);
    while (c != b && eq(*a, *c)) { ++c; }
    f(a, c);
    a = c;
  }
}
template <typename C, typename Eq, typename F>
void equal_ranges_linear(C&& c, Eq&& eq, F&& f) {
  equal_ranges_linear(std::begin(c), std::end(c), eq, f);
}
template <typename C, typename Lt, typename F>
void equal_ranges(C&& c, Lt&& lt, F&& f) {
  std::sort(std::begin(c), std::end(c), lt);
  equal_ranges_linear(std::begin(c), std::end(c), [&](auto const& x, auto const& y) { return !lt(x, y) && !lt(y, x); }, f);
}
}  // namespace utl
