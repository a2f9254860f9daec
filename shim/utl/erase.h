#pragma once
#include <algorithm>
#include <iterator>
namespace utl {
template <typename C, typename T>
void erase(C& c, T const& t) {
  c.erase(std::remove(std::begin(c), std::end(c), t), std::end(c));
}
}  // namespace utl
