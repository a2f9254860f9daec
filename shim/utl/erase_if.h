#pragma once
#include <algorithm>
#include <iterator>
namespace utl {
template <typename C, typename F>
void erase_if(C& c, F&& f) {
  c.erase(std::remove_if(std::begin(c), std::end(c), std::forward<F>(f)), std::end(c));
}
}  // namespace utl
