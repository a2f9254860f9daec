#pragma once
#include <algorithm>
#include <functional>
#include <iterator>
namespace utl {
template <typename C, typename Less, typename Eq>
void erase_duplicates(C& c, Less&& less, Eq&& eq) {
  std::sort(std::begin(c), std::end(c), less);
  c.erase(std::unique(std::begin(c), std::end(c), eq), std::end(c));
}
template <typename C>
void erase_duplicates(C& c) {
  erase_duplicates(c, std::less<>{}, std::equal_to<>{});
}
}  // namespace utl
