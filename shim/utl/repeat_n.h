#pragma once
#include <cstddef>
#include <string>
#include <string_view>
#include <vector>
namespace utl {
template <typename T>
std::vector<T> repeat_n(T const& t, std::size_t n) { return std::vector<T>(n, t); }
inline std::string repeat_n(std::string_view s, std::size_t n) {
  std::string r;
  for (; n != 0; --n) { r += s; }
  return r;
}
}  // namespace utl
