#pragma once
#include <algorithm>
#include <cstddef>
#include <string_view>
namespace utl::shim {
template <std::size_t N>
struct fixed_string {
  constexpr fixed_string(char const (&s)[N]) { std::copy_n(s, N, v); }
  constexpr std::string_view view() const { return {v, N - 1}; }
  char v[N]{};
};
}  // namespace utl::shim
