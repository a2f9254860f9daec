#pragma once
// Stand-in for motis-project/utl (not installable offline).
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
#include <fmt/core.h>
#include <fmt/format.h>
#include <fmt/ostream.h>
#if __has_include("utl/shim_format.h")
#include "utl/shim_format.h"
#endif
namespace utl {
namespace shim {
template <typename T, typename = void>
struct arg {
  static T const& get(T const& t) { return t; }
};
template <typename T>
decltype(auto) fmt_arg(T const& t) {
  if constexpr (fmt::is_formattable<T>::value) {
    return (t);
  } else {
    return std::string{"<unformattable>"};
  }
}
template <typename... Args>
std::string format(std::string_view f, Args const&... a) {
  if constexpr (sizeof...(Args) == 0) {
    return std::string{f};
  } else {
    auto const go = [&](auto const&... x) {
      return fmt::vformat(f, fmt::make_format_args(x...));
    };
    return go(fmt_arg(a)...);
  }
}
}  // namespace shim

template <typename Msg, typename... Args>
[[nodiscard]] std::runtime_error fail(Msg const& m, Args const&... args) {
  return std::runtime_error{shim::format(std::string_view{m}, args...)};
}
template <typename Msg, typename... Args>
void verify(bool const b, Msg const& m, Args const&... args) {
  if (!b) [[unlikely]] {
    throw fail(m, args...);
  }
}
template <typename Exception>
void verify_ex(bool const b, Exception&& e) {
  if (!b) {
    throw e;
  }
}
}  // namespace utl
