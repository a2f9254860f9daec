#pragma once
#include <string>
#include <string_view>
namespace utl {
struct cstr {
  cstr() = default;
  cstr(std::string_view v) : v_{v} {}
  cstr(char const* s) : v_{s} {}
  std::string to_str() const { return std::string{v_}; }
  std::string_view view() const { return v_; }
  bool empty() const { return v_.empty(); }
  std::size_t length() const { return v_.size(); }
  char const* c_str() const { return v_.data(); }
  operator bool() const { return !v_.empty(); }
  std::string_view v_;
};
}  // namespace utl
