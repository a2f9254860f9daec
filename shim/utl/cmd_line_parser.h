#pragma once
// Stand-in for utl/cmd_line_parser.h: flags look themselves up in the argument
// list that is being parsed while their struct is constructed.
#include <filesystem>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include "utl/fixed_string.h"
#define UTL_LONG(s) ::utl::shim::fixed_string{s}
#define UTL_SHORT(s) ::utl::shim::fixed_string{s}
#define UTL_DESC(s) ::utl::shim::fixed_string{s}
namespace utl {
inline constexpr shim::fixed_string required{"<required>"};
namespace shim {
struct cmd_line {
  int argc;
  char const* const* argv;
  std::vector<bool> used;
  std::vector<std::string> missing;
  // value of the flag, or nullptr
  char const* find(std::string_view flag, bool const takes_value) {
    for (int i = 1; i < argc; ++i) {
      std::string_view const a{argv[i]};
      auto const u = static_cast<std::size_t>(i);
      if (a == flag) {
        used[u] = true;
        if (!takes_value) { return "true"; }
        if (i + 1 == argc) { throw std::runtime_error{"no value for " + std::string{flag}}; }
        used[u + 1] = true;
        return argv[i + 1];
      }
      if (a.size() > flag.size() && a.starts_with(flag) && a[flag.size()] == '=') { used[u] = true; return argv[i] + flag.size() + 1; }
    }
    return nullptr;
  }
};
inline cmd_line*& parsing() { static cmd_line* c = nullptr; return c; }
}  // namespace shim
template <typename T, utl::shim::fixed_string... Tags>
struct cmd_line_flag {
  cmd_line_flag() { init(); }
  template <typename U>
  cmd_line_flag(U&& u) : v_{std::forward<U>(u)} { init(); }
  cmd_line_flag(cmd_line_flag const&) = default;
  cmd_line_flag(cmd_line_flag&&) = default;
  cmd_line_flag(cmd_line_flag& o) : v_{o.v_} {}
  cmd_line_flag& operator=(cmd_line_flag const&) = default;
  cmd_line_flag& operator=(cmd_line_flag&&) = default;
  T const& val() const { return v_; }
  T& val() { return v_; }
  operator T const&() const { return v_; }
  T v_{};

private:
  void init() {
    auto* const c = shim::parsing();
    if (c == nullptr) { return; }
    bool found = false, need = false;
    auto const one = [&](std::string_view const tag) {
      if (tag == "<required>") { need = true; }
      if (!tag.starts_with('-')) { return; }
      auto const* const x = c->find(tag, !std::is_same_v<T, bool>);
      if (x == nullptr) { return; }
      found = true;
      if constexpr (std::is_same_v<T, bool>) { v_ = std::string_view{x} != "false" && std::string_view{x} != "0"; }
      else if constexpr (std::is_arithmetic_v<T>) { v_ = static_cast<T>(std::stold(x)); }
      else { v_ = T{x}; }
    };
    (one(Tags.view()), ...);
    if (need && !found) { c->missing.emplace_back("a required flag"); }
  }
};
template <typename C>
C parse(int argc, char const* const* argv) {
  shim::cmd_line c{argc, argv, std::vector<bool>(static_cast<std::size_t>(argc)), {}};
  struct guard { ~guard() { shim::parsing() = nullptr; } } const g;
  shim::parsing() = &c;
  C r{};
  if (!c.missing.empty()) { throw std::runtime_error{"missing required flags"}; }
  for (int i = 1; i < argc; ++i) { if (!c.used[static_cast<std::size_t>(i)]) { throw std::runtime_error{std::string{"unknown argument "} + argv[i]}; } }
  return r;
}
template <typename C> std::string description() { return {}; }
template <typename C> std::string print_flags(C const&) { return {}; }
}  // namespace utl
