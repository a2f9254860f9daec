#pragma once
#include <type_traits>
#include <cstddef>
#include <utility>
#include <variant>
namespace cista {
template <typename... T>
struct variant {
  using index_t = std::size_t;
  variant() = default;
  template <typename U, typename = std::enable_if_t<(std::is_same_v<std::decay_t<U>, T> || ...)>>
  explicit variant(U&& u) : v_{std::forward<U>(u)} {}
  template <typename U, typename = std::enable_if_t<(std::is_same_v<std::decay_t<U>, T> || ...)>>
  variant& operator=(U&& u) { v_ = std::forward<U>(u); return *this; }
  template <typename U, typename... A>
  U& emplace(A&&... a) { return v_.template emplace<U>(std::forward<A>(a)...); }
  std::size_t index() const noexcept { return v_.index(); }
  bool valid() const noexcept { return !v_.valueless_by_exception(); }
  // alternatives the function does not take are left out
  template <typename V, typename F> static decltype(auto) visit(V& v, F&& f) {
    if constexpr ((std::is_invocable_v<F, std::conditional_t<std::is_const_v<V>, T const, T>&> && ...)) { return std::visit(std::forward<F>(f), v); }
    else { std::visit([&](auto& x) { if constexpr (std::is_invocable_v<F, decltype(x)>) { f(x); } }, v); }
  }
  template <typename F> decltype(auto) apply(F&& f) { return visit(v_, std::forward<F>(f)); }
  template <typename F> decltype(auto) apply(F&& f) const { return visit(v_, std::forward<F>(f)); }
  template <typename U> U& as() noexcept { return *std::get_if<U>(&v_); }
  template <typename U> U const& as() const noexcept { return *std::get_if<U>(&v_); }
  bool operator==(variant const& o) const = default;
  std::variant<T...> v_;
};
template <typename U, typename... T>
bool holds_alternative(variant<T...> const& v) noexcept { return std::holds_alternative<U>(v.v_); }
template <typename U, typename... T> U& get(variant<T...>& v) noexcept { return *std::get_if<U>(&v.v_); }
template <typename U, typename... T> U const& get(variant<T...> const& v) noexcept { return *std::get_if<U>(&v.v_); }
namespace raw { using cista::variant; }
namespace offset { using cista::variant; }
}  // namespace cista

namespace std {
template <typename U, typename... T> U& get(cista::variant<T...>& v) { return std::get<U>(v.v_); }
template <typename U, typename... T> U const& get(cista::variant<T...> const& v) { return std::get<U>(v.v_); }
}  // namespace std
