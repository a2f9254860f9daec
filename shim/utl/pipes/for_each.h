#pragma once
#include <utility>
namespace utl {
template <typename F>
struct for_each_t { F f_; };
template <typename F>
for_each_t<F> for_each(F&& f) { return {std::forward<F>(f)}; }
template <typename R, typename F>
  requires requires(R&& r) { r.rows_; }
void operator|(R&& r, for_each_t<F>&& f) {
  for (auto& x : r.rows_) { f.f_(x); }
}
}  // namespace utl
