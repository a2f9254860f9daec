#pragma once
#include <utility>
namespace utl {
template <typename T>
struct raii {
  raii(T& t, T v) : t_{t}, old_{t} { t_ = std::move(v); }
  ~raii() { t_ = std::move(old_); }
  T& t_;
  T old_;
};
}  // namespace utl
