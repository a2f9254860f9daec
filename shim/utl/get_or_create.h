#pragma once
#include <iterator>
namespace utl {
template <typename M, typename K, typename F>
auto& get_or_create(M& m, K const& k, F&& f) {
  auto it = m.find(k);
  if (it != std::end(m)) { return it->second; }
  return m[k] = f();
}
}  // namespace utl
