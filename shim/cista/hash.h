#pragma once
#include <cstdint>
#include <functional>
#include <string_view>
#include <type_traits>
#include <utility>
namespace cista {
using hash_t = std::uint64_t;
constexpr hash_t BASE_HASH = 14695981039346656037ULL;
template <typename... Args>
constexpr hash_t hash_combine(hash_t h, Args... val) {
  ((h ^= static_cast<hash_t>(val), h *= 1099511628211ULL), ...);
  return h;
}
constexpr hash_t hash(std::string_view s, hash_t h = BASE_HASH) {
  for (auto const c : s) { h = hash_combine(h, static_cast<unsigned char>(c)); }
  return h;
}
}  // namespace cista
