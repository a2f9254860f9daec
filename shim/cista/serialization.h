#pragma once
// Declarations only: in the repository's STD build nothing is serialised.
#include <cstdint>
#include <map>
#include <stdexcept>
#include <type_traits>
#include "cista/hash.h"
#include "cista/mmap.h"
namespace cista {
using offset_t = std::intptr_t;
enum class mode { NONE = 0, UNCHECKED = 1, WITH_VERSION = 2, WITH_INTEGRITY = 4, SERIALIZE_BIG_ENDIAN = 8, DEEP_CHECK = 16, CAST = 32 };
constexpr mode operator|(mode a, mode b) { return static_cast<mode>(static_cast<int>(a) | static_cast<int>(b)); }
template <typename T> constexpr bool is_pointer_v = std::is_pointer_v<T>;
template <typename T> using remove_pointer_t = std::remove_pointer_t<T>;
template <typename B> struct buf { explicit buf(B&& b) : buf_{std::move(b)} {} B buf_; };
template <typename T> hash_t type_hash(T const&, hash_t h, std::map<hash_t, unsigned>&) noexcept { return h; }
template <mode M = mode::NONE, typename Target, typename T>
void serialize(Target&, T&) { throw std::runtime_error{"cista serialisation is not available in this build"}; }
template <typename T, mode M = mode::NONE, typename C>
T* deserialize(C&) { throw std::runtime_error{"cista serialisation is not available in this build"}; }
}  // namespace cista
