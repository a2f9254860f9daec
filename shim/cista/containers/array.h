#pragma once
#include <array>
namespace cista {
namespace raw { template <typename T, std::size_t N> using array = std::array<T, N>; }
namespace offset { template <typename T, std::size_t N> using array = std::array<T, N>; }
template <typename T, std::size_t N> using array = std::array<T, N>;
}  // namespace cista
