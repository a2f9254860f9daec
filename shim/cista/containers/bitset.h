#pragma once
#include <array>
#include <bit>
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
namespace cista {
template <std::size_t Size>
struct bitset {
  using block_t = std::uint64_t;
  static constexpr std::size_t bits_per_block = 64;
  static constexpr std::size_t num_blocks = (Size + 63) / 64;
  constexpr bitset() noexcept = default;
  constexpr bitset(std::string_view s) noexcept { set(s); }
  constexpr void set(std::string_view s) noexcept {
    for (std::size_t i = 0; i != std::min(Size, s.size()); ++i) { set(i, s[s.size() - i - 1] != '0'); }
  }
  constexpr void set(std::size_t const i, bool const v = true) {
    auto& b = blocks_[i / 64]; auto const m = block_t{1} << (i % 64);
    if (v) { b |= m; } else { b &= ~m; }
  }
  void reset() { blocks_ = {}; }
  bool operator[](std::size_t i) const { return (blocks_[i / 64] >> (i % 64)) & 1U; }
  bool test(std::size_t i) const { return i < Size && (*this)[i]; }
  std::size_t count() const { std::size_t c = 0; for (auto b : san().blocks_) { c += static_cast<std::size_t>(std::popcount(b)); } return c; }
  constexpr std::size_t size() const { return Size; }
  bool any() const { return count() != 0; }
  bool none() const { return !any(); }
  std::string to_string() const { std::string s(Size, '0'); for (std::size_t i = 0; i < Size; ++i) { s[i] = (*this)[Size - i - 1] ? '1' : '0'; } return s; }
  bitset san() const { auto c = *this; if constexpr (Size % 64 != 0) { c.blocks_.back() &= ~((~block_t{0}) << (Size % 64)); } return c; }
  friend bool operator==(bitset const& a, bitset const& b) { return a.san().blocks_ == b.san().blocks_; }
  friend bool operator!=(bitset const& a, bitset const& b) { return !(a == b); }
  friend bool operator<(bitset const& a, bitset const& b) { auto x = a.san(), y = b.san(); for (std::size_t i = num_blocks; i-- > 0;) { if (x.blocks_[i] != y.blocks_[i]) { return x.blocks_[i] < y.blocks_[i]; } } return false; }
  bitset& operator&=(bitset const& o) { for (std::size_t i = 0; i < num_blocks; ++i) { blocks_[i] &= o.blocks_[i]; } return *this; }
  bitset& operator|=(bitset const& o) { for (std::size_t i = 0; i < num_blocks; ++i) { blocks_[i] |= o.blocks_[i]; } return *this; }
  bitset& operator^=(bitset const& o) { for (std::size_t i = 0; i < num_blocks; ++i) { blocks_[i] ^= o.blocks_[i]; } return *this; }
  bitset operator~() const { auto c = *this; for (auto& b : c.blocks_) { b = ~b; } return c; }
  friend bitset operator&(bitset a, bitset const& b) { return a &= b; }
  friend bitset operator|(bitset a, bitset const& b) { return a |= b; }
  friend bitset operator^(bitset a, bitset const& b) { return a ^= b; }
  bitset& operator>>=(std::size_t n) { bitset r; for (std::size_t i = 0; i + n < Size; ++i) { r.set(i, (*this)[i + n]); } return *this = r; }
  bitset& operator<<=(std::size_t n) { bitset r; for (std::size_t i = n; i < Size; ++i) { r.set(i, (*this)[i - n]); } return *this = r; }
  bitset operator>>(std::size_t n) const { auto c = *this; return c >>= n; }
  bitset operator<<(std::size_t n) const { auto c = *this; return c <<= n; }
  std::array<block_t, num_blocks> blocks_{};
};
}  // namespace cista
