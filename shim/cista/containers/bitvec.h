#pragma once
#include <bit>
#include <cinttypes>
#include <cstddef>
#include <vector>
namespace cista {
namespace shim {
struct bitvec {
  using block_t = std::uint64_t;
  using size_type = std::uint32_t;
  static constexpr auto const bits_per_block = static_cast<size_type>(sizeof(block_t) * 8);
  static constexpr size_type num_blocks(size_type n) { return n / bits_per_block + (n % bits_per_block == 0 ? 0 : 1); }
  void resize(size_type const n) { size_ = n; blocks_.resize(num_blocks(n)); }
  void set(size_type const i, bool const v = true) {
    auto& b = blocks_[i / bits_per_block];
    auto const m = block_t{1} << (i % bits_per_block);
    if (v) { b |= m; } else { b &= ~m; }
  }
  bool test(size_type i) const {
    if (i >= size_) { return false; }
    return (blocks_[i / bits_per_block] >> (i % bits_per_block)) & block_t{1};
  }
  bool operator[](size_type i) const { return test(i); }
  void reset() noexcept { blocks_ = {}; }
  block_t sanitized_last_block() const noexcept {
    if (size_ % bits_per_block != 0) { return blocks_.back() & ~((~block_t{0}) << (size_ % bits_per_block)); }
    return blocks_.back();
  }
  size_type count() const {
    if (empty()) { return 0; }
    size_type s = 0;
    for (std::size_t i = 0; i + 1 < blocks_.size(); ++i) { s += static_cast<size_type>(std::popcount(blocks_[i])); }
    return s + static_cast<size_type>(std::popcount(sanitized_last_block()));
  }
  size_type size() const { return size_; }
  bool empty() const { return size_ == 0; }
  bool any() const {
    if (empty()) { return false; }
    for (std::size_t i = 0; i + 1 < blocks_.size(); ++i) { if (blocks_[i]) { return true; } }
    return sanitized_last_block() != 0;
  }
  bool none() const { return !any(); }
  template <typename F> void for_each_set_bit(F&& f) const { for (size_type i = 0; i < size_; ++i) { if (test(i)) { f(i); } } }
  friend bool operator==(bitvec const& a, bitvec const& b) {
    if (a.size_ != b.size_) { return false; }
    if (a.empty()) { return true; }
    for (std::size_t i = 0; i + 1 < a.blocks_.size(); ++i) { if (a.blocks_[i] != b.blocks_[i]) { return false; } }
    return a.sanitized_last_block() == b.sanitized_last_block();
  }
  bitvec& operator>>=(size_type n) {
    bitvec r; r.resize(size_);
    for (size_type i = 0; i < size_ && n < size_ - i; ++i) { r.set(i, test(i + n)); }
    blocks_ = std::move(r.blocks_); return *this;
  }
  bitvec& operator<<=(size_type n) {
    bitvec r; r.resize(size_);
    for (size_type i = n; i < size_; ++i) { r.set(i, test(i - n)); }
    blocks_ = std::move(r.blocks_); return *this;
  }
  bitvec& operator&=(bitvec const& o) { for (std::size_t i = 0; i < blocks_.size(); ++i) { blocks_[i] &= i < o.blocks_.size() ? o.blocks_[i] : 0; } return *this; }
  bitvec& operator|=(bitvec const& o) { for (std::size_t i = 0; i < blocks_.size() && i < o.blocks_.size(); ++i) { blocks_[i] |= o.blocks_[i]; } return *this; }
  size_type size_{0};
  std::vector<block_t> blocks_;
};
}  // namespace shim
namespace raw { using shim::bitvec; }
namespace offset { using shim::bitvec; }
}  // namespace cista
