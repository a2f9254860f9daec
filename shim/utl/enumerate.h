#pragma once
#include <iterator>
#include <tuple>
#include <utility>
namespace utl {
template <typename T>
auto enumerate(T&& iterable) {
  using It = decltype(std::begin(std::declval<T&>()));
  using End = decltype(std::end(std::declval<T&>()));
  struct iterator {
    using iterator_category = std::forward_iterator_tag;
    using value_type = std::tuple<std::size_t, decltype(*std::declval<It>())>;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = value_type;
    std::size_t i{};
    It it;
    bool operator!=(End const& o) const { return it != o; }
    bool operator!=(iterator const& o) const { return it != o.it; }
    bool operator==(iterator const& o) const { return !(it != o.it); }
    iterator& operator++() { ++i; ++it; return *this; }
    value_type operator*() const { return value_type{i, *it}; }
  };
  struct range {
    T iterable;
    auto begin() { return iterator{0, std::begin(iterable)}; }
    auto end() { return iterator{0, std::end(iterable)}; }
  };
  return range{std::forward<T>(iterable)};
}
}  // namespace utl
