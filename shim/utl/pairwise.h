#pragma once
#include <iterator>
#include <tuple>
#include <utility>
namespace utl {
template <typename T>
auto pairwise(T&& c) {
  using It = decltype(std::begin(std::declval<T&>()));
  using Ref = decltype(*std::declval<It>());
  struct iterator {
    using iterator_category = std::forward_iterator_tag;
    using value_type = std::tuple<Ref, Ref>;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = value_type;
    It a, b;
    bool operator!=(iterator const& o) const { return b != o.b; }
    bool operator==(iterator const& o) const { return b == o.b; }
    iterator& operator++() { ++a; ++b; return *this; }
    iterator operator++(int) { auto c = *this; ++*this; return c; }
    value_type operator*() const { return value_type{*a, *b}; }
  };
  struct range {
    T c;
    auto begin() {
      auto a = std::begin(c);
      if (a == std::end(c)) { return iterator{a, a}; }
      return iterator{a, std::next(a)};
    }
    auto end() { return iterator{std::end(c), std::end(c)}; }
    auto begin() const { return const_cast<range*>(this)->begin(); }
    auto end() const { return const_cast<range*>(this)->end(); }
  };
  return range{std::forward<T>(c)};
}
}  // namespace utl
