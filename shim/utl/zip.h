#pragma once
#include <iterator>
#include <tuple>
#include <utility>
#include "utl/verify.h"
namespace utl {
template <typename A, typename B>
auto zip_impl(A&& a, B&& b) {
  using ItA = decltype(std::begin(std::declval<A&>()));
  using ItB = decltype(std::begin(std::declval<B&>()));
  struct iterator {
    using iterator_category = std::forward_iterator_tag;
    using value_type = std::tuple<decltype(*std::declval<ItA>()), decltype(*std::declval<ItB>())>;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = value_type;
    ItA x; ItB y;
    bool operator!=(iterator const& o) const { return x != o.x && y != o.y; }
    bool operator==(iterator const& o) const { return !(*this != o); }
    iterator& operator++() { ++x; ++y; return *this; }
    value_type operator*() const { return value_type{*x, *y}; }
  };
  struct range {
    A a; B b;
    auto begin() { return iterator{std::begin(a), std::begin(b)}; }
    auto end() { return iterator{std::end(a), std::end(b)}; }
  };
  return range{std::forward<A>(a), std::forward<B>(b)};
}
template <typename A, typename B>
auto zip(A&& a, B&& b) {
  utl::verify(std::distance(std::begin(a), std::end(a)) == std::distance(std::begin(b), std::end(b)), "utl::zip: container size mismatch");
  return zip_impl(std::forward<A>(a), std::forward<B>(b));
}
template <typename A, typename B>
auto zip_no_size_check(A&& a, B&& b) {
  return zip_impl(std::forward<A>(a), std::forward<B>(b));
}
}  // namespace utl
