#pragma once
#include <algorithm>
#include <iterator>
#include <numeric>
#include <utility>
namespace utl {
template <typename C, typename F> bool all_of(C&& c, F&& f) { return std::all_of(std::begin(c), std::end(c), f); }
template <typename C, typename F> bool any_of(C&& c, F&& f) { return std::any_of(std::begin(c), std::end(c), f); }
template <typename C, typename F> bool none_of(C&& c, F&& f) { return std::none_of(std::begin(c), std::end(c), f); }
template <typename C, typename F> auto find_if(C&& c, F&& f) { return std::find_if(std::begin(c), std::end(c), f); }
template <typename C, typename T> auto find(C&& c, T const& t) { return std::find(std::begin(c), std::end(c), t); }
template <typename C, typename T> auto count(C&& c, T const& t) { return std::count(std::begin(c), std::end(c), t); }
template <typename C, typename F> auto count_if(C&& c, F&& f) { return std::count_if(std::begin(c), std::end(c), f); }
template <typename C> void sort(C&& c) { std::sort(std::begin(c), std::end(c)); }
template <typename C, typename F> void sort(C&& c, F&& f) { std::sort(std::begin(c), std::end(c), f); }
template <typename C, typename T> T accumulate(C&& c, T t) { return std::accumulate(std::begin(c), std::end(c), std::move(t)); }
template <typename C, typename T, typename F> T accumulate(C&& c, T t, F&& f) { return std::accumulate(std::begin(c), std::end(c), std::move(t), f); }
}  // namespace utl
