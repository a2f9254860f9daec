#pragma once
#include <string>
#include <vector>
#include <boost/pfr.hpp>
#include "utl/fixed_string.h"
#include "utl/parser/line_range.h"
namespace utl {
#define UTL_NAME(s) ::utl::shim::fixed_string{s}
template <typename T, utl::shim::fixed_string Name>
struct csv_col {
  static constexpr std::string_view name() { return Name.view(); }
  T const& val() const { return v_; }
  T const& operator*() const { return v_; }
  T const* operator->() const { return &v_; }
  T v_{};
};
namespace shim {
inline std::vector<std::string_view> split_csv(std::string_view l, char sep) {
  std::vector<std::string_view> v;
  while (true) {
    std::size_t end;
    std::string_view f;
    if (!l.empty() && l.front() == '"') {
      auto q = l.find('"', 1);
      if (q == std::string_view::npos) { q = l.size(); }
      f = l.substr(1, q - 1);
      end = l.find(sep, q);
    } else {
      end = l.find(sep);
      f = l.substr(0, end);
    }
    v.push_back(f);
    if (end == std::string_view::npos) { return v; }
    l = l.substr(end + 1);
  }
}
}  // namespace shim
template <typename Row, char Sep = ','>
struct csv_t {};
template <typename Row, char Sep = ','>
csv_t<Row, Sep> csv() { return {}; }
template <typename Row>
struct row_range { std::vector<Row> rows_; };
template <typename R, typename Row, char Sep>
row_range<Row> operator|(line_range<R> const& lr, csv_t<Row, Sep>) {
  row_range<Row> out;
  auto const lines = lr.lines();
  if (lines.empty()) { return out; }
  auto const header = shim::split_csv(lines.front(), Sep);
  for (std::size_t i = 1; i < lines.size(); ++i) {
    if (lines[i].empty()) { continue; }
    auto const cols = shim::split_csv(lines[i], Sep);
    Row row{};
    boost::pfr::for_each_field(row, [&](auto& c) {
      for (std::size_t h = 0; h < header.size() && h < cols.size(); ++h) {
        if (header[h] == c.name()) { c.v_ = cols[h]; }
      }
    });
    out.rows_.push_back(row);
  }
  return out;
}
}  // namespace utl
