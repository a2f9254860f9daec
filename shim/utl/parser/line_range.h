#pragma once
#include <vector>
#include "utl/parser/buf_reader.h"
namespace utl {
template <typename R>
struct line_range {
  explicit line_range(R r) : r_{r} {}
  std::vector<std::string_view> lines() const {
    std::vector<std::string_view> v;
    auto s = r_.s_;
    while (!s.empty()) {
      auto const nl = s.find('\n');
      auto line = s.substr(0, nl);
      s = nl == std::string_view::npos ? std::string_view{} : s.substr(nl + 1);
      if (!line.empty() && line.back() == '\r') { line.remove_suffix(1); }
      v.push_back(line);
    }
    return v;
  }
  R r_;
};
}  // namespace utl
