#pragma once
#include "utl/parser/cstr.h"
namespace utl {
struct buf_reader {
  explicit buf_reader(std::string_view s) : s_{s} {}
  std::string_view s_;
};
}  // namespace utl
