#pragma once
// Force-included before every translation unit of the repository. The pinned
// dependencies pull these standard headers in transitively; Ubuntu's fmt 9.1
// additionally needs a formatter for std::errc and run-time format strings.
#include <algorithm>
#include <array>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <fmt/core.h>
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <fmt/ranges.h>
template <>
struct fmt::formatter<std::errc> : fmt::formatter<int> {
  template <typename C>
  auto format(std::errc const e, C& c) const { return fmt::formatter<int>::format(static_cast<int>(e), c); }
};
