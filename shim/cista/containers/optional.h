#pragma once
#include <optional>
namespace cista { template <typename T> using optional = std::optional<T>; }
