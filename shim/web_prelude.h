#pragma once
// What the pinned cereal brings along and Ubuntu's does not.
#include <string>
#include <string_view>
#include "cereal/cereal.hpp"
#include "cereal/archives/json.hpp"
#include "cereal/types/string.hpp"
namespace cereal {
template <typename T, typename = std::enable_if_t<std::is_same_v<T, std::string_view>>>
inline std::string save_minimal(JSONOutputArchive const&, T const& s) { return std::string{s}; }
}  // namespace cereal
