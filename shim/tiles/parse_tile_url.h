#pragma once
#include <string>
#include <vector>
#include "tiles/get_tile.h"
namespace tiles {
inline geo::tile url_match_to_tile(std::vector<std::string> const& m) {
  return {static_cast<std::uint32_t>(std::stoul(m[2])), static_cast<std::uint32_t>(std::stoul(m[3])), static_cast<std::uint32_t>(std::stoul(m[1]))};
}
}  // namespace tiles
