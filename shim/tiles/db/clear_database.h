#pragma once
#include "tiles/get_tile.h"
namespace tiles { inline void clear_database(std::string const& p, std::size_t) { shim_create(p, true); } }
