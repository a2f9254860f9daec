#pragma once
#include "tiles/get_tile.h"
namespace tiles { void prepare_tiles(tile_db_handle&, pack_handle&, std::uint32_t); }
