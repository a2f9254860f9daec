#pragma once
#include "tiles/get_tile.h"
namespace tiles { inline void database_stats(tile_db_handle&, pack_handle&) {} }
