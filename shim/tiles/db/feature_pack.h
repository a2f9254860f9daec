#pragma once
#include "tiles/get_tile.h"
namespace tiles { void pack_features(tile_db_handle&, pack_handle&); }
