#pragma once
#include "tiles/get_tile.h"
namespace tiles { inline void clear_pack_file(char const* db) { shim_create(shim_pack_name(db), true); } }
