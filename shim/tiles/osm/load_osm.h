#pragma once
#include "tiles/db/feature_inserter_mt.h"
namespace tiles { void load_osm(tile_db_handle&, feature_inserter_mt&, std::string const& osm, std::string const& profile, std::string const& tmp); }
