#pragma once
#include "tiles/get_tile.h"
namespace tiles { struct feature_inserter_mt { feature_inserter_mt(dbi_handle h, pack_handle& p) : h_{h}, p_{p} {} dbi_handle h_; pack_handle& p_; }; }
