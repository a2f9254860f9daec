#pragma once
#include <string>
namespace tiles { void check_profile(std::string const&); }
