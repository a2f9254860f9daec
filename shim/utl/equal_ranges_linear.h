#pragma once
#include "utl/equal_ranges.h"
