#pragma once
#include "utl/pipes/for_each.h"
