#pragma once
#include "cista/containers/string.h"
