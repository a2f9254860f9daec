#pragma once
#include <unordered_map>
#include "cista/containers/hash_set.h"
namespace cista {
namespace raw { template <typename K, typename V, typename H = shim::hasher<K>> using hash_map = std::unordered_map<K, V, H>; }
namespace offset { using raw::hash_map; }
}
