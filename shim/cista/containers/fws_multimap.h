#pragma once
#include <cstdint>
#include <vector>
#include "cista/containers/string.h"
#include "cista/containers/vector.h"
namespace cista {
namespace shim {
template <typename D, typename I>
struct fws_multimap {
  std::vector<D> data_;
  std::vector<std::uint32_t> index_;
};
}
namespace raw { using shim::fws_multimap; }
namespace offset { using shim::fws_multimap; }
}
