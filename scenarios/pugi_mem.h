// pugixml takes its memory from malloc. Included by one file of a bundle, this
// puts it on the simulated heap, where it can be refused and is guarded.
#pragma once
#include <new>
#include "pugixml.hpp"
#include "core.h"
namespace {
sim::u64 pugi_fail_in = 0, pugi_burst = 1;
struct pugi_mem {
  __attribute__((no_sanitize("thread"), noinline)) static void* get(std::size_t n) {
    if (pugi_fail_in != 0 && --pugi_fail_in == 0) { sim::arm_alloc_fail(1, pugi_burst); }
    return operator new(n, std::nothrow);
  }
  pugi_mem() { pugi::set_memory_management_functions(get, [](void* p) { operator delete(p); }); }
} const pugi_mem_instance;
constexpr sim::u64 IN_PUGI = 1ULL << 32;
// The nth allocation fails (IN_PUGI + n: the nth of pugixml), at times those
// after it too, as on a machine that is out of memory for a while.
inline void arm_refusal(sim::u64 nth) {
  static sim::u64 const bursts[] = {1, 1, 2, 3, 40, 100000};
  pugi_burst = nth != 0 ? bursts[sim::choose(6)] : 1;
  sim::arm_alloc_fail(nth < IN_PUGI ? nth : 0, pugi_burst);
  pugi_fail_in = nth < IN_PUGI ? 0 : nth - IN_PUGI;
}
}  // namespace
