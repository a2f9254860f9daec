#pragma once
// Stand-in for utl logging: formats every operand (so operand errors surface)
// and hands the finished line to a weak sink the simulator may override.
#include <mutex>
#include <sstream>
#include <string>
#include "fmt/ostream.h"
namespace utl {
enum log_level { emrg, alrt, crit, err, warn, notice, info, debug };
void shim_log_sink(int lvl, std::string const& line);
struct log {
  explicit log(log_level const l) : lvl_{l} {}
  log(log const&) = delete;
  log& operator=(log const&) = delete;
  ~log() {
    try {
      shim_log_sink(lvl_, ss_.str());
    } catch (...) {
    }
  }
  template <typename T>
  log& operator<<(T const& t) {
    ss_ << t;
    return *this;
  }
  log_level lvl_;
  std::ostringstream ss_;
};
}  // namespace utl
#define uLOG(lvl) ::utl::log(lvl)
