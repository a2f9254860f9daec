#pragma once
#include <chrono>
#include <string>
namespace utl {
struct scoped_timer {
  explicit scoped_timer(std::string name)
      : name_{std::move(name)}, start_{std::chrono::steady_clock::now()} {}
  scoped_timer(scoped_timer const&) = delete;
  scoped_timer& operator=(scoped_timer const&) = delete;
  ~scoped_timer() { (void)std::chrono::steady_clock::now(); }
  void print(std::string_view = "") const {}
  std::string name_;
  std::chrono::steady_clock::time_point start_;
};
struct manual_timer {
  explicit manual_timer(std::string) {}
  void stop_and_print() const {}
};
}  // namespace utl
#define UTL_START_TIMING(_X) auto _X##_start = std::chrono::steady_clock::now(), _X##_stop = _X##_start
#define UTL_STOP_TIMING(_X) _X##_stop = std::chrono::steady_clock::now()
#define UTL_GET_TIMING_MS(_X) std::chrono::duration_cast<std::chrono::milliseconds>(_X##_stop - _X##_start).count()
#define UTL_TIMING_MS(_X) UTL_GET_TIMING_MS(_X)
