#pragma once
// Stand-in for utl/parallel_for.h. Same algorithm as upstream: one std::thread
// per hardware thread, an atomic job counter, errors collected under a mutex
// and the first one rethrown. Threads are the simulator's.
#include <atomic>
#include <exception>
#include <functional>
#include <iterator>
#include <mutex>
#include <thread>
#include <utility>
#include <vector>
namespace utl {
enum class parallel_error_strategy { QUIT_EXEC, CONTINUE_EXEC };
using errors = std::vector<std::pair<std::size_t, std::exception_ptr>>;
struct noop_progress_update { void operator()(std::size_t) const {} };

template <typename Fn, typename Progress = noop_progress_update>
inline errors parallel_for_run(std::size_t const job_count, Fn func, Progress&& progress = {},
                               parallel_error_strategy const strat = parallel_error_strategy::QUIT_EXEC) {
  errors errs;
  std::mutex errs_mutex;
  std::atomic<std::size_t> counter{0};
  std::atomic<bool> quit{false};
  auto const work = [&]() {
    while (!quit) {
      auto const idx = counter.fetch_add(1);
      if (idx >= job_count) { break; }
      try {
        func(idx);
        progress(idx);
      } catch (...) {
        std::lock_guard const g{errs_mutex};
        errs.emplace_back(idx, std::current_exception());
        if (strat == parallel_error_strategy::QUIT_EXEC) { quit = true; break; }
      }
    }
  };
  auto const n = std::max(1U, std::thread::hardware_concurrency());
  std::vector<std::thread> threads;
  threads.reserve(n);
  for (auto i = 0U; i != n; ++i) {
    try {
      threads.emplace_back(work);
    } catch (std::system_error const&) {
      if (threads.empty() && i + 1 == n) { work(); }
    }
  }
  if (threads.empty()) { work(); }
  for (auto& t : threads) { t.join(); }
  if (!errs.empty() && strat == parallel_error_strategy::QUIT_EXEC) {
    std::rethrow_exception(errs.front().second);
  }
  return errs;
}
template <typename C, typename Fn, typename... Rest>
inline errors parallel_for(C&& c, Fn func, Rest&&... rest) {
  return parallel_for_run(static_cast<std::size_t>(std::distance(std::begin(c), std::end(c))),
                          [&](std::size_t const i) { func(*std::next(std::begin(c), static_cast<std::ptrdiff_t>(i))); },
                          std::forward<Rest>(rest)...);
}
template <typename C, typename Fn, typename... Rest>
inline errors parallel_for(std::string_view, C&& c, std::size_t, Fn func, Rest&&...) {
  return parallel_for(std::forward<C>(c), std::move(func));
}
}  // namespace utl
