// Deterministic simulation core: one seed (or one recorded choice sequence) is
// one exactly repeatable execution of the code under test.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {
using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

// ---------------------------------------------------------------- choices
// Every nondeterministic decision of a run is one choice. 0 is always the
// simplest outcome (no fault, no preemption, smallest input).
u32 choose(u32 n);
bool chance(u32 num, u32 den);
inline u32 range(u32 lo, u32 hi) { return lo + choose(hi - lo + 1); }
template <typename T>
T const& pick(std::vector<T> const& v) { return v[choose(static_cast<u32>(v.size()))]; }

// ---------------------------------------------------------------- faults
enum Fault : u32 {
  F_PREEMPT, F_THREAD_CREATE_FAIL, F_HW_CONCURRENCY_ZERO, F_HW_CONCURRENCY_ODD, F_STARVED_TASK,
  F_ALLOC_FAIL, F_LAYOUT, F_HEAP_PATTERN,
  F_OPEN_ERR, F_READ_ERR, F_READ_SHORT, F_READ_EINTR, F_WRITE_ERR, F_WRITE_ENOSPC, F_WRITE_SHORT,
  F_WRITE_EINTR, F_CLOSE_ERR, F_STAT_ERR, F_MMAP_ERR, F_READDIR_ERR, F_DIR_ORDER, F_RENAME_ERR,
  F_MISSING_FILE, F_CRASH, F_LOST_WRITE, F_TORN_WRITE, F_CLOCK_JUMP, F_TRUNCATED_INPUT,
  F_PRODUCER_THROW, F_CONSUMER_ABANDON, F_CALLBACK_THROW, F_MSG_DUP, F_MSG_REORDER, F_MSG_DROP, F_MSG_DELAY,
  F_TRAIN_DELAY, F_TRAIN_STALL, F_MALFORMED_INPUT, F_TIE, F_RESTART,
  F_COUNT
};
extern char const* const FAULT_NAME[F_COUNT];
void fault(Fault f, u64 n = 1);      // record that a fault really took effect
u64 fault_count(Fault f);            // in this run
u64 faults_total();                  // injected failures (not schedule choices)

// ---------------------------------------------------------------- reporting
// Ends the run. sig identifies what failed, independent of seed.
[[noreturn]] void violation(std::string const& sig, char const* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(char const* why);        // run explored nothing
bool G_note();                                     // a human-readable trace is wanted
void state(u64 h);                                 // a distinct state reached
void event(u64 h);                                 // folded into the run's trace hash
void note(char const* fmt, ...) __attribute__((format(printf, 1, 2)));  // line of the human-readable trace
void nontrivial();                                 // the run exercised the property
enum Probe : u32 { P0, P1, P2, P3, P4, P5, P6, P7, P8, P9, P10, P11, P12, P13, P14, P15, P_COUNT = 24 };
void probe(u32 p, u64 n = 1);                      // scenario specific reach counter
u64 hash_bytes(void const* p, std::size_t n, u64 h = 1469598103934665603ULL);
inline u64 hash_str(std::string const& s, u64 h = 1469598103934665603ULL) { return hash_bytes(s.data(), s.size(), h); }
inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0x100000001b3ULL; }

// ---------------------------------------------------------------- scheduling
struct SchedCfg {
  unsigned hw = 4;          // what hardware_concurrency reports
  unsigned mode = 0;        // 0 run-to-block, 1 random preemption, 2 priorities + change points
  unsigned gap = 1000;      // mean instrumented accesses between preemptions
  unsigned create_fail = 0; // probability (per 64) that thread creation fails
  bool races = true;        // run the happens-before race detector
};
SchedCfg draw_sched(bool allow_create_fail, bool allow_hw_zero);
// Runs fn as the root task of the simulated machine.
void with_sched(SchedCfg const& cfg, std::function<void()> const& fn);
void yield_point();
u64 steps();
u64 switches();
void set_step_limit(u64 n);   // exceeding it is a violation "no-progress"
int live_tasks();
u64 now_ns();

// ---------------------------------------------------------------- heap
struct HeapStats { u64 live_blocks, live_bytes, allocs, frees; };
HeapStats heap_stats();
u64 heap_mark();                                    // identifies allocations from now on
struct Leak { u64 count; u64 bytes; };
Leak live_since(u64 mark);
void draw_heap();                                   // seeded layout and fill pattern
void arm_alloc_fail(u64 nth, u64 burst = 1);        // nth allocation from now on fails (0: off), and burst in all
bool alloc_fail_fired();
struct no_alloc_fail { no_alloc_fail(); ~no_alloc_fail(); u64 saved; };

// When the process terminates (std::terminate/abort) after an injected fault
// the run ends as a fail-stop, which is not a violation, if allowed here.
void allow_failstop(bool);
bool heap_check_enabled();

// ---------------------------------------------------------------- disk
// In-memory disk for every path below "/simfs". Survives simulated crashes.
namespace disk {
struct Cfg {
  unsigned open_err = 0, read_err = 0, read_short = 0, read_eintr = 0, write_err = 0, write_enospc = 0,
           write_short = 0, write_eintr = 0, close_err = 0, stat_err = 0, mmap_err = 0, readdir_err = 0,
           rename_err = 0;  // probability per 64
  bool dir_order = false;   // directory listings in seeded order
  unsigned max_faults = 1;  // failures injected at most (short/EINTR not counted)
  unsigned skip = 0;        // fault opportunities to let pass first
};
void arm(Cfg const&);
void disarm();
u64 ops();                      // disk operations so far
u64 injected();                 // failures injected since arm()
void put(std::string const& path, std::string const& content, u64 mtime = 0);
bool exists(std::string const& path);
bool get(std::string const& path, std::string& out);
void mkdirs(std::string const& path);
void remove(std::string const& path);
std::vector<std::string> list(std::string const& prefix);
void cache_tree(std::string const& real_dir);
u32 load_tree(std::string const& real_dir, std::string const& sim_dir);
void crash_at(u64 nth_mutating_op);  // 0: off; the process is killed when reached
u64 mutating_ops();
}  // namespace disk

// ---------------------------------------------------------------- processes
// Runs fn in a fresh incarnation of the simulated process. Memory changes are
// lost when it ends; only the simulated disk and the returned string survive.
struct Exit { enum Kind { OK, CRASHED, FAILSTOP } kind; std::string out; };
Exit incarnation(std::function<std::string()> const& fn);

// ---------------------------------------------------------------- scenarios
struct Scenario {
  char const* property;
  char const* name;
  void (*prepare)();   // once per worker, outside the simulation (may be null)
  void (*run)();
  unsigned weight;     // relative number of runs
};
void register_scenario(Scenario const&);
struct Reg { Reg(char const* p, char const* n, void (*prep)(), void (*run)(), unsigned w = 1) { register_scenario({p, n, prep, run, w}); } };
int driver_main(int argc, char** argv);
}  // namespace sim
