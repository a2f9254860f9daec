#pragma once
#include <pthread.h>
#include <sys/types.h>
#include "core.h"

namespace sim {
constexpr u32 MAX_CHOICES = 1U << 20;
constexpr u32 MAX_STATES = 4096;
constexpr u32 OUT_CAP = 8U << 20;
constexpr u32 NOTE_CAP = 1U << 18;
constexpr u32 MAX_NODES = 1024;
constexpr u64 FS_BYTES = 512ULL << 20;

enum Status : u32 { S_NONE, S_OK, S_VIOLATION, S_DISCARD, S_FAILSTOP, S_CRASHSIM, S_ERROR };

struct Node {
  bool used, dir;
  char path[200];
  u64 hash, size, cap, off, mtime;
};

// Lives in memory shared between the worker and the (incarnations of the) run.
struct Shared {
  // choices
  u32 replay;            // 1: take choices from seq, 0 beyond its end
  u32 nseq;              // recorded (or given) choices
  u32 pos;
  u32 overflow;
  u64 rng[2];
  u32 want_notes;
  u32 seq[MAX_CHOICES];
  // result
  u32 status;
  u32 nontrivial;
  char sig[160];
  char detail[6000];
  u64 trace_hash, sched_hash, steps, switches, tasks, vtime, allocs, disk_ops;
  u64 faults[F_COUNT];
  u64 probes[P_COUNT];
  u32 nstates;
  u64 states[MAX_STATES];
  u32 nnotes;
  char notes[NOTE_CAP];
  // process output
  u32 out_len;
  u32 in_incarnation;
  char out[OUT_CAP];
  // disk
  u64 fs_bump, fs_clock, fs_mut, fs_crash_at;
  u32 nnodes;
  Node nodes[MAX_NODES];
  char fs[FS_BYTES];
};
extern Shared* G;
extern bool g_in_run;        // inside a simulated run (this process is a run)
extern int g_in_core;        // inside the simulator itself
struct Core { Core() { ++g_in_core; } ~Core() { --g_in_core; } };
void finish(Status s) __attribute__((noreturn));
void run_root(void (*fn)()) __attribute__((noreturn));
void heap_driver();
void sched_child();
void sched_stats();
void heap_begin_run();
void disk_reset();
bool sched_active();
int cur_task();
void clock_advance(u64 ns);
void add_steps(u64 n);
bool range_ok(void const* p, u64 n, bool write, void* pc);
}  // namespace sim
