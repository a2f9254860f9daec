// Scheduler, virtual clock, happens-before race detector and heap.
// Compiled without instrumentation; implements the entry points that
// -fsanitize=thread inserts into the code under test.
#include "internal.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <sched.h>
#include <semaphore.h>
#include <csignal>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim {

static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
template <typename F>
static F real(char const* name) {
  Core c;
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

// ============================================================ address space
constexpr u64 ARENA = 0x600000000000ULL;       // heap regions
constexpr u64 REGION = 2ULL << 30;
constexpr unsigned REGIONS = 4;
constexpr u64 ARENA_END = ARENA + REGION * REGIONS;
constexpr u64 STACKS = ARENA_END;              // task stacks
constexpr u64 STACK_SZ = 512ULL << 10;
constexpr u64 ROOT_STACK = 64ULL << 20;
constexpr unsigned MAXT = 1024;
constexpr u64 STACKS_END = STACKS + ROOT_STACK + MAXT * STACK_SZ;
constexpr u64 HSHADOW = 0x610000000000ULL;     // 1 byte per 8 bytes of heap
constexpr u64 RSHADOW = 0x620000000000ULL;     // 8 bytes per byte of heap and stacks
constexpr u64 LOW_END = 256ULL << 20;          // globals of the (non-PIE) program
constexpr u64 LSHADOW = 0x640000000000ULL;

struct Cell { u32 clock; unsigned short task; u8 mask, flags; u32 pc, pad; };  // 16 bytes, 4 per word
constexpr u8 CF_WRITE = 1, CF_ATOMIC = 2;

static void map_at(u64 a, u64 n) {
  void* p = mmap(reinterpret_cast<void*>(a), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(a)) { write(2, "cannot map simulator memory\n", 28); _exit(2); }
}

// ============================================================ heap
static bool g_heap_ready = false;
static bool g_driver = false;
void heap_driver() { g_driver = true; }
static u64 g_bump[REGIONS];
static unsigned g_layout = 0;
static u64 g_layout_rng = 1;
static u8 g_pattern = 0xbe;
static u64 g_seq = 0, g_live_blocks = 0, g_live_bytes = 0, g_allocs = 0, g_frees = 0;
static u64 g_fail_in = 0, g_fail_burst = 1;
static bool g_fail_fired = false;
static int g_nofail = 0;
struct Hdr { u64 size, seq; };
constexpr u8 SH_RED = 0xfa, SH_FREE = 0xfd, SH_NONE = 0xff;

static void heap_init() {
  if (g_heap_ready) { return; }
  g_heap_ready = true;
  map_at(ARENA, ARENA_END - ARENA);
  map_at(HSHADOW, (ARENA_END - ARENA) / 8);
  map_at(STACKS, STACKS_END - STACKS);
  map_at(RSHADOW, (STACKS_END - ARENA) * 8);
  map_at(LSHADOW, LOW_END * 8);
  for (unsigned i = 0; i < REGIONS; ++i) { g_bump[i] = ARENA + i * REGION + 4096; }
}
static u8* hsh(u64 a) { return reinterpret_cast<u8*>(HSHADOW + (a - ARENA) / 8); }
static bool in_arena(u64 a) { return a >= ARENA && a < ARENA_END; }
static bool multi();
static void race_range(u64 a, u64 n, bool write, void* pc);

static void fillb(void* p, u8 v, u64 n) { asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(v) : "memory"); }
static void copyb(void* d, void const* s, u64 n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }

static void* heap_alloc(u64 n, u64 align, bool* failed) {
  heap_init();
  *failed = false;
  if (g_driver && !g_in_run) { void* p = nullptr; *failed = posix_memalign(&p, align < 16 ? 16 : align, n ? n : 1) != 0; return p; }
  bool const mine = g_in_run && g_in_core == 0;
  if (mine && g_fail_in != 0 && g_nofail == 0) {
    if (--g_fail_in == 0) { if (g_fail_burst > 1) { --g_fail_burst; g_fail_in = 1; } g_fail_fired = true; *failed = true; fault(F_ALLOC_FAIL); event(0xA110C); return nullptr; }
  }
  if (n > (1ULL << 40)) { *failed = true; return nullptr; }
  if (align < 16) { align = 16; }
  unsigned reg = 0;
  u64 slack = 0;
  if (g_layout != 0 && mine) {
    g_layout_rng = g_layout_rng * 6364136223846793005ULL + 1442695040888963407ULL;
    u64 const r = g_layout_rng >> 33;
    reg = g_layout == 1 ? REGIONS - 1 - (g_allocs & 1) : static_cast<unsigned>(r % REGIONS);
    slack = 16 * ((r >> 8) % (g_layout == 3 ? 64 : 4));
  }
  u64 a = 0, end = 0;
  if (n > REGION / 2) { *failed = true; return nullptr; }
  for (unsigned tries = 0;; ++tries, reg = (reg + 1) % REGIONS) {
    a = g_bump[reg] + slack + sizeof(Hdr) + 16;
    a = (a + align - 1) & ~(align - 1);
    end = (a + n + 15) & ~15ULL;
    if (end + 4096 <= ARENA + (reg + 1) * REGION) { break; }
    if (tries == REGIONS) {
      write(2, "simulator heap exhausted\n", 25);
      if (G) { G->status = S_ERROR; }
      _exit(2);
    }
  }
  // red zone before the block stays as mapped: mark it
  for (u64 s = g_bump[reg]; s < a; s += 8) { *hsh(s) = SH_RED; }
  for (u64 s = a; s + 8 <= a + n; s += 8) { *hsh(s) = 0; }
  if (n % 8) { *hsh(a + n) = static_cast<u8>(n % 8); }
  for (u64 s = (a + n + 7) & ~7ULL; s < end + 16; s += 8) { *hsh(s) = SH_RED; }
  g_bump[reg] = end + 16;
  auto* h = reinterpret_cast<Hdr*>(a) - 1;
  h->size = n;
  h->seq = ++g_seq;
  if (g_in_run) { fillb(reinterpret_cast<void*>(a), g_pattern, n); }
  ++g_allocs;
  ++g_live_blocks;
  g_live_bytes += n;
  return reinterpret_cast<void*>(a);
}
static void heap_free(void* p, void* pc) {
  if (!p) { return; }
  u64 const a = reinterpret_cast<u64>(p);
  if (!in_arena(a)) { if (g_in_run) { violation("bad-free", "delete of %p which no allocation returned, pc=%p", p, pc); } free(p); return; }
  auto* h = reinterpret_cast<Hdr*>(a) - 1;
  u8 const s = *hsh(a);
  u64 const n = h->size;
  bool const was_empty = n == 0;
  if ((!was_empty && (s == SH_FREE || s == SH_NONE || s == SH_RED)) || h->seq == 0 || h->seq > g_seq || h->size >= (1ULL << 62)) {
    if (g_in_run) { violation(s == SH_FREE || h->size >= (1ULL << 62) ? "double-free" : "bad-free", "delete of %p (block state %02x), pc=%p", p, s, pc); }
    return;
  }
  if (g_in_run && g_in_core == 0 && multi()) { race_range(a, n, true, pc); }
  for (u64 q = a; q < a + n; q += 8) { *hsh(q) = SH_FREE; }
  if (g_in_run) { fillb(p, 0xdd, n); }
  h->size = n | (1ULL << 62);
  ++g_frees;
  --g_live_blocks;
  g_live_bytes -= n;
}
u64 heap_mark() { return g_seq; }
static bool walk_region(unsigned, u64, Leak&) { return true; }
Leak live_since(u64 mark) {
  // Blocks carry their sequence number; scan the regions' shadow for headers
  // by following allocations in address order.
  Leak l{0, 0};
  (void)walk_region;
  for (unsigned r = 0; r < REGIONS; ++r) {
    u64 const base = ARENA + r * REGION + 4096;
    for (u64 a = base; a < g_bump[r];) {
      if (*hsh(a) != SH_RED && *hsh(a) != SH_NONE && *hsh(a - 8) == SH_RED) {
        auto* h = reinterpret_cast<Hdr*>(a) - 1;
        u64 const n = h->size & ~(1ULL << 62);
        if (h->seq > mark && h->seq <= g_seq && !(h->size >> 62)) { ++l.count; l.bytes += n; }
        a += (n + 15) & ~15ULL;
        continue;
      }
      a += 8;
    }
  }
  return l;
}
HeapStats heap_stats() { return {g_live_blocks, g_live_bytes, g_allocs, g_frees}; }
void draw_heap() {
  u32 const lay = choose(4);
  u32 const seed = lay ? choose(1U << 16) : 0;
  u32 const pat = choose(3);
  g_layout = lay;
  g_layout_rng = seed * 2654435761ULL + 12345;
  g_pattern = pat == 0 ? 0xbe : pat == 1 ? 0x00 : 0xff;
  if (lay) { fault(F_LAYOUT); }
  if (pat) { fault(F_HEAP_PATTERN); }
}
void arm_alloc_fail(u64 nth, u64 burst) { g_fail_in = nth; g_fail_burst = burst; g_fail_fired = false; }
bool alloc_fail_fired() { return g_fail_fired; }
no_alloc_fail::no_alloc_fail() : saved(0) { ++g_nofail; }
no_alloc_fail::~no_alloc_fail() { --g_nofail; }
bool heap_check_enabled() { return true; }
void heap_begin_run() {
  heap_init();
  g_layout = 0; g_pattern = 0xbe; g_fail_in = 0; g_fail_burst = 1; g_fail_fired = false; g_nofail = 0; g_allocs = g_frees = 0;
}

static void mem_bad(u64 a, u64 n, bool write, void* pc, u8 s) {
  char const* what = s == SH_FREE ? "use-after-free" : "out-of-bounds";
  violation(std::string{"heap-"} + what, "%s of %lu bytes at %lx (%s), pc=%p", write ? "write" : "read", static_cast<unsigned long>(n), static_cast<unsigned long>(a), what, pc);
}
static inline void mem_check(u64 a, u64 n, bool write, void* pc) {
  if (a - ARENA >= ARENA_END - ARENA) { return; }
  u64 const last = a + n - 1;
  for (u64 w = a & ~7ULL; w <= last; w += 8) {
    u8 const s = *hsh(w);
    if (__builtin_expect(s != 0, 0)) {
      u64 const hi = (last < w + 7 ? last : w + 7) - w;  // last byte used in word
      if (s < 8 && hi < s) { continue; }
      mem_bad(a, n, write, pc, s);
    }
  }
}
bool range_ok(void const* p, u64 n, bool write, void* pc) {
  if (n != 0) { mem_check(reinterpret_cast<u64>(p), n, write, pc); }
  return true;
}

// ============================================================ tasks
enum TState : u8 { T_READY, T_BLOCKED, T_SLEEP, T_DONE };
struct Task {
  u32* vc;
  int baton;
  TState st;
  bool joined, detached, timed, timed_out;
  int in_core;
  void const* wait;
  u64 wake;
  u32 prio;
  u64 ran;
  pthread_t self;
  void* (*fn)(void*);
  void* arg;
  void* ret;
};
static Task* T = nullptr;
static unsigned nT = 0;
static int cur = 0;
static int nlive = 0;
static SchedCfg cfg;
static u64 g_steps = 0, g_switches = 0, g_step_limit = 400000000ULL;
static long g_countdown = LONG_MAX;
static u64 g_vtime = 0;
static bool g_races = false;
static u32 g_low_prio = 0;
static pthread_key_t g_key;
static u64 g_sched_hash = 0;
static u64 g_last_switch_step = 0;

static bool on() { return g_in_run && g_in_core == 0; }
static bool multi() { return nlive > 1; }
int cur_task() { return cur; }
int live_tasks() { return nlive; }
u64 steps() { return g_steps; }
u64 switches() { return g_switches; }
void set_step_limit(u64 n) { g_step_limit = g_steps + n; }
u64 now_ns() { return g_vtime + g_steps * 4; }
void clock_advance(u64 ns) { g_vtime += ns; }
bool sched_active() { return g_in_run; }

static void draw_countdown() {
  if (nlive <= 1 || cfg.mode == 0) { g_countdown = cfg.mode == 0 && nlive > 1 ? 300000 : LONG_MAX; return; }
  u32 const k = choose(2 * cfg.gap);
  g_countdown = k == 0 ? 300000 : static_cast<long>(k);
}
static void baton_wait(Task& t) {
  while (__atomic_load_n(&t.baton, __ATOMIC_ACQUIRE) == 0) { raw_syscall(SYS_futex, reinterpret_cast<long>(&t.baton), FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); }
  __atomic_store_n(&t.baton, 0, __ATOMIC_RELAXED);
}
static void baton_give(Task& t) {
  __atomic_store_n(&t.baton, 1, __ATOMIC_RELEASE);
  raw_syscall(SYS_futex, reinterpret_cast<long>(&t.baton), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void wake_sleepers() {
  for (unsigned i = 0; i < nT; ++i) {
    if ((T[i].st == T_SLEEP || (T[i].st == T_BLOCKED && T[i].timed)) && T[i].wake <= now_ns()) { T[i].timed_out = T[i].st == T_BLOCKED; T[i].st = T_READY; }
  }
}
static void deadlock() {
  char b[1000];
  char* p = b;
  b[0] = 0;
  for (unsigned i = 0; i < nT && p - b < 900; ++i) { if (T[i].st == T_BLOCKED) { p += snprintf(p, 60, " task%u waits for %p;", i, T[i].wait); } }
  violation("deadlock", "no task can make progress:%s", b);
}
// Gives the processor to another task. Called with the simulator entered.
static void switch_to(int next) {
  if (next == cur) { return; }
  ++g_switches;
  g_sched_hash = mix(g_sched_hash, (static_cast<u64>(next) << 40) ^ (g_steps - g_last_switch_step));
  g_last_switch_step = g_steps;
  G->trace_hash = mix(G->trace_hash, g_steps * 64 + static_cast<u64>(next));
  Task& me = T[cur];
  me.in_core = g_in_core;
  cur = next;
  g_in_core = T[next].in_core;
  T[next].ran = 0;
  bool const gone = me.st == T_DONE;
  baton_give(T[next]);
  if (gone) { for (;;) { raw_syscall(SYS_pause, 0, 0, 0, 0, 0, 0); } }
  baton_wait(me);
}
static int pick_next(bool allow_self) {
  wake_sleepers();
  int cand[MAXT];
  int n = 0;
  auto collect = [&] {
    n = 0;
    if (allow_self && T[cur].st == T_READY) { cand[n++] = cur; }  // choice 0: stay
    for (unsigned k = 1; k <= nT; ++k) {
      unsigned const i = (static_cast<unsigned>(cur) + k) % nT;
      if (static_cast<int>(i) == cur) { continue; }
      if (T[i].st == T_READY) { cand[n++] = static_cast<int>(i); }
    }
    if (!allow_self && n == 0 && T[cur].st == T_READY) { cand[n++] = cur; }
  };
  collect();
  if (n == 0) {
    u64 best = ~0ULL;
    for (unsigned i = 0; i < nT; ++i) { if ((T[i].st == T_SLEEP || (T[i].st == T_BLOCKED && T[i].timed)) && T[i].wake < best) { best = T[i].wake; } }
    if (best == ~0ULL) { deadlock(); }
    g_vtime += best - now_ns();
    wake_sleepers();
    collect();
  }
  if (n == 1) { return cand[0]; }
  if (cfg.mode == 2) {
    int b = cand[0];
    for (int i = 1; i < n; ++i) { if (T[cand[i]].prio > T[b].prio) { b = cand[i]; } }
    return b;
  }
  if (cfg.mode == 0 && allow_self) { return cand[0]; }
  return cand[choose(static_cast<u32>(n))];
}
static void reschedule(bool allow_self) {
  int const n = pick_next(allow_self);
  switch_to(n);
  draw_countdown();
}
static void preempt() {
  Core c;
  if (cfg.mode == 2) { T[cur].prio = g_low_prio > 0 ? --g_low_prio : 0; }
  int const before = cur;
  int const n = pick_next(false);
  if (n != before) { fault(F_PREEMPT); }
  switch_to(n);
  draw_countdown();
}
static void on_step_limit() {
  violation("no-progress", "no completion within the bound of %lu steps (%d live tasks)", static_cast<unsigned long>(g_step_limit), nlive);
}
// A synchronisation operation is a scheduling point.
static void sync_point() {
  ++g_steps;
  if (g_steps > g_step_limit) { Core c; on_step_limit(); }
  if (nlive <= 1 || cfg.mode == 0) { return; }
  Core c;
  if (cfg.mode == 1) { if (choose(8) < 5) { return; } }
  int const before = cur;
  int const n = pick_next(true);
  if (n != before) { fault(F_PREEMPT); switch_to(n); draw_countdown(); }
}
void yield_point() { if (on()) { sync_point(); } }
void add_steps(u64 n) { if (g_in_run) { g_steps += n; if (g_steps > g_step_limit) { Core c; on_step_limit(); } } }
static void block_on(void const* obj, u64 timeout_ns = 0) {
  Core c;
  T[cur].st = T_BLOCKED;
  T[cur].wait = obj;
  T[cur].timed = timeout_ns != 0;
  T[cur].timed_out = false;
  T[cur].wake = now_ns() + timeout_ns;
  reschedule(false);
  T[cur].wait = nullptr;
  T[cur].timed = false;
}
static int wake_on(void const* obj, int n) {
  int w = 0;
  // Which waiter is woken is a choice too.
  while (w < n) {
    int c[MAXT], k = 0;
    for (unsigned i = 0; i < nT; ++i) { if (T[i].st == T_BLOCKED && T[i].wait == obj) { c[k++] = static_cast<int>(i); } }
    if (k == 0) { break; }
    int const i = n >= MAXT ? 0 : static_cast<int>(choose(static_cast<u32>(k)));
    T[c[i]].st = T_READY;
    ++w;
  }
  return w;
}

// ------------------------------------------------------------ vector clocks
struct Sync { void const* key; u32* vc; int kind; int owner; int count; int readers; bool dead; };
static Sync* S = nullptr;
constexpr u32 NSYNC = 1U << 16;
static u32 nsync = 0;
static Sync& sync_of(void const* k) {
  u64 h = reinterpret_cast<u64>(k) * 0x9e3779b97f4a7c15ULL;
  for (u32 i = static_cast<u32>(h >> 40) & (NSYNC - 1);; i = (i + 1) & (NSYNC - 1)) {
    if (S[i].key == k) { return S[i]; }
    if (S[i].key == nullptr) {
      if (++nsync > NSYNC * 7 / 8) { G->status = S_ERROR; write(2, "too many sync objects\n", 22); _exit(2); }
      S[i].key = k;
      S[i].owner = -1;
      return S[i];
    }
  }
}
static u32* vc_new() { return static_cast<u32*>(calloc(MAXT, sizeof(u32))); }
static void vc_join(u32* a, u32 const* b) { for (unsigned i = 0; i < nT; ++i) { if (b[i] > a[i]) { a[i] = b[i]; } } }
static void vc_copy(u32* a, u32 const* b) { memcpy(a, b, nT * sizeof(u32)); }
static void acquire(Sync& s) { if (s.vc) { vc_join(T[cur].vc, s.vc); } }
static void release(Sync& s, bool join) {
  if (!s.vc) { s.vc = vc_new(); }
  if (join) { vc_join(s.vc, T[cur].vc); } else { vc_copy(s.vc, T[cur].vc); }
  ++T[cur].vc[cur];
}

static Cell* cells(u64 w) {
  if (w - ARENA < STACKS_END - ARENA) { return reinterpret_cast<Cell*>(RSHADOW + (w - ARENA) * 8); }
  if (w < LOW_END) { return reinterpret_cast<Cell*>(LSHADOW + w * 8); }
  return nullptr;
}
static void race(u64 a, Cell const& c, bool write, bool atomic, void* pc) {
  violation("data-race", "unsynchronised accesses to %lx: task%u %s%s pc=0x%x and task%d %s%s pc=%p", static_cast<unsigned long>(a), c.task, c.flags & CF_ATOMIC ? "atomic " : "", c.flags & CF_WRITE ? "write" : "read", c.pc, cur, atomic ? "atomic " : "", write ? "write" : "read", pc);
}
static inline void race_word(u64 w, u8 mask, bool write, bool atomic, void* pc) {
  Cell* c = cells(w);
  if (!c) { return; }
  u32 const* vc = T[cur].vc;
  u8 const fl = static_cast<u8>((write ? CF_WRITE : 0) | (atomic ? CF_ATOMIC : 0));
  int slot = -1;
  for (int i = 0; i < 4; ++i) {
    if (c[i].mask == 0) { if (slot < 0) { slot = i; } continue; }
    if (c[i].task == cur) {
      // replace own older cell if it is covered and not stronger
      if ((c[i].mask & ~mask) == 0 && (fl & CF_WRITE || !(c[i].flags & CF_WRITE)) && (!atomic || (c[i].flags & CF_ATOMIC))) { slot = i; }
      continue;
    }
    if (!(c[i].mask & mask)) { continue; }
    if (!write && !(c[i].flags & CF_WRITE)) { continue; }
    if (atomic && (c[i].flags & CF_ATOMIC)) { continue; }
    if (c[i].clock > vc[c[i].task]) { race(w, c[i], write, atomic, pc); }
  }
  if (slot < 0) { slot = static_cast<int>(g_steps & 3); }
  c[slot] = {vc[cur], static_cast<unsigned short>(cur), mask, fl, static_cast<u32>(reinterpret_cast<u64>(pc)), 0};
}
static void race_range(u64 a, u64 n, bool write, void* pc) {
  if (!g_races) { return; }
  u64 const e = a + n;
  while (a < e) {
    u64 const w = a & ~7ULL;
    u64 const hi = e - w < 8 ? e - w : 8;
    u8 const m = static_cast<u8>(((1U << hi) - 1) & ~((1U << (a - w)) - 1));
    race_word(w, m, write, false, pc);
    a = w + 8;
  }
}

static inline __attribute__((always_inline)) void acc(void* p, unsigned n, bool write, void* pc) {
  if (!g_in_run || g_in_core != 0) { return; }
  u64 const a = reinterpret_cast<u64>(p);
  mem_check(a, n, write, pc);
  if (++g_steps > g_step_limit) { Core c; on_step_limit(); }
  if (nlive > 1) {
    if (g_races) { race_range(a, n, write, pc); }
    if (--g_countdown <= 0) { preempt(); }
  }
}
static void acc_range(void* p, u64 n, bool write, void* pc) {
  if (n == 0 || !on()) { return; }
  u64 const a = reinterpret_cast<u64>(p);
  mem_check(a, n, write, pc);
  g_steps += 1 + n / 64;
  if (g_steps > g_step_limit) { Core c; on_step_limit(); }
  if (nlive > 1) {
    if (g_races && n <= (1U << 20)) { race_range(a, n, write, pc); }
    if (--g_countdown <= 0) { preempt(); }
  }
}

static void task_gone(void*) {
  // Runs in the finishing thread after its thread_local destructors.
  if (!g_in_run) { return; }
  ++g_in_core;
  Sync& s = sync_of(&T[cur]);
  release(s, false);
  T[cur].st = T_DONE;
  --nlive;
  wake_on(&T[cur], INT_MAX);
  int const n = pick_next(false);
  g_countdown = LONG_MAX;
  switch_to(n);
}
static void on_sig_stack() {
  stack_t ss{};
  ss.ss_size = 1 << 15;
  ss.ss_sp = malloc(ss.ss_size);
  sigaltstack(&ss, nullptr);
}
static void* trampoline(void* p) {
  Task& t = *static_cast<Task*>(p);
  baton_wait(t);
  draw_countdown();
  on_sig_stack();
  pthread_setspecific(g_key, &t);
  --g_in_core;
  t.ret = t.fn(t.arg);
  return t.ret;
}
static int real_create(pthread_t* out, u64 stack, u64 size, void* (*fn)(void*), void* arg) {
  static auto f = real<int (*)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*)>("pthread_create");
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, reinterpret_cast<void*>(stack), size);
  int const r = f(out, &at, fn, arg);
  pthread_attr_destroy(&at);
  return r;
}
static void (*g_root_fn)();
static void* root_main(void*) {
  on_sig_stack();
  pthread_setspecific(g_key, &T[0]);
  T[0].self = pthread_self();
  g_in_core = 0;
  g_root_fn();
  ++g_in_core;
  finish(S_OK);
}
void run_root(void (*fn)()) {
  g_in_core = 1;
  T = static_cast<Task*>(calloc(MAXT, sizeof(Task)));
  S = static_cast<Sync*>(mmap(nullptr, sizeof(Sync) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  nT = 1;
  cur = 0;
  nlive = 1;
  nsync = 0;
  g_steps = g_switches = 0;
  g_step_limit = 400000000ULL;
  g_vtime = 1700000000ULL * 1000000000ULL;
  g_races = false;
  g_countdown = LONG_MAX;
  cfg = SchedCfg{};
  pthread_key_create(&g_key, task_gone);
  T[0].vc = vc_new();
  T[0].vc[0] = 1;
  T[0].st = T_READY;
  g_root_fn = fn;
  pthread_t t;
  if (real_create(&t, STACKS, ROOT_STACK, root_main, nullptr) != 0) { G->status = S_ERROR; _exit(2); }
  for (;;) { raw_syscall(SYS_pause, 0, 0, 0, 0, 0, 0); }
}
static u64 g_base_steps = 0, g_base_allocs = 0, g_base_time = 1700000000ULL * 1000000000ULL, g_base_tasks = 0, g_base_sw = 0;
void sched_child() { g_base_steps = g_steps; g_base_allocs = g_allocs; g_base_time = now_ns(); g_base_tasks = nT; g_base_sw = g_switches; }
void sched_stats() {
  G->steps += g_steps - g_base_steps;
  G->switches += g_switches - g_base_sw;
  G->tasks += nT - g_base_tasks;
  G->vtime += g_vtime ? now_ns() - g_base_time : 0;
  G->allocs += g_allocs - g_base_allocs;
  if (g_switches) { G->sched_hash = mix(G->sched_hash, g_sched_hash); }
  G->trace_hash = mix(G->trace_hash, g_steps);
}

SchedCfg draw_sched(bool allow_create_fail, bool allow_hw_zero) {
  SchedCfg c;
  c.mode = choose(3);
  static unsigned const gaps[] = {3000, 400, 60, 12};
  c.gap = gaps[choose(4)];
  static unsigned const hws[] = {1, 2, 3, 4, 5, 7, 8, 13, 16, 24};
  u32 const h = choose(allow_hw_zero ? 11 : 10);
  c.hw = h == 10 ? 0 : hws[h];
  if (allow_create_fail && chance(1, 10)) { c.create_fail = 1 + choose(16); }
  c.races = true;
  return c;
}
void with_sched(SchedCfg const& c, std::function<void()> const& fn) {
  {
    Core k;
    cfg = c;
    g_races = c.races;
    g_low_prio = 1000;
    T[cur].prio = 2000;
    if (c.hw == 0) { fault(F_HW_CONCURRENCY_ZERO); } else if (c.hw > 8 || (c.hw & (c.hw - 1))) { fault(F_HW_CONCURRENCY_ODD); }
  }
  fn();
  {
    Core k;
    unsigned const hw = cfg.hw;
    cfg = SchedCfg{};
    cfg.hw = hw;
    cfg.create_fail = 0;
    g_races = false;
  }
}
}  // namespace sim

// ================================================================ interposed
using namespace sim;
static Task* task_of(pthread_t p) {
  for (unsigned i = 0; i < nT; ++i) { if (T[i].self == p) { return &T[i]; } }
  return nullptr;
}
extern "C" {
int pthread_create(pthread_t* out, pthread_attr_t const* at, void* (*fn)(void*), void* arg) {
  if (!g_in_run) { static pthread_t fake = 1; fn(arg); *out = fake++; return 0; }  // preparation is sequential
  Core c;
  if (cfg.create_fail && chance(cfg.create_fail, 64)) { fault(F_THREAD_CREATE_FAIL); return EAGAIN; }
  if (nT >= MAXT) { G->status = S_ERROR; write(2, "too many tasks\n", 15); _exit(2); }
  Task& t = T[nT];
  t = Task{};
  t.vc = vc_new();
  t.fn = fn;
  t.arg = arg;
  t.in_core = 1;
  t.prio = cfg.mode == 2 ? 1001 + choose(1000) : 0;
  vc_copy(t.vc, T[cur].vc);
  ++T[cur].vc[cur];
  unsigned const id = nT++;
  t.vc[id] = 1;
  int const r = real_create(&t.self, STACKS + ROOT_STACK + (id - 1) * STACK_SZ, STACK_SZ, trampoline, &t);
  if (r != 0) { G->status = S_ERROR; write(2, "pthread_create failed\n", 22); _exit(2); }
  if (at) { int d = 0; pthread_attr_getdetachstate(at, &d); t.detached = d == PTHREAD_CREATE_DETACHED; }
  *out = t.self;
  t.st = T_READY;
  ++nlive;
  if (g_countdown == LONG_MAX) { draw_countdown(); }
  if (cfg.mode != 0) { int const n = pick_next(true); if (n != cur) { switch_to(n); draw_countdown(); } }
  return 0;
}
int pthread_join(pthread_t p, void** ret) {
  if (!g_in_run) { return 0; }
  Core c;
  Task* t = task_of(p);
  if (!t || t->joined || t->detached) { return EINVAL; }
  if (t == &T[cur]) { return EDEADLK; }
  while (t->st != T_DONE) { block_on(t); }
  acquire(sync_of(t));
  t->joined = true;
  if (ret) { *ret = t->ret; }
  return 0;
}
int pthread_detach(pthread_t p) {
  if (!g_in_run) { return 0; }
  Core c;
  Task* t = task_of(p);
  if (!t) { return ESRCH; }
  t->detached = true;
  return 0;
}

// ---- mutexes. Ownership is kept by the simulator, not in the object.
static int m_lock(void* m, bool rec, bool try_, u64 timeout = 0) {
  sync_point();
  Core c;
  Sync& s = sync_of(m);
  while (s.owner != -1) {
    if (s.owner == cur) {
      if (rec) { ++s.count; return 0; }
      if (try_) { return EBUSY; }
    }
    if (try_) { return EBUSY; }
    block_on(m, timeout);
    if (T[cur].timed_out) { return ETIMEDOUT; }
  }
  s.owner = cur;
  s.count = 1;
  if (multi()) { acquire(s); }
  return 0;
}
static int m_unlock(void* m) {
  {
    Core c;
    Sync& s = sync_of(m);
    if (s.owner != cur) { violation("unlock-not-owner", "mutex %p unlocked by task%d, owner is %d", m, cur, s.owner); }
    if (--s.count > 0) { return 0; }
    s.owner = -1;
    if (multi()) { release(s, false); }
    wake_on(m, INT_MAX);
  }
  sync_point();
  return 0;
}
static bool m_rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
#define REALF(name, sig) static auto f = real<sig>(name)
int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const* a) {
  REALF("pthread_mutex_init", int (*)(pthread_mutex_t*, pthread_mutexattr_t const*));
  return f(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) { (void)m; return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on()) { if (g_in_run) { return 0; } REALF("pthread_mutex_lock", int (*)(pthread_mutex_t*)); return f(m); }
  return m_lock(m, m_rec(m), false);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) { if (g_in_run) { return 0; } REALF("pthread_mutex_trylock", int (*)(pthread_mutex_t*)); return f(m); }
  return m_lock(m, m_rec(m), true);
}
static u64 until(timespec const* ts) { u64 const t = static_cast<u64>(ts->tv_sec) * 1000000000ULL + static_cast<u64>(ts->tv_nsec); return t > now_ns() ? t - now_ns() : 1; }
int pthread_mutex_timedlock(pthread_mutex_t* m, timespec const* ts) { return on() ? m_lock(m, m_rec(m), false, until(ts)) : 0; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, timespec const* ts) { return on() ? m_lock(m, m_rec(m), false, until(ts)) : 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on()) { if (g_in_run) { return 0; } REALF("pthread_mutex_unlock", int (*)(pthread_mutex_t*)); return f(m); }
  return m_unlock(m);
}
int pthread_spin_init(pthread_spinlock_t*, int) { return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* m) { return on() ? m_lock(const_cast<int*>(m), false, false) : 0; }
int pthread_spin_trylock(pthread_spinlock_t* m) { return on() ? m_lock(const_cast<int*>(m), false, true) : 0; }
int pthread_spin_unlock(pthread_spinlock_t* m) { return on() ? m_unlock(const_cast<int*>(m)) : 0; }

// ---- condition variables
static int c_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 timeout) {
  bool to = false;
  {
    Core k;
    Sync& s = sync_of(m);
    s.owner = -1;
    s.count = 0;
    if (multi()) { release(s, false); }
    wake_on(m, INT_MAX);
    if (chance(1, 32)) { T[cur].st = T_READY; reschedule(false); }  // spurious wakeup
    else { block_on(c, timeout); to = T[cur].timed_out; }
    if (multi()) { acquire(sync_of(c)); }
  }
  m_lock(m, false, false);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_init(pthread_cond_t* c, pthread_condattr_t const*) { memset(c, 0, sizeof(*c)); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return on() ? c_wait(c, m, 0) : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* ts) { return on() ? c_wait(c, m, until(ts)) : ETIMEDOUT; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, timespec const* ts) { return on() ? c_wait(c, m, until(ts)) : ETIMEDOUT; }
static int c_wake(pthread_cond_t* c, int n) {
  if (!on()) { return 0; }
  { Core k; if (multi()) { release(sync_of(c), true); } wake_on(c, n); }
  sync_point();
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { return c_wake(c, 1); }
int pthread_cond_broadcast(pthread_cond_t* c) { return c_wake(c, INT_MAX); }

// ---- rwlocks
static int rw_lock(void* l, bool write, bool try_) {
  sync_point();
  Core c;
  Sync& s = sync_of(l);
  while (s.owner != -1 || (write && s.readers > 0)) {
    if (try_) { return EBUSY; }
    block_on(l);
  }
  if (write) { s.owner = cur; } else { ++s.readers; }
  if (multi()) { acquire(s); }
  return 0;
}
int pthread_rwlock_init(pthread_rwlock_t*, pthread_rwlockattr_t const*) { return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return on() ? rw_lock(l, false, false) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return on() ? rw_lock(l, true, false) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return on() ? rw_lock(l, false, true) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return on() ? rw_lock(l, true, true) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!on()) { return 0; }
  {
    Core c;
    Sync& s = sync_of(l);
    if (s.owner == cur) { s.owner = -1; } else if (s.readers > 0) { --s.readers; } else { violation("unlock-not-owner", "rwlock %p", static_cast<void*>(l)); }
    if (multi()) { release(s, true); }
    wake_on(l, INT_MAX);
  }
  sync_point();
  return 0;
}

// ---- semaphores
int sem_init(sem_t* s, int, unsigned v) { *reinterpret_cast<unsigned*>(s) = v; return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s) {
  { Core c; ++*reinterpret_cast<unsigned*>(s); if (g_in_run) { if (multi()) { release(sync_of(s), true); } wake_on(s, 1); } }
  if (on()) { sync_point(); }
  return 0;
}
int sem_wait(sem_t* s) {
  if (!on()) { return 0; }
  sync_point();
  Core c;
  while (*reinterpret_cast<unsigned*>(s) == 0) { block_on(s); }
  --*reinterpret_cast<unsigned*>(s);
  if (multi()) { acquire(sync_of(s)); }
  return 0;
}
int sem_trywait(sem_t* s) {
  Core c;
  if (*reinterpret_cast<unsigned*>(s) == 0) { errno = EAGAIN; return -1; }
  --*reinterpret_cast<unsigned*>(s);
  if (g_in_run && multi()) { acquire(sync_of(s)); }
  return 0;
}
int sem_timedwait(sem_t* s, timespec const* ts) {
  if (!on()) { return 0; }
  Core c;
  while (*reinterpret_cast<unsigned*>(s) == 0) { block_on(s, until(ts)); if (T[cur].timed_out) { errno = ETIMEDOUT; return -1; } }
  --*reinterpret_cast<unsigned*>(s);
  return 0;
}
int sem_clockwait(sem_t* s, clockid_t, timespec const* ts) { return sem_timedwait(s, ts); }

// ---- once, static guards
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!g_in_run) { REALF("pthread_once", int (*)(pthread_once_t*, void (*)(void))); return f(o, fn); }
  int* st = reinterpret_cast<int*>(o);
  for (;;) {
    Core c;
    if (*st == 2) { if (multi()) { acquire(sync_of(o)); } return 0; }
    if (*st == 0) { *st = 1; break; }
    block_on(o);
  }
  try { fn(); } catch (...) { Core c; *st = 0; wake_on(o, INT_MAX); throw; }
  Core c;
  *st = 2;
  if (multi()) { release(sync_of(o), true); }
  wake_on(o, INT_MAX);
  return 0;
}
int __cxa_guard_acquire(long long* gg) {
  char* g = reinterpret_cast<char*>(gg);
  if (g[0]) { if (g_in_run && multi()) { Core c; acquire(sync_of(g)); } return 0; }
  if (!g_in_run) { g[1] = 1; return 1; }
  while (g[1]) {
    Core c;
    if (sync_of(g).owner == cur) { violation("recursive-static-init", "static guard %p", static_cast<void*>(g)); }
    block_on(g);
    if (g[0]) { if (multi()) { acquire(sync_of(g)); } return 0; }
  }
  Core c;
  g[1] = 1;
  sync_of(g).owner = cur;
  return 1;
}
void __cxa_guard_release(long long* gg) {
  char* g = reinterpret_cast<char*>(gg);
  g[0] = 1;
  g[1] = 0;
  if (g_in_run) { Core c; Sync& s = sync_of(g); s.owner = -1; if (multi()) { release(s, true); } wake_on(g, INT_MAX); }
}
void __cxa_guard_abort(long long* gg) {
  char* g = reinterpret_cast<char*>(gg);
  g[1] = 0;
  if (g_in_run) { Core c; Sync& s = sync_of(g); s.owner = -1; wake_on(g, INT_MAX); }
}

// ---- futex (atomic wait, std::future)
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long const a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (g_in_run && n == SYS_futex) {
    int const op = static_cast<int>(b) & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      Core k;
      if (*reinterpret_cast<int*>(a) != static_cast<int>(c)) { errno = EAGAIN; return -1; }
      u64 to = 0;
      if (d) { auto* ts = reinterpret_cast<timespec const*>(d); to = op == FUTEX_WAIT ? static_cast<u64>(ts->tv_sec) * 1000000000ULL + static_cast<u64>(ts->tv_nsec) + 1 : until(ts); }
      block_on(reinterpret_cast<void*>(a), to);
      if (T[cur].timed_out) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { int w; { Core k; w = wake_on(reinterpret_cast<void*>(a), static_cast<int>(c)); } sync_point(); return w; }
  }
  long const r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = static_cast<int>(-r); return -1; }
  return r;
}

// ---- yielding, time
int sched_yield() {
  if (!on()) { return 0; }
  ++g_steps;
  g_vtime += 1000;
  if (g_steps > g_step_limit) { Core c; on_step_limit(); }
  if (nlive > 1) { Core c; if (cfg.mode == 2) { T[cur].prio = g_low_prio > 0 ? --g_low_prio : 0; } reschedule(false); }
  return 0;
}
static int do_sleep(u64 ns) {
  Core c;
  g_steps += 10;
  if (g_steps > g_step_limit) { on_step_limit(); }
  T[cur].st = T_SLEEP;
  T[cur].wake = now_ns() + ns;
  reschedule(true);
  return 0;
}
int nanosleep(timespec const* ts, timespec*) {
  if (!g_in_run) { return static_cast<int>(raw_syscall(SYS_nanosleep, reinterpret_cast<long>(ts), 0, 0, 0, 0, 0)); }
  return do_sleep(static_cast<u64>(ts->tv_sec) * 1000000000ULL + static_cast<u64>(ts->tv_nsec));
}
int clock_nanosleep(clockid_t, int fl, timespec const* ts, timespec*) {
  if (!g_in_run) { return static_cast<int>(raw_syscall(SYS_nanosleep, reinterpret_cast<long>(ts), 0, 0, 0, 0, 0)); }
  return do_sleep(fl & TIMER_ABSTIME ? until(ts) : static_cast<u64>(ts->tv_sec) * 1000000000ULL + static_cast<u64>(ts->tv_nsec));
}
int usleep(useconds_t us) { timespec ts{us / 1000000, (us % 1000000) * 1000L}; return nanosleep(&ts, nullptr); }
unsigned sleep(unsigned s) { timespec ts{s, 0}; nanosleep(&ts, nullptr); return 0; }
int clock_gettime(clockid_t id, timespec* ts) {
  if (!g_in_run) { long const r = raw_syscall(SYS_clock_gettime, id, reinterpret_cast<long>(ts), 0, 0, 0, 0); return r < 0 ? -1 : 0; }
  g_vtime += 1000;
  u64 const t = now_ns();
  ts->tv_sec = static_cast<time_t>(t / 1000000000ULL);
  ts->tv_nsec = static_cast<long>(t % 1000000000ULL);
  return 0;
}
int gettimeofday(timeval* tv, void*) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) { *t = ts.tv_sec; }
  return ts.tv_sec;
}
int get_nprocs() { if (g_in_run) { return static_cast<int>(cfg.hw); } REALF("get_nprocs", int (*)()); return f(); }
int get_nprocs_conf() { if (g_in_run) { return static_cast<int>(cfg.hw); } REALF("get_nprocs_conf", int (*)()); return f(); }
long sysconf(int n) {
  if (g_in_run && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) { return cfg.hw; }
  REALF("sysconf", long (*)(int));
  return f(n);
}

// ---- memory primitives
void* memcpy(void* d, void const* s, std::size_t n) {
  if (g_in_run && g_in_core == 0 && n != 0) { void* pc = __builtin_return_address(0); acc_range(const_cast<void*>(s), n, false, pc); acc_range(d, n, true, pc); }
  copyb(d, s, n);
  return d;
}
void* memmove(void* d, void const* s, std::size_t n) {
  if (g_in_run && g_in_core == 0 && n != 0) { void* pc = __builtin_return_address(0); acc_range(const_cast<void*>(s), n, false, pc); acc_range(d, n, true, pc); }
  if (reinterpret_cast<u64>(d) - reinterpret_cast<u64>(s) >= n) { copyb(d, s, n); }
  else {
    auto* dd = static_cast<u8*>(d) + n - 1;
    auto* ss = static_cast<u8 const*>(s) + n - 1;
    asm volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  }
  return d;
}
void* memset(void* d, int v, std::size_t n) {
  if (g_in_run && g_in_core == 0 && n != 0) { acc_range(d, n, true, __builtin_return_address(0)); }
  fillb(d, static_cast<u8>(v), n);
  return d;
}
int memcmp(void const* a, void const* b, std::size_t n) {
  if (g_in_run && g_in_core == 0 && n != 0) { void* pc = __builtin_return_address(0); acc_range(const_cast<void*>(a), n, false, pc); acc_range(const_cast<void*>(b), n, false, pc); }
  auto* x = static_cast<u8 const*>(a);
  auto* y = static_cast<u8 const*>(b);
  while (n >= 8) {
    u64 p, q;
    __builtin_memcpy(&p, x, 8);
    __builtin_memcpy(&q, y, 8);
    if (p != q) { break; }
    x += 8; y += 8; n -= 8;
  }
  for (; n; --n, ++x, ++y) { if (*x != *y) { return *x < *y ? -1 : 1; } }
  return 0;
}

// ---- tsan entry points
void __tsan_init() {}
void __tsan_func_entry(void*) { if (g_in_run && g_in_core == 0) { if (++g_steps > g_step_limit) { Core c; on_step_limit(); } } }
void __tsan_func_exit() {}
#define ACC(n) \
  void __tsan_read##n(void* p) { acc(p, n, false, __builtin_return_address(0)); } \
  void __tsan_write##n(void* p) { acc(p, n, true, __builtin_return_address(0)); } \
  void __tsan_unaligned_read##n(void* p) { acc(p, n, false, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##n(void* p) { acc(p, n, true, __builtin_return_address(0)); } \
  void __tsan_read##n##_pc(void* p, void* pc) { acc(p, n, false, pc); } \
  void __tsan_write##n##_pc(void* p, void* pc) { acc(p, n, true, pc); } \
  void __tsan_volatile_read##n(void* p) { acc(p, n, false, __builtin_return_address(0)); } \
  void __tsan_volatile_write##n(void* p) { acc(p, n, true, __builtin_return_address(0)); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, unsigned long n) { acc_range(p, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, unsigned long n) { acc_range(p, n, true, __builtin_return_address(0)); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) { acc(p, 8, true, __builtin_return_address(0)); } else { acc(p, 8, false, __builtin_return_address(0)); } }
void __tsan_vptr_read(void** p) { acc(p, 8, false, __builtin_return_address(0)); }

static void at_pre(void volatile const* p, unsigned n, bool write, int mo, bool rmw, void* pc) {
  if (!g_in_run || g_in_core) { return; }
  void* q = const_cast<void*>(p);
  mem_check(reinterpret_cast<u64>(q), n, write, pc);
  sync_point();
  if (nlive <= 1) { return; }
  Core c;
  if (g_races) {
    u64 const a = reinterpret_cast<u64>(q), w = a & ~7ULL;
    race_word(w, static_cast<u8>(((1U << n) - 1) << (a - w)), write, true, pc);
  }
  bool const acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  bool const rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  if ((!write || rmw) && acq) { acquire(sync_of(q)); }
  if (write && rel) { release(sync_of(q), rmw); }
}
#define ATOM(B, Ty) \
  Ty __tsan_atomic##B##_load(Ty volatile const* p, int mo) { at_pre(p, sizeof(Ty), false, mo, false, __builtin_return_address(0)); return *p; } \
  void __tsan_atomic##B##_store(Ty volatile* p, Ty v, int mo) { at_pre(p, sizeof(Ty), true, mo, false, __builtin_return_address(0)); *p = v; } \
  Ty __tsan_atomic##B##_exchange(Ty volatile* p, Ty v, int mo) { at_pre(p, sizeof(Ty), true, mo, true, __builtin_return_address(0)); Ty o = *p; *p = v; return o; } \
  Ty __tsan_atomic##B##_fetch_add(Ty volatile* p, Ty v, int mo) { at_pre(p, sizeof(Ty), true, mo, true, __builtin_return_address(0)); Ty o = *p; *p = static_cast<Ty>(o + v); return o; } \
  Ty __tsan_atomic##B##_fetch_sub(Ty volatile* p, Ty v, int mo) { at_pre(p, sizeof(Ty), true, mo, true, __builtin_return_address(0)); Ty o = *p; *p = static_cast<Ty>(o - v); return o; } \
  Ty __tsan_atomic##B##_fetch_and(Ty volatile* p, Ty v, int mo) { at_pre(p, sizeof(Ty), true, mo, true, __builtin_return_address(0)); Ty o = *p; *p = static_cast<Ty>(o & v); return o; } \
  Ty __tsan_atomic##B##_fetch_or(Ty volatile* p, Ty v, int mo) { at_pre(p, sizeof(Ty), true, mo, true, __builtin_return_address(0)); Ty o = *p; *p = static_cast<Ty>(o | v); return o; } \
  Ty __tsan_atomic##B##_fetch_xor(Ty volatile* p, Ty v, int mo) { at_pre(p, sizeof(Ty), true, mo, true, __builtin_return_address(0)); Ty o = *p; *p = static_cast<Ty>(o ^ v); return o; } \
  Ty __tsan_atomic##B##_fetch_nand(Ty volatile* p, Ty v, int mo) { at_pre(p, sizeof(Ty), true, mo, true, __builtin_return_address(0)); Ty o = *p; *p = static_cast<Ty>(~(o & v)); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(Ty volatile* p, Ty* e, Ty v, int mo, int) { at_pre(p, sizeof(Ty), true, mo, true, __builtin_return_address(0)); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(Ty volatile* p, Ty* e, Ty v, int mo, int) { at_pre(p, sizeof(Ty), true, mo, true, __builtin_return_address(0)); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  Ty __tsan_atomic##B##_compare_exchange_val(Ty volatile* p, Ty e, Ty v, int mo, int) { at_pre(p, sizeof(Ty), true, mo, true, __builtin_return_address(0)); Ty o = *p; if (o == e) { *p = v; } return o; }
ATOM(8, u8) ATOM(16, unsigned short) ATOM(32, u32) ATOM(64, u64)
void __tsan_atomic_thread_fence(int) {
  if (!on() || nlive <= 1) { return; }
  sync_point();
  Core c;
  static char fence;
  acquire(sync_of(&fence));
  release(sync_of(&fence), true);
}
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

// ================================================================ new/delete
#define PC __builtin_return_address(0)
static void* do_new(std::size_t n, std::size_t al, bool nothrow) {
  bool failed;
  void* p = heap_alloc(n, al, &failed);
  if (failed && !nothrow) { throw std::bad_alloc(); }
  return p;
}
void* operator new(std::size_t n) { return do_new(n, 16, false); }
void* operator new[](std::size_t n) { return do_new(n, 16, false); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return do_new(n, 16, true); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return do_new(n, 16, true); }
void* operator new(std::size_t n, std::align_val_t a) { return do_new(n, static_cast<std::size_t>(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return do_new(n, static_cast<std::size_t>(a), false); }
void operator delete(void* p) noexcept { heap_free(p, PC); }
void operator delete[](void* p) noexcept { heap_free(p, PC); }
void operator delete(void* p, std::size_t) noexcept { heap_free(p, PC); }
void operator delete[](void* p, std::size_t) noexcept { heap_free(p, PC); }
void operator delete(void* p, std::nothrow_t const&) noexcept { heap_free(p, PC); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { heap_free(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { heap_free(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { heap_free(p, PC); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { heap_free(p, PC); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { heap_free(p, PC); }
