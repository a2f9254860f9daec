// Choices, reporting, incarnations, driver. Compiled without instrumentation.
#include "internal.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <execinfo.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sched.h>
#include <unistd.h>

namespace sim {
Shared* G = nullptr;
bool g_in_run = false;
int g_in_core = 0;
static bool g_failstop_ok = false;

char const* const FAULT_NAME[F_COUNT] = {
    "preemption", "thread-create-failure", "hw-concurrency-zero", "hw-concurrency-odd", "starved-task",
    "allocation-failure", "heap-layout", "heap-pattern",
    "open-error", "read-error", "short-read", "read-eintr", "write-error", "disk-full", "short-write",
    "write-eintr", "close-error", "stat-error", "mmap-error", "readdir-error", "directory-order", "rename-error",
    "missing-file", "crash", "lost-write", "torn-write", "clock-jump", "truncated-input",
    "producer-throw", "consumer-abandon", "callback-throw", "message-duplicate", "message-reorder", "message-drop",
    "message-delay", "train-delay", "train-stall", "malformed-input", "tie", "restart"};

static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 rng_next() {
  auto* s = G->rng;
  u64 const s0 = s[0];
  u64 s1 = s[1];
  u64 const r = s0 + s1;
  s1 ^= s0;
  s[0] = rotl(s0, 24) ^ s1 ^ (s1 << 16);
  s[1] = rotl(s1, 37);
  return r;
}

u32 choose(u32 n) {
  if (n <= 1) { return 0; }
  if (G == nullptr || !g_in_run) { return 0; }
  u32 v;
  if (G->replay) {
    v = G->pos < G->nseq ? G->seq[G->pos] % n : 0;
    ++G->pos;
  } else {
    v = static_cast<u32>((static_cast<unsigned __int128>(rng_next()) * n) >> 64);
    if (G->nseq < MAX_CHOICES) { G->seq[G->nseq++] = v; } else { G->overflow = 1; v = 0; }
    ++G->pos;
  }
  G->trace_hash = mix(G->trace_hash, (static_cast<u64>(n) << 32) | v);
  return v;
}
bool chance(u32 num, u32 den) { return num != 0 && choose(den) >= den - num; }

void fault(Fault f, u64 n) { G->faults[f] += n; }
u64 fault_count(Fault f) { return G->faults[f]; }
u64 faults_total() {
  u64 t = 0;
  for (u32 f = 0; f < F_COUNT; ++f) {
    if (f == F_PREEMPT || f == F_STARVED_TASK || f == F_LAYOUT || f == F_HEAP_PATTERN || f == F_DIR_ORDER || f == F_HW_CONCURRENCY_ODD || f == F_READ_SHORT || f == F_READ_EINTR || f == F_WRITE_SHORT || f == F_WRITE_EINTR) { continue; }
    t += G->faults[f];
  }
  return t;
}
void state(u64 h) { if (G->nstates < MAX_STATES) { G->states[G->nstates++] = h; } G->trace_hash = mix(G->trace_hash, h); }
void event(u64 h) { G->trace_hash = mix(G->trace_hash, h); }
void nontrivial() { G->nontrivial = 1; }
void probe(u32 p, u64 n) { G->probes[p] += n; }
bool G_note() { return G->want_notes != 0; }
void note(char const* fmt, ...) {
  if (!G->want_notes) { return; }
  Core c;
  va_list ap;
  va_start(ap, fmt);
  if (G->nnotes + 400 < NOTE_CAP) {
    int const w = vsnprintf(G->notes + G->nnotes, 380, fmt, ap);
    G->nnotes += static_cast<u32>(w < 0 ? 0 : (w > 379 ? 379 : w));
    G->notes[G->nnotes++] = '\n';
    G->notes[G->nnotes] = 0;
  }
  va_end(ap);
}
u64 hash_bytes(void const* p, std::size_t n, u64 h) {
  auto const* b = static_cast<unsigned char const*>(p);
  for (std::size_t i = 0; i < n; ++i) { h = (h ^ b[i]) * 1099511628211ULL; }
  return h;
}
void finish(Status s) {
  ++g_in_core;
  G->status = s;
  sched_stats();
  _exit(s == S_CRASHSIM ? 77 : 0);
}
void violation(std::string const& sig, char const* fmt, ...) {
  ++g_in_core;
  if (!g_in_run) { va_list ap; va_start(ap, fmt); fprintf(stderr, "violation outside run: %s: ", sig.c_str()); vfprintf(stderr, fmt, ap); fputc('\n', stderr); _exit(3); }
  if (G->status == S_NONE) {
    snprintf(G->sig, sizeof(G->sig), "%s", sig.c_str());
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(G->detail, sizeof(G->detail), fmt, ap);
    va_end(ap);
    G->trace_hash = hash_bytes(G->sig, strlen(G->sig), G->trace_hash);
  }
  finish(S_VIOLATION);
}
void discard(char const* why) {
  if (getenv("SIM_WHY")) { fprintf(stderr, "discard: %s\n", why); }
  snprintf(G->detail, sizeof(G->detail), "%s", why);
  finish(S_DISCARD);
}
void allow_failstop(bool b) { g_failstop_ok = b; }

static void on_terminate() {
  ++g_in_core;
  if (!g_in_run) { fprintf(stderr, "terminate outside a run\n"); _exit(3); }
  char what[300] = "no exception";
  if (auto e = std::current_exception()) {
    try { std::rethrow_exception(e); } catch (std::exception const& x) { snprintf(what, sizeof(what), "%s", x.what()); } catch (...) { snprintf(what, sizeof(what), "non-std exception"); }
  }
  if (g_failstop_ok && faults_total() > 0) { snprintf(G->detail, sizeof(G->detail), "terminate: %s", what); finish(S_FAILSTOP); }
  violation("process-terminated", "std::terminate called: %s", what);
}
}  // namespace sim
// An exception leaving a noexcept function. The library's version hands an
// invalid exception to the handler in some frames.
extern "C" void __cxa_call_terminate(void*) { std::terminate(); }
namespace sim {
static void on_signal(int s, siginfo_t* si, void*) {
  ++g_in_core;
  if (!g_in_run) { fprintf(stderr, "signal %d outside a run\n", s); _exit(3); }
  char bt[2000];
  bt[0] = 0;
  void* fr[24];
  int const n = backtrace(fr, 24);
  char* p = bt;
  for (int i = 2; i < n && p - bt < 1800; ++i) {
    Dl_info di{};
    dladdr(fr[i], &di);
    p += snprintf(p, 120, " %s+%lx", di.dli_sname ? di.dli_sname : "exe", static_cast<unsigned long>(reinterpret_cast<char*>(fr[i]) - static_cast<char*>(di.dli_sname ? di.dli_saddr : di.dli_fbase)));
  }
  if (s == SIGALRM) { violation("hang", "the run did not finish within its wall-clock limit (last resort);%s", bt); }
  char const* nm = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : "signal";
  if (s == SIGABRT && g_failstop_ok && faults_total() > 0) { finish(S_FAILSTOP); }
  violation(std::string{"process-killed-by-"} + nm, "%s at address %p;%s", nm, si->si_addr, bt);
}

static void install_handlers() {
  std::set_terminate(on_terminate);
  static char alt[1 << 16];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof(alt);
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) { sigaction(s, &sa, nullptr); }
}

// ------------------------------------------------------------ incarnations
Exit incarnation(std::function<std::string()> const& fn) {
  Core c;
  G->out_len = 0;
  u64 const vt = G->vtime;
  pid_t const pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    G->in_incarnation = 1;
    sched_child();
    g_in_core = 0;
    std::string s = fn();
    ++g_in_core;
    if (s.size() > OUT_CAP) { violation("harness-output-too-large", "%zu", s.size()); }
    memcpy(G->out, s.data(), s.size());
    G->out_len = static_cast<u32>(s.size());
    sched_stats();
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  G->in_incarnation = 0;
  clock_advance(G->vtime - vt);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { G->status = S_NONE; return {Exit::CRASHED, {}}; }
  if (G->status == S_FAILSTOP) { G->status = S_NONE; return {Exit::FAILSTOP, {}}; }
  if (G->status != S_NONE) { _exit(0); }
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { violation("process-died", "incarnation ended with status %d", st); }
  return {Exit::OK, std::string(G->out, G->out_len)};
}

// ------------------------------------------------------------ driver
static std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
void register_scenario(Scenario const& s) { scenarios().push_back(s); }

static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

static u64 splitmix(u64& x) { u64 z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }

static void reset_shared(u64 seed, bool replay) {
  G->replay = replay; G->pos = 0; G->overflow = 0;
  if (!replay) { G->nseq = 0; }
  u64 s = seed;
  G->rng[0] = splitmix(s); G->rng[1] = splitmix(s) | 1;
  G->status = S_NONE; G->nontrivial = 0; G->sig[0] = 0; G->detail[0] = 0;
  G->trace_hash = 0x1234; G->sched_hash = 0; G->steps = G->switches = G->tasks = G->vtime = G->allocs = G->disk_ops = 0;
  memset(G->faults, 0, sizeof(G->faults)); memset(G->probes, 0, sizeof(G->probes));
  G->nstates = 0; G->nnotes = 0; G->notes[0] = 0; G->out_len = 0; G->in_incarnation = 0;
}

static unsigned g_wall_limit = 60;
static void run_once(Scenario const& sc) {
  disk_reset();
  pid_t const pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    install_handlers();
    g_in_run = true;
    heap_begin_run();
    itimerval it{};
    it.it_value.tv_sec = g_wall_limit;
    setitimer(ITIMER_REAL, &it, nullptr);
    run_root(sc.run);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (G->status == S_NONE || !WIFEXITED(st)) {
    if (G->status == S_NONE) { snprintf(G->sig, sizeof(G->sig), "process-died"); snprintf(G->detail, sizeof(G->detail), "run process ended with status %d", st); }
    G->status = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? S_ERROR : S_VIOLATION;
  }
}

static Shared* map_shared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap shared"); exit(2); }
  return static_cast<Shared*>(p);
}

struct Totals {
  u64 runs, ok, disc, failstop, nontriv, known, steps, switches, tasks, vtime, allocs, disk_ops, choices;
  u64 faults[F_COUNT], fault_runs[F_COUNT], probes[P_COUNT];
  u64 per_scenario[32];
  u32 known_sig[64];
  u32 nsched, nstates, ntrace;
  u32 sat;
};
constexpr u32 SET_CAP = 1U << 20;
struct WorkerShm {
  Totals t;
  u32 violated;
  u64 viol_seed;
  u32 viol_sc;
  u32 error;
  char error_text[400];
  u64 sched_set[SET_CAP];
  u64 state_set[SET_CAP];
  u64 trace_set[SET_CAP];
  u64 sample_seed[2];
  u32 sample_sc[2];
};
static bool set_add(u64* set, u32& n, u64 h) {
  if (h == 0) { h = 1; }
  u32 i = static_cast<u32>(h >> 20) & (SET_CAP - 1);
  for (u32 k = 0; k < 64; ++k, i = (i + 1) & (SET_CAP - 1)) {
    if (set[i] == h) { return false; }
    if (set[i] == 0) { if (n > SET_CAP * 3 / 4) { return false; } set[i] = h; ++n; return true; }
  }
  return false;
}

struct Opts {
  std::string property, out, replay, known, replay_out, scenario;
  u64 seed = 1, runs = 1000;
  double secs = 60, min_secs = 45;
  unsigned jobs = 8, twice = 40;
  bool verbose = false;
};

struct KnownSig { std::string sig; };

static void merge(Totals& t, u32 sci, WorkerShm* w, u64 seed) {
  ++t.runs;
  ++t.per_scenario[sci % 32];
  if (G->status == S_OK) { ++t.ok; }
  if (G->status == S_DISCARD) { ++t.disc; }
  if (G->status == S_FAILSTOP) { ++t.failstop; }
  if (G->nontrivial && G->status != S_DISCARD) {
    ++t.nontriv;
    set_add(w->trace_set, t.ntrace, mix(G->trace_hash, G->sched_hash));
    if (G->status == S_OK && (t.nontriv & (t.nontriv - 1)) == 0) { w->sample_seed[t.nontriv % 2] = seed; w->sample_sc[t.nontriv % 2] = sci; }
  }
  t.steps += G->steps; t.switches += G->switches; t.tasks += G->tasks; t.vtime += G->vtime; t.allocs += G->allocs; t.disk_ops += G->disk_ops; t.choices += G->pos;
  for (u32 f = 0; f < F_COUNT; ++f) { t.faults[f] += G->faults[f]; t.fault_runs[f] += G->faults[f] != 0; }
  for (u32 f = 0; f < P_COUNT; ++f) { t.probes[f] += G->probes[f]; }
  if (G->sched_hash) { set_add(w->sched_set, t.nsched, mix(G->sched_hash, sci)); }
  for (u32 i = 0; i < G->nstates; ++i) { set_add(w->state_set, t.nstates, G->states[i]); }
}

static std::string json_escape(std::string const& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (static_cast<unsigned char>(c) < 32) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
    else if (static_cast<unsigned char>(c) > 126) { o += '?'; }
    else { o += c; }
  }
  return o;
}

struct Found { std::vector<u32> seq; std::string sig, detail, notes; u64 hash; u64 seed; u32 sc; };

static bool replay_seq(Scenario const& sc, std::vector<u32> const& seq, bool notes, Found& out) {
  reset_shared(0, true);
  G->want_notes = notes;
  G->nseq = static_cast<u32>(seq.size());
  if (!seq.empty()) { memcpy(G->seq, seq.data(), seq.size() * sizeof(u32)); }
  run_once(sc);
  out.sig = G->sig; out.detail = G->detail; out.hash = G->trace_hash; out.notes = std::string(G->notes, G->nnotes);
  return G->status == S_VIOLATION;
}

static void minimise(Scenario const& sc, Found& f, double budget) {
  double const end = wall() + budget;
  std::string const want = f.sig;
  std::vector<u32> best = f.seq;
  auto attempt = [&](std::vector<u32> const& cand) {
    if (wall() > end) { return false; }
    Found t;
    if (replay_seq(sc, cand, false, t) && t.sig == want) {
      // keep only what the run consumed, without trailing zeros
      best = cand;
      if (G->pos < best.size()) { best.resize(G->pos); }
      while (!best.empty() && best.back() == 0) { best.pop_back(); }
      return true;
    }
    return false;
  };
  attempt(best);
  bool progress = true;
  while (progress && wall() < end) {
    progress = false;
    for (std::size_t chunk = best.size(); chunk >= 1 && wall() < end; chunk /= 2) {
      for (std::size_t i = 0; i < best.size() && wall() < end;) {
        auto n = std::min(chunk, best.size() - i);
        auto c = best;
        c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + n));
        if (attempt(c)) { progress = true; continue; }
        bool nz = false;
        for (std::size_t k = i; k < i + n; ++k) { nz |= best[k] != 0; }
        if (nz) {
          c = best;
          for (std::size_t k = i; k < i + n; ++k) { c[k] = 0; }
          if (attempt(c)) { progress = true; continue; }
        }
        i += n;
      }
      if (chunk == 1) { break; }
    }
    for (std::size_t i = 0; i < best.size() && wall() < end; ++i) {
      u32 lo = 0, hi = best[i];
      while (lo + 1 < hi && wall() < end) {
        u32 const m = lo + (hi - lo) / 2;
        auto c = best;
        c[i] = m;
        if (attempt(c)) { progress = true; if (i >= best.size()) { break; } hi = best[i]; } else { lo = m; }
      }
      if (i < best.size() && best[i] > 0) { auto c = best; c[i] = best[i] - 1; if (attempt(c)) { progress = true; } }
    }
  }
  f.seq = best;
}

static void write_replay(Opts const& o, Scenario const& sc, Found const& f) {
  FILE* r = fopen(o.replay_out.c_str(), "w");
  if (!r) { perror("replay"); exit(2); }
  fprintf(r, "property %s\nscenario %s\nsignature %s\nhash %016lx\nseed %lu\nchoices %zu\n", sc.property, sc.name, f.sig.c_str(), static_cast<unsigned long>(f.hash), static_cast<unsigned long>(f.seed), f.seq.size());
  for (std::size_t i = 0; i < f.seq.size(); ++i) { fprintf(r, "%u%c", f.seq[i], i % 20 == 19 ? '\n' : ' '); }
  fprintf(r, "\ndetail\n%s\n\ntrace\n%s\n", f.detail.c_str(), f.notes.c_str());
  fclose(r);
}

static int do_replay(Opts const& o) {
  FILE* r = fopen(o.replay.c_str(), "r");
  if (!r) { perror("replay"); return 2; }
  char prop[64], scn[128], sig[200];
  unsigned long hash, seed;
  std::size_t n;
  if (fscanf(r, "property %63s\nscenario %127s\nsignature %199[^\n]\nhash %lx\nseed %lu\nchoices %zu\n", prop, scn, sig, &hash, &seed, &n) != 6) { fprintf(stderr, "bad replay file\n"); return 2; }
  Found f;
  f.seq.resize(n);
  for (auto& v : f.seq) { if (fscanf(r, "%u", &v) != 1) { return 2; } }
  fclose(r);
  G = map_shared();
  for (auto const& sc : scenarios()) {
    if (std::string{sc.property} == prop && std::string{sc.name} == scn) {
      // The same preparation as in the search: what one scenario prepares may shape what another one sees.
      for (auto const& other : scenarios()) {
        if (std::string{other.property} == prop && other.prepare) { other.prepare(); }
      }
      heap_driver();
      Found t;
      bool const v = replay_seq(sc, f.seq, true, t);
      printf("%s\nreplay: %s signature=%s hash=%016lx expected signature=%s hash=%016lx\n%s\n", t.notes.c_str(), v ? "violation" : "no violation", t.sig.c_str(), static_cast<unsigned long>(t.hash), sig, hash, t.detail.c_str());
      return v && t.sig == sig && t.hash == hash ? 1 : v ? 4 : 0;
    }
  }
  fprintf(stderr, "unknown scenario\n");
  return 2;
}

int driver_main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && getenv("SIM_NOASLR") == nullptr) {
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
    setenv("SIM_NOASLR", "1", 1);
    execv("/proc/self/exe", argv);
  }
  Opts o;
  for (int i = 1; i < argc; ++i) {
    std::string const a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--property") { o.property = next(); }
    else if (a == "--scenario") { o.scenario = next(); }
    else if (a == "--seed") { o.seed = strtoull(next().c_str(), nullptr, 10); }
    else if (a == "--runs") { o.runs = strtoull(next().c_str(), nullptr, 10); }
    else if (a == "--secs") { o.secs = atof(next().c_str()); }
    else if (a == "--min-secs") { o.min_secs = atof(next().c_str()); }
    else if (a == "--jobs") { o.jobs = static_cast<unsigned>(atoi(next().c_str())); }
    else if (a == "--twice") { o.twice = static_cast<unsigned>(atoi(next().c_str())); }
    else if (a == "--out") { o.out = next(); }
    else if (a == "--known") { o.known = next(); }
    else if (a == "--replay") { o.replay = next(); }
    else if (a == "--replay-out") { o.replay_out = next(); }
    else if (a == "-v") { o.verbose = true; }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  if (!o.replay.empty()) { return do_replay(o); }

  std::vector<Scenario> scs;
  unsigned wsum = 0;
  for (auto const& s : scenarios()) {
    if (o.property == s.property && (o.scenario.empty() || o.scenario == s.name)) { scs.push_back(s); wsum += s.weight; }
  }
  if (scs.empty()) { fprintf(stderr, "no scenario for %s\n", o.property.c_str()); return 2; }
  std::vector<std::string> known;
  if (!o.known.empty()) {
    if (FILE* k = fopen(o.known.c_str(), "r")) {
      char line[400];
      while (fgets(line, sizeof(line), k)) { std::string s = line; while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) { s.pop_back(); } if (!s.empty()) { known.push_back(s); } }
      fclose(k);
    }
  }
  for (auto const& s : scs) { if (s.prepare) { s.prepare(); } }

  heap_driver();
  double const t0 = wall();
  auto* ws = static_cast<WorkerShm*>(mmap(nullptr, sizeof(WorkerShm) * o.jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  auto* stop = static_cast<volatile u32*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<pid_t> pids;
  fflush(nullptr);
  for (unsigned w = 0; w < o.jobs; ++w) {
    pid_t const pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      cpu_set_t cs;
      CPU_ZERO(&cs);
      CPU_SET(w % static_cast<unsigned>(sysconf(_SC_NPROCESSORS_CONF)), &cs);
      sched_setaffinity(0, sizeof(cs), &cs);
      G = map_shared();
      auto* me = ws + w;
      u32 twice_done = 0;
      u64 errors = 0;
      for (u64 r = w; r < o.runs && !*stop && wall() - t0 < o.secs; r += o.jobs) {
        u64 x = o.seed * 0x9e3779b97f4a7c15ULL + r * 0xd1342543de82ef95ULL + hash_str(o.property);
        u64 const seed = splitmix(x);
        u32 pickv = static_cast<u32>((seed >> 17) % wsum), sci = 0;
        while (pickv >= scs[sci].weight) { pickv -= scs[sci].weight; ++sci; }
        reset_shared(seed, false);
        G->want_notes = 0;
        run_once(scs[sci]);
        if (G->status == S_ERROR) { if (++errors > 3) { me->error = 1; snprintf(me->error_text, sizeof(me->error_text), "run process killed (seed %lu)", static_cast<unsigned long>(seed)); break; } continue; }
        merge(me->t, sci, me, seed);
        if (G->status == S_VIOLATION) {
          bool is_known = false;
          for (u32 k = 0; k < known.size() && k < 64; ++k) { if (known[k] == G->sig) { is_known = true; ++me->t.known_sig[k]; ++me->t.known; } }
          if (!is_known) {
            // Only what the same seed does again is reported.
            std::string const sig = G->sig;
            u64 const h = G->trace_hash;
            reset_shared(seed, false);
            run_once(scs[sci]);
            if (G->status == S_VIOLATION && sig == G->sig && h == G->trace_hash) { me->violated = 1; me->viol_seed = seed; me->viol_sc = sci; *stop = 1; break; }
            if (!me->error) { me->error = 1; snprintf(me->error_text, sizeof(me->error_text), "a violation did not reproduce from its seed: scenario %s seed %lu '%.80s' / '%.80s'", scs[sci].name, static_cast<unsigned long>(seed), sig.c_str(), G->sig); }
          }
        } else if (twice_done < o.twice) {  // determinism: same seed, same execution
          ++twice_done;
          u64 const h = G->trace_hash, st = G->steps, sh = G->sched_hash;
          u32 const stt = G->status;
          reset_shared(seed, false);
          run_once(scs[sci]);
          if (h != G->trace_hash || st != G->steps || stt != G->status || sh != G->sched_hash) {
            me->error = 1;
            snprintf(me->error_text, sizeof(me->error_text), "nondeterministic run: scenario %s seed %lu hash %lx/%lx steps %lu/%lu status %u/%u %.100s", scs[sci].name, static_cast<unsigned long>(seed), static_cast<unsigned long>(h), static_cast<unsigned long>(G->trace_hash), static_cast<unsigned long>(st), static_cast<unsigned long>(G->steps), stt, G->status, G->detail);
            break;
          }
        }
      }
      _exit(0);
    }
    pids.push_back(pid);
  }
  bool worker_err = false;
  for (auto p : pids) { int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { worker_err = true; } }
  double const t1 = wall();

  Totals T{};
  std::vector<u64> sset, stset;
  static WorkerShm agg;  // only the sets
  for (unsigned w = 0; w < o.jobs; ++w) {
    auto const& t = ws[w].t;
    T.runs += t.runs; T.ok += t.ok; T.disc += t.disc; T.failstop += t.failstop; T.nontriv += t.nontriv; T.known += t.known; T.steps += t.steps; T.switches += t.switches; T.tasks += t.tasks; T.vtime += t.vtime; T.allocs += t.allocs; T.disk_ops += t.disk_ops; T.choices += t.choices;
    for (u32 f = 0; f < F_COUNT; ++f) { T.faults[f] += t.faults[f]; T.fault_runs[f] += t.fault_runs[f]; }
    for (u32 f = 0; f < P_COUNT; ++f) { T.probes[f] += t.probes[f]; }
    for (u32 f = 0; f < 32; ++f) { T.per_scenario[f] += t.per_scenario[f]; }
    for (u32 f = 0; f < 64; ++f) { T.known_sig[f] += t.known_sig[f]; }
    for (u32 i = 0; i < SET_CAP; ++i) { if (ws[w].sched_set[i]) { set_add(agg.sched_set, T.nsched, ws[w].sched_set[i]); } if (ws[w].state_set[i]) { set_add(agg.state_set, T.nstates, ws[w].state_set[i]); } if (ws[w].trace_set[i]) { set_add(agg.trace_set, T.ntrace, ws[w].trace_set[i]); } }
  }

  int rc = 0;
  std::string err;
  Found f;
  bool have = false;
  for (unsigned w = 0; w < o.jobs; ++w) {
    if (ws[w].violated && !have) {
      have = true;
      G = map_shared();
      f.seed = ws[w].viol_seed;
      f.sc = ws[w].viol_sc;
    }
    if (ws[w].error && err.empty()) { err = ws[w].error_text; }
  }
  if (worker_err && err.empty()) { err = "a worker process died"; }
  double min_secs = 0;
  if (have) {
    auto const& sc = scs[f.sc];
    // Gate: same seed again, twice, then as a recorded choice sequence.
    u64 h[2];
    std::string sg[2];
    for (int k = 0; k < 2; ++k) {
      reset_shared(f.seed, false);
      run_once(sc);
      h[k] = G->trace_hash;
      sg[k] = G->status == S_VIOLATION ? G->sig : "";
    }
    f.seq.assign(G->seq, G->seq + G->nseq);
    f.sig = sg[1];
    if (h[0] != h[1] || sg[0] != sg[1] || sg[0].empty()) {
      err = "violation did not reproduce from its seed: '" + sg[0] + "' / '" + sg[1] + "' seed " + std::to_string(f.seed);
      have = false;
    } else {
      double const m0 = wall();
      minimise(sc, f, o.min_secs);
      min_secs = wall() - m0;
      Found a, b;
      bool const va = replay_seq(sc, f.seq, true, a), vb = replay_seq(sc, f.seq, true, b);
      if (!va || !vb || a.hash != b.hash || a.sig != f.sig) { err = "minimised replay not stable"; have = false; }
      else {
        f.detail = a.detail; f.notes = a.notes; f.hash = a.hash;
        write_replay(o, sc, f);
        rc = 1;
      }
    }
  }
  if (!err.empty() && !have) { fprintf(stderr, "simulator error: %s\n", err.c_str()); rc = 2; }

  if (!o.out.empty()) {
    FILE* j = fopen(o.out.c_str(), "w");
    if (!j) { perror("out"); return 2; }
    fprintf(j, "{\"property\":\"%s\",\"seed\":%lu,\"runs\":%lu,\"ok\":%lu,\"discarded\":%lu,\"failstop\":%lu,\"nontrivial\":%lu,\"known\":%lu,\"steps\":%lu,\"switches\":%lu,\"tasks\":%lu,\"vtime_ns\":%lu,\"allocs\":%lu,\"disk_ops\":%lu,\"choices\":%lu,\"distinct_schedules\":%u,\"distinct_states\":%u,\"distinct_nontrivial\":%u,\"wall_s\":%.3f,\"min_s\":%.3f,\"jobs\":%u,\"det_reruns\":%u",
            o.property.c_str(), o.seed, T.runs, T.ok, T.disc, T.failstop, T.nontriv, T.known, T.steps, T.switches, T.tasks, T.vtime, T.allocs, T.disk_ops, T.choices, T.nsched, T.nstates, T.ntrace, t1 - t0, min_secs, o.jobs, o.twice * o.jobs);
    fprintf(j, ",\"faults\":{");
    bool first = true;
    for (u32 k = 0; k < F_COUNT; ++k) { if (T.faults[k]) { fprintf(j, "%s\"%s\":{\"injected\":%lu,\"runs\":%lu}", first ? "" : ",", FAULT_NAME[k], T.faults[k], T.fault_runs[k]); first = false; } }
    fprintf(j, "},\"probes\":[");
    for (u32 k = 0; k < P_COUNT; ++k) { fprintf(j, "%s%lu", k ? "," : "", T.probes[k]); }
    fprintf(j, "],\"scenarios\":{");
    for (u32 k = 0; k < scs.size(); ++k) { fprintf(j, "%s\"%s\":%lu", k ? "," : "", scs[k].name, T.per_scenario[k]); }
    fprintf(j, "},\"known_sigs\":{");
    first = true;
    for (u32 k = 0; k < known.size() && k < 64; ++k) { fprintf(j, "%s\"%s\":%u", first ? "" : ",", json_escape(known[k]).c_str(), T.known_sig[k]); first = false; }
    fprintf(j, "},\"samples\":[");
    u32 ns = 0;
    for (unsigned w = 0; w < o.jobs && ns < 4; ++w) {
      if (ws[w].sample_seed[0] == 0) { continue; }
      if (G == nullptr) { G = map_shared(); }
      reset_shared(ws[w].sample_seed[0], false);
      G->want_notes = 1;
      run_once(scs[ws[w].sample_sc[0]]);
      std::string nt(G->notes, G->nnotes);
      if (nt.size() > 900) { nt = nt.substr(0, 900) + " ..."; }
      fprintf(j, "%s{\"scenario\":\"%s\",\"seed\":%lu,\"choices\":%u,\"steps\":%lu,\"switches\":%lu,\"trace\":\"%s\"}", ns++ ? "," : "", scs[ws[w].sample_sc[0]].name, ws[w].sample_seed[0], G->pos, G->steps, G->switches, json_escape(nt).c_str());
    }
    fprintf(j, "],\"rc\":%d,\"error\":\"%s\"", rc, json_escape(err).c_str());
    if (have) { fprintf(j, ",\"violation\":{\"signature\":\"%s\",\"detail\":\"%s\",\"scenario\":\"%s\",\"seed\":%lu,\"choices\":%zu}", json_escape(f.sig).c_str(), json_escape(f.detail).c_str(), scs[f.sc].name, f.seed, f.seq.size()); }
    fprintf(j, "}\n");
    fclose(j);
  }
  if (o.verbose || rc != 0) { printf("%s: runs=%lu ok=%lu disc=%lu failstop=%lu nontriv=%lu known=%lu sched=%u states=%u %.1fs\n", o.property.c_str(), T.runs, T.ok, T.disc, T.failstop, T.nontriv, T.known, T.nsched, T.nstates, t1 - t0); }
  if (have) { printf("signature: %s\n%s\n", f.sig.c_str(), f.detail.c_str()); }
  return rc;
}
}  // namespace sim

int main(int argc, char** argv) { return sim::driver_main(argc, argv); }
