// Lazy sequences as cooperative tasks: random producer programs, consumers that
// interleave, move, hand over and abandon them, failures inside producers.
#include <deque>
#include <list>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "soro/utls/coroutine/collect.h"
#include "soro/utls/coroutine/coro_map.h"
#include "soro/utls/coroutine/generator.h"
#include "soro/utls/coroutine/iterator.h"
#include "soro/utls/coroutine/recursive_generator.h"

#include "core.h"

using namespace sim;
using namespace soro::utls;

namespace {
long g_tok_live = 0;
long g_tok_bad = 0;
// A resource held by a producer; counts every acquisition and release.
struct tok {
  tok() : st(0x600df00d) { __atomic_fetch_add(&g_tok_live, 1, __ATOMIC_RELAXED); }
  tok(tok const&) : st(0x600df00d) { __atomic_fetch_add(&g_tok_live, 1, __ATOMIC_RELAXED); }
  tok& operator=(tok const&) = default;
  ~tok() {
    if (st != 0x600df00d) { __atomic_fetch_add(&g_tok_bad, 1, __ATOMIC_RELAXED); }
    st = 0xdead;
    __atomic_fetch_sub(&g_tok_live, 1, __ATOMIC_RELAXED);
  }
  volatile unsigned st;
};
struct prog_error { int code; };

enum ik { V_L, V_R, NEST_R, NEST_L, TRY_NEST, FAIL };
struct prog;
struct item { ik k; int v; std::shared_ptr<prog> sub; };
struct prog { std::vector<item> items; bool has_nest = false; };

struct ref { std::vector<int> vals; bool fails = false; int code = 0; };
void flatten(prog const& p, ref& r) {
  for (auto const& i : p.items) {
    switch (i.k) {
      case V_L: case V_R: r.vals.push_back(i.v); break;
      case FAIL: r.fails = true; r.code = i.v; return;
      case NEST_R: case NEST_L: flatten(*i.sub, r); if (r.fails) { return; } break;
      case TRY_NEST: flatten(*i.sub, r); if (r.fails) { r.fails = false; r.vals.push_back(-r.code); } break;
    }
  }
}
int g_next = 0;
prog draw_prog(int depth, bool nest, u32 fail_w) {
  prog p;
  u32 n = choose(depth == 0 ? 9 : 5);
  if (depth == 0 && chance(1, 24)) { n = 200 + choose(200); nest = false; }
  for (u32 i = 0; i < n; ++i) {
    u32 const c = choose(nest && depth < 4 ? 8 : 4);
    if (fail_w && chance(fail_w, 32)) { p.items.push_back({FAIL, 1000 + g_next++, {}}); continue; }
    if (c < 2) { p.items.push_back({V_L, ++g_next, {}}); }
    else if (c < 4) { p.items.push_back({V_R, ++g_next, {}}); }
    else { p.has_nest = true; p.items.push_back({c == 4 || c == 7 ? NEST_R : c == 5 ? NEST_L : TRY_NEST, 0, std::make_shared<prog>(draw_prog(depth + 1, true, fail_w))}); }
  }
  // a long chain of sequences in sequences
  if (depth == 0 && nest && chance(1, 12)) {
    for (u32 k = 1 + choose(30); k > 0; --k) {
      prog q;
      if (choose(2)) { q.items.push_back({V_L, ++g_next, {}}); }
      q.items.push_back({choose(2) ? NEST_R : NEST_L, 0, std::make_shared<prog>(std::move(p))});
      if (choose(2)) { q.items.push_back({V_R, ++g_next, {}}); }
      q.has_nest = true;
      p = std::move(q);
    }
  }
  return p;
}

// ---------------------------------------------------------------- producers
std::string str_of(int v) { return "element number " + std::to_string(v) + " of the sequence"; }
int int_of(std::string const& s) { return s.size() > 15 ? atoi(s.c_str() + 15) : -999; }
[[noreturn]] void fail(int code) { fault(F_PRODUCER_THROW); throw prog_error{code}; }

template <typename T>
generator<T> gen(prog const& p) {
  tok t;
  std::vector<int> local(3, 7);
  for (auto const& i : p.items) {
    tok u;
    if (i.k == FAIL) { fail(i.v); }
    if constexpr (std::is_same_v<std::remove_const_t<T>, std::string>) {
      if (i.k == V_L) { T s = str_of(i.v); co_yield s; }
      else { co_yield str_of(i.v); }
    } else {
      if (i.k == V_L) { T v = i.v; co_yield v; }
      else { co_yield int{i.v}; }
    }
  }
}
generator<int&> gen_ref(prog const& p, std::vector<int>& store) {
  tok t;
  std::size_t n = 0;
  for (auto const& i : p.items) {
    tok u;
    if (i.k == FAIL) { fail(i.v); }
    co_yield store[n++];
  }
}
struct it_val {
  prog const& p;
  coro_it<int> begin() { tok t; for (auto const& i : p.items) { tok u; if (i.k == FAIL) { fail(i.v); } if (i.k == V_L) { int v = i.v; co_yield v; } else { co_yield int{i.v}; } } }
  coro_it<int> end() { return {}; }
};
struct it_cref {
  prog const& p;
  coro_it<int const&> begin() { tok t; for (auto const& i : p.items) { tok u; if (i.k == FAIL) { fail(i.v); } co_yield i.v; } }
  coro_it<int const&> end() { return {}; }
};
struct it_ref {
  prog const& p;
  std::vector<int>& store;
  coro_it<int&> begin() { tok t; std::size_t n = 0; for (auto const& i : p.items) { tok u; if (i.k == FAIL) { fail(i.v); } co_yield store[n++]; } }
  coro_it<int&> end() { return {}; }
};
template <typename T>
recursive_generator<T> rec(prog const& p) {
  tok t;
  for (auto const& i : p.items) {
    tok u;
    switch (i.k) {
      case V_L: { T v = i.v; co_yield v; break; }
      case V_R: co_yield int{i.v}; break;
      case FAIL: fail(i.v);
      case NEST_R: co_yield rec<T>(*i.sub); break;
      case NEST_L: { auto g = rec<T>(*i.sub); co_yield g; break; }
      case TRY_NEST: {
        std::optional<int> code;
        try { co_yield rec<T>(*i.sub); } catch (prog_error const& e) { code = e.code; }
        if (code) { T v = -*code; co_yield v; }
        break;
      }
    }
  }
}

// ---------------------------------------------------------------- consumers
struct seq {
  virtual ~seq() = default;
  virtual bool next(int& out) = 0;
  virtual void move() {}
  virtual void again(int expect) { (void)expect; }
  int map = 0;
  std::vector<int> const* home = nullptr;  // where the elements referred to live
};
void check_home(seq const& s, int const& at) {
  if (s.home && (&at < s.home->data() || &at >= s.home->data() + s.home->size())) { violation("copy-delivered", "the sequence delivered a copy instead of the element"); }
}
int g_map_add = 5;
template <typename R>
struct gen_seq final : seq {
  template <typename F>
  explicit gen_seq(F&& f) : r{std::make_unique<R>(f())}, by_const{chance(1, 4)} {}
  bool next(int& out) override {
    if (by_const) {
      // through a constant sequence
      auto const& c = *r;
      if (!started) { cit.emplace(c.begin()); started = true; } else { ++*cit; }
      if (!(*cit != c.end())) { return false; }
      if constexpr (std::is_same_v<std::decay_t<decltype(**cit)>, std::string>) { out = int_of(**cit); } else { check_home(*this, **cit); out = **cit; }
      return true;
    }
    if (!started) { it.emplace(r->begin()); started = true; }
    else if (chance(1, 4)) { (*it)++; }
    else { ++*it; }
    if (!(*it != r->end())) { return false; }
    if constexpr (std::is_same_v<std::decay_t<decltype(**it)>, std::string>) { out = int_of(chance(1, 2) ? std::string{it->operator->()->c_str()} : std::string{**it}); }
    else { check_home(*this, **it); out = chance(1, 4) ? *it->operator->() : **it; }
    return true;
  }
  void move() override { auto n = std::make_unique<R>(std::move(*r)); r = std::move(n); }
  void again(int expect) override {
    // begin() of a started sequence does not consume anything
    auto i = r->begin();
    auto const& c = *r;
    auto k = c.begin();
    int a, b;
    if constexpr (std::is_same_v<std::decay_t<decltype(*i)>, std::string>) { a = int_of(*i); b = int_of(*k); }
    else { a = *i; b = *k; }
    if (a != expect || b != expect || c.begin() == c.end()) { violation("begin-consumes", "begin() of a started sequence gave %d/%d instead of %d", a, b, expect); }
  }
  std::unique_ptr<R> r;
  std::optional<typename R::iterator> it;
  std::optional<typename R::const_iterator> cit;
  bool by_const;
  bool started = false;
};
// Sequences that only serve as targets of assignments.
template <typename T>
recursive_generator<T> decoy(int depth) {
  tok t;
  std::vector<int> local(4, depth);
  for (int i = 0; i < 3; ++i) {
    tok u;
    int v = i;
    co_yield v;
    if (depth > 0) { co_yield decoy<T>(depth - 1); }
  }
}
struct it_decoy {
  coro_it<int> val() { tok t; for (int i = 0; i < 3; ++i) { tok u; co_yield int{i}; } }
  coro_it<int const&> cref() { tok t; std::vector<int> const l(3, 1); for (auto const& i : l) { tok u; co_yield i; } }
  coro_it<int&> ref() { tok t; std::vector<int> l(3, 1); for (auto& i : l) { tok u; co_yield i; } }
};
template <typename It>
It make_decoy() {
  it_decoy d;
  if constexpr (std::is_same_v<It, coro_it<int>>) { return d.val(); }
  else if constexpr (std::is_same_v<It, coro_it<int const&>>) { return d.cref(); }
  else { return d.ref(); }
}
template <typename R>
struct rec_of;
template <typename T>
struct rec_of<recursive_generator<T>> { using type = T; };
template <typename R>
struct rec_seq final : seq {
  explicit rec_seq(R&& x) : r{std::make_unique<R>(std::move(x))} {}
  bool next(int& out) override {
    if (!started) { it.emplace(r->begin()); started = true; }
    else if (chance(1, 4)) { (*it)++; }
    else { ++*it; }
    if (*it == r->end()) { return false; }
    out = chance(1, 4) ? *it->operator->() : **it;
    return true;
  }
  void move() override {
    switch (choose(4)) {
      case 0: { auto n = std::make_unique<R>(std::move(*r)); r = std::move(n); break; }
      case 3: {  // over another sequence, consumed to some point
        R other = decoy<typename rec_of<R>::type>(static_cast<int>(choose(3)));
        u32 n = choose(5);
        auto i = other.end();
        if (n > 0) { i = other.begin(); }
        while (n-- > 1 && i != other.end()) { ++i; }
        other = std::move(*r);
        auto k = std::make_unique<R>(std::move(other));
        r = std::move(k);
        break;
      }
      case 1: { R other; other = std::move(*r); swap(other, *r); if (chance(1, 2)) { R* self = r.get(); *self = std::move(*r); } break; }
      default: { R other; other.swap(*r); *r = std::move(other); break; }
    }
  }
  std::unique_ptr<R> r;
  std::optional<typename R::iterator> it;
  bool started = false;
};
template <typename H, typename It>
struct it_seq final : seq {
  explicit it_seq(H h_) : h{h_} {}
  bool next(int& out) override {
    if (!started) { it = std::make_unique<It>(h.begin()); started = true; }
    else { ++*it; }
    if (!(*it != h.end())) { return false; }
    if constexpr (std::is_reference_v<decltype(**it)>) { check_home(*this, **it); }
    out = **it;
    return true;
  }
  void move() override {
    if (!it) { return; }
    if (choose(2) == 0) { auto n = std::make_unique<It>(std::move(*it)); it = std::move(n); return; }
    auto n = std::make_unique<It>(make_decoy<It>());
    for (u32 k = choose(4); k > 0; --k) { ++*n; }
    *n = std::move(*it);
    it = std::move(n);
  }
  H h;
  std::unique_ptr<It> it;
  bool started = false;
};

struct job {
  int kind = 0;
  prog p;
  ref want;
  std::vector<int> store, src;
  std::unique_ptr<recursive_generator<int>> base_rec;
  std::unique_ptr<generator<int>> base_gen;
  int map_fail_at = -1;
  int calls = 0;
  std::unique_ptr<seq> s;
  std::vector<int> got;
  bool done = false, failed = false, oom = false;
  int code = 0;
};
int map_fn(job& j, int v) {
  tok t;
  if (j.calls++ == j.map_fail_at) { fault(F_CALLBACK_THROW); throw prog_error{4242}; }
  return v * 3 + 1;
}
constexpr int KINDS = 15;
bool nests(int k) { return k >= 7 && k <= 10; }

void create(job& j) {
  auto& p = j.p;
  switch (j.kind) {
    case 0: j.s = std::make_unique<gen_seq<generator<int>>>([&] { return gen<int>(p); }); break;
    case 1: j.s = std::make_unique<gen_seq<generator<int const>>>([&] { return gen<int const>(p); }); break;
    case 2: j.s = std::make_unique<gen_seq<generator<std::string>>>([&] { return gen<std::string>(p); }); break;
    case 3: j.s = std::make_unique<gen_seq<generator<int&>>>([&] { return gen_ref(p, j.store); }); j.s->home = &j.store; break;
    case 4: j.s = std::make_unique<it_seq<it_val, coro_it<int>>>(it_val{p}); break;
    case 5: j.s = std::make_unique<it_seq<it_cref, coro_it<int const&>>>(it_cref{p}); break;
    case 6: j.s = std::make_unique<it_seq<it_ref, coro_it<int&>>>(it_ref{p, j.store}); j.s->home = &j.store; break;
    case 7: j.s = std::make_unique<rec_seq<recursive_generator<int>>>(rec<int>(p)); break;
    case 8: j.s = std::make_unique<rec_seq<recursive_generator<int const>>>(rec<int const>(p)); break;
    case 9: {
      auto f = [&j, t = tok{}](int v) { return map_fn(j, v); };
      j.s = std::make_unique<gen_seq<generator<int>>>([&] { return fmap(f, rec<int>(p)); });
      break;
    }
    case 10: {
      j.base_rec = std::make_unique<recursive_generator<int>>(rec<int>(p));
      auto f = [&j, t = tok{}](int v) { return map_fn(j, v); };
      // the function is only referred to, so it has to outlive the sequence
      static thread_local decltype(f)* keep = nullptr;
      (void)keep;
      struct holder final : seq { holder(decltype(f) fn_, recursive_generator<int>& b) : fn{fn_}, in{[&] { return coro_map(b, fn); }} {} bool next(int& o) override { return in.next(o); } void move() override { in.move(); } decltype(f) fn; gen_seq<generator<int>> in; };
      j.s = std::make_unique<holder>(f, *j.base_rec);
      break;
    }
    case 11: {
      auto f = [&j, t = tok{}](int v) { return map_fn(j, v); };
      struct holder final : seq { holder(decltype(f) fn_, std::vector<int>& b) : fn{fn_}, in{[&] { return coro_map(b, fn); }} {} bool next(int& o) override { return in.next(o); } void move() override { in.move(); } decltype(f) fn; gen_seq<generator<int>> in; };
      j.s = std::make_unique<holder>(f, j.src);
      break;
    }
    case 12: {
      j.base_gen = std::make_unique<generator<int>>(gen<int>(p));
      auto f = [&j, t = tok{}](int v) { return map_fn(j, v); };
      struct holder final : seq { holder(decltype(f) fn_, generator<int>& b) : fn{fn_}, in{[&] { return coro_map(b, fn); }} {} bool next(int& o) override { return in.next(o); } void move() override { in.move(); } decltype(f) fn; gen_seq<generator<int>> in; };
      j.s = std::make_unique<holder>(f, *j.base_gen);
      break;
    }
    case 14: {  // mapped to references to the elements
      auto f = [&j, t = tok{}](int& v) -> int& { (void)map_fn(j, v); return v; };
      struct holder final : seq { holder(decltype(f) fn_, std::vector<int>& b) : fn{fn_}, in{[&] { return coro_map(b, fn); }} { in.home = &b; } bool next(int& o) override { bool const m = in.next(o); if (m) { o = o * 3 + 1; } return m; } void move() override { in.move(); } decltype(f) fn; gen_seq<generator<int&>> in; };
      j.s = std::make_unique<holder>(f, j.src);
      break;
    }
    default: {
      j.base_gen = std::make_unique<generator<int>>(gen<int>(p));
      auto f = [&j, t = tok{}](int v) { return map_fn(j, v); };
      auto outer = [&j](int v) { return v + (j.kind == 13 ? 0 : 1); };
      struct holder final : seq {  // a mapped sequence mapped again
        holder(decltype(f) fn_, decltype(outer) o_, generator<int>& b) : fn{fn_}, o{o_}, mid{coro_map(b, fn)}, in{[&] { return coro_map(mid, o); }} {}
        bool next(int& out) override { return in.next(out); }
        decltype(f) fn; decltype(outer) o; generator<int> mid; gen_seq<generator<int>> in;
      };
      j.s = std::make_unique<holder>(f, outer, *j.base_gen);
      break;
    }
  }
}
bool mapped(int k) { return k >= 9; }

// Consumes everything through range-for / collect in one go.
void drain_whole(job& j) {
  auto& p = j.p;
  std::vector<int> out;
  auto emit = [&](int v) { out.push_back(v); };
  u32 const how = choose(3);
  try {
    switch (j.kind) {
      case 0: case 1: case 2: case 3:
        if (how == 0) { out = collect<std::vector<int>>(gen<int>(p)); }
        else if (how == 1) { auto l = collect<std::deque<int>>(gen<int const>(p), [](int v) { return v; }); out.assign(l.begin(), l.end()); }
        else { auto g = gen<std::string>(p); auto l = collect<std::list<std::string>>(g); for (auto const& s : l) { emit(int_of(s)); } }
        break;
      case 4: for (auto v : it_val{p}) { emit(v); } break;
      case 5: for (auto const& v : it_cref{p}) { emit(v); } break;
      case 6: for (auto& v : it_ref{p, j.store}) { emit(v); } break;
      case 7: case 8:
        if (how == 0) { auto g = rec<int>(p); out = g.template emplace_back<std::vector<int>>(); }
        else if (how == 1) { auto g = rec<int const>(p); for (auto const& v : g) { emit(v); } }
        else { out = collect<std::vector<int>>(rec<int>(p)); }
        break;
      case 9: for (auto&& v : fmap([&](int v) { return map_fn(j, v); }, rec<int>(p))) { emit(v); } break;
      case 10: { auto r = rec<int>(p); out = collect<std::vector<int>>(r, [&](int v) { return map_fn(j, v); }); break; }
      case 11: case 14: { auto f = [&](int v) { return map_fn(j, v); }; out = collect<std::vector<int>>(coro_map(j.src, f)); break; }
      default: { auto f = [&](int v) { return map_fn(j, v); }; auto g = gen<int>(p); for (auto&& v : coro_map(g, f)) { emit(v); } break; }
    }
  } catch (prog_error const& e) { j.failed = true; j.code = e.code; }
  catch (std::bad_alloc const&) { j.oom = true; }
  j.done = true;
  no_alloc_fail n;
  j.got = out;
}

void step(job& j) {
  int v = -777777;
  bool more = false;
  try {
    if (!j.s) { create(j); }
    more = j.s->next(v);
  } catch (prog_error const& e) { j.failed = true; j.code = e.code; j.done = true; return; }
  catch (std::bad_alloc const&) { j.oom = true; j.done = true; return; }
  if (!more) { j.done = true; return; }
  no_alloc_fail n;
  j.got.push_back(v);
}

std::string show(std::vector<int> const& v) {
  std::string s;
  for (std::size_t i = 0; i < v.size() && i < 40; ++i) { s += std::to_string(v[i]) + " "; }
  return s;
}

void judge(job& j, bool whole, bool fail_mode) {
  no_alloc_fail n;
  ref const& w = j.want;
  event(static_cast<u64>(j.kind * 1000 + static_cast<int>(j.got.size()) * 4 + j.failed * 2 + j.done));
  // a failure inside collect() discards what was gathered: only its report counts
  bool const lost_ok = whole && (j.failed || j.oom);
  if (!lost_ok || !j.got.empty()) {
    bool prefix = j.got.size() <= w.vals.size();
    for (std::size_t i = 0; prefix && i < j.got.size(); ++i) { prefix = j.got[i] == w.vals[i]; }
    if (!prefix) { violation("wrong-elements", "sequence kind %d delivered [%s] but its producer yielded [%s]", j.kind, show(j.got).c_str(), show(w.vals).c_str()); }
  }
  if (!j.done) { return; }
  if (j.oom) { if (!alloc_fail_fired()) { violation("wrong-exception", "bad_alloc without a failed allocation, kind %d", j.kind); } return; }
  if (j.failed) {
    if (!w.fails) { violation("wrong-exception", "kind %d reported failure %d of a producer that did not fail", j.kind, j.code); }
    if (j.code != w.code) { violation("wrong-exception", "kind %d reported failure %d instead of %d", j.kind, j.code, w.code); }
    if (!lost_ok && j.got.size() != w.vals.size()) { violation("wrong-elements", "kind %d reported the failure after %zu of %zu elements", j.kind, j.got.size(), w.vals.size()); }
    return;
  }
  if (fail_mode && (w.fails || alloc_fail_fired())) {
    if (w.fails) { violation("failure-taken-for-end", "kind %d: the producer failed with %d after [%s], the consumer saw [%s] and a regular end", j.kind, w.code, show(w.vals).c_str(), show(j.got).c_str()); }
    if (j.got.size() != w.vals.size()) { violation("failure-taken-for-end", "kind %d: out of memory inside the producer, the consumer saw [%s] of [%s] and a regular end", j.kind, show(j.got).c_str(), show(w.vals).c_str()); }
    return;
  }
  if (w.fails) { return; }
  if (j.got.size() != w.vals.size()) { violation("wrong-elements", "sequence kind %d ended after [%s] but its producer yielded [%s]", j.kind, show(j.got).c_str(), show(w.vals).c_str()); }
}

void make_job(job& j, u32 fail_w, bool map_fails) {
  j.kind = static_cast<int>(choose(KINDS));
  j.p = draw_prog(0, nests(j.kind), fail_w);
  flatten(j.p, j.want);
  for (auto const& i : j.p.items) { if (i.k == V_L || i.k == V_R) { j.store.push_back(i.v); } }
  j.store.reserve(64);
  if (j.kind == 11 || j.kind == 14) { j.src = j.want.vals; j.want.fails = false; }
  if (mapped(j.kind)) {
    for (auto& v : j.want.vals) { v = v * 3 + 1; }
    if (map_fails && !j.want.vals.empty() && chance(1, 3)) {
      j.map_fail_at = static_cast<int>(choose(static_cast<u32>(j.want.vals.size())));
      j.want.vals.resize(static_cast<std::size_t>(j.map_fail_at));
      j.want.fails = true;
      j.want.code = 4242;
    }
  }
}

void check_released(u64 mark, char const* when) {
  if (g_tok_bad != 0) { violation("released-twice", "%ld resources of producers were released twice (%s)", g_tok_bad, when); }
  if (g_tok_live != 0) { violation("not-released", "%ld resources of producers are still held (%s)", g_tok_live, when); }
  auto const l = live_since(mark);
  if (l.count != 0) { violation("frame-leak", "%lu blocks, %lu bytes still allocated (%s)", static_cast<unsigned long>(l.count), static_cast<unsigned long>(l.bytes), when); }
}

enum mode { ORDER, FAILURES, RELEASE };
void co_run(mode m) {
  draw_heap();
  g_tok_live = g_tok_bad = 0;
  g_next = 0;
  bool const fails = m == FAILURES || (m == RELEASE && choose(2) == 1);
  bool const threads = m == ORDER && choose(3) == 2;
  u32 const njobs = 1 + choose(3);
  u64 const mark0 = heap_mark();
  bool interesting = false;
  {
    std::vector<job> jobs(njobs);
    for (auto& j : jobs) { make_job(j, fails ? 1 + choose(6) : 0, fails); if (!j.want.vals.empty()) { interesting = true; } if (fails && j.want.fails) { interesting = true; } }
    for (auto& j : jobs) { if (G_note()) { note("sequence kind %d yields [%s]%s", j.kind, show(j.want.vals).c_str(), j.want.fails ? " then fails" : ""); } }
    u64 const mark = heap_mark();
    (void)mark;
    if (threads) {
      // each sequence has its own consumer task; some are handed over half-way
      auto cfg = draw_sched(false, false);
      with_sched(cfg, [&] {
        std::vector<std::thread> ts;
        for (auto& j : jobs) {
          u32 const handover = choose(3) == 2 ? 1 + choose(6) : 0;
          ts.emplace_back([&j, handover] {
            u32 n = 0;
            while (!j.done && (handover == 0 || n++ < handover)) { step(j); }
            if (!j.done) { std::thread t{[&j] { while (!j.done) { step(j); } j.s.reset(); }}; t.join(); }
          });
        }
        for (auto& t : ts) { t.join(); }
      });
      for (auto& j : jobs) { judge(j, false, false); }
    } else if (choose(4) == 3) {
      for (auto& j : jobs) {
        bool const oom = fails && m != ORDER && choose(3) == 2;
        if (oom) { arm_alloc_fail(1 + choose(24)); }
        drain_whole(j);
        judge(j, true, m == FAILURES);
        arm_alloc_fail(0);
      }
    } else {
      bool const oom = fails && choose(3) == 2;
      u32 live = njobs;
      if (oom) { arm_alloc_fail(1 + choose(30)); }
      while (live > 0) {
        u32 k = choose(live);
        for (auto& j : jobs) {
          if (j.done) { continue; }
          if (k-- != 0) { continue; }
          if (j.s && !j.got.empty()) {
            u32 const a = choose(16);
            if (a == 15) { no_alloc_fail n; j.s->move(); event(77); }
            if (a == 14) { no_alloc_fail n; j.s->again(j.got.back()); }
            if (m == RELEASE && a >= 11 && a < 14) { fault(F_CONSUMER_ABANDON); j.s.reset(); j.base_rec.reset(); j.base_gen.reset(); j.done = true; j.got.clear(); j.want = {}; --live; break; }
          }
          bool const fired = alloc_fail_fired();
          step(j);
          if (j.done) { --live; if (!fired || j.oom || j.failed) { judge(j, false, m == FAILURES && (j.want.fails || (oom && njobs == 1))); } if (chance(1, 2)) { j.s.reset(); } }
          break;
        }
      }
      arm_alloc_fail(0);
    }
    if (G_note()) { for (auto& j : jobs) { note("sequence kind %d consumer saw [%s]%s%s", j.kind, show(j.got).c_str(), j.failed ? " failure" : "", j.oom ? " out of memory" : ""); } }
  }
  if (m == RELEASE && !threads) { check_released(mark0, "after all sequences were destroyed"); interesting = true; }
  if (interesting) { nontrivial(); }
  state(static_cast<u64>(g_next) * 131 + njobs);
}
void order() { co_run(ORDER); }
void failures() { co_run(FAILURES); }
void release() { co_run(RELEASE); }
Reg r1{"C01", "order", nullptr, order}, r2{"C02", "failures", nullptr, failures}, r3{"C03", "release", nullptr, release};
}  // namespace
