// Exclusion of interlocking routes and the ordering of trains over them.
#include "rail.h"

#include <queue>

#include "soro/infrastructure/exclusion/read_cliques.h"
#include "soro/simulation/ordering/check_exclusion_paths.h"
#include "soro/simulation/ordering/get_cycle.h"
#include "soro/simulation/ordering/ordering_graph.h"

namespace utl { void shim_log_sink(int, std::string const&) {} }

using namespace sim;
using namespace rail;
namespace sm = soro::simulation;

namespace {
// ------------------------------------------------------------ exclusion
void prep_x() { load(false); }
std::string nums(std::vector<u32> const& v) { std::string s; for (auto x : v) { s += (s.empty() ? "" : " ") + std::to_string(x); } return s; }

// sets of routes under the operations of sets, against std::set
using Set = std::set<u32>;
void set_algebra(exclusion const& ex, u32 k) {
  auto const drawn = [&](Set& m) {
    u32 const kind = choose(4);
    exclusion_set s;
    if (kind == 0 && !ex.exclusion_graph_.nodes_.empty()) {
      s = ex.exclusion_graph_.nodes_[choose(k)];
      for (auto const x : s.expanded_set()) { m.insert(x); }
      return s;
    }
    static u32 const spans[] = {64, 1, 8, 65, 128, 200, 2};
    u32 const base = choose(3) * 64 + choose(66), span = spans[choose(7)], n = kind == 3 ? 0 : 1 + choose(10);
    soro::vector<u32> v;
    for (u32 i = 0; i < n; ++i) { m.insert(base + choose(span)); }
    for (auto const x : m) { v.emplace_back(x); }
    return make_exclusion_set(v);
  };
  Set ma, mb;
  auto a = drawn(ma), b = drawn(mb);
  auto const same = [&](char const* after, exclusion_set const& s, Set const& m) {
    std::vector<u32> const want(m.begin(), m.end());
    auto const e = s.expanded_set();
    std::vector<u32> const got(e.begin(), e.end());
    std::vector<u32> it;
    for (auto const x : s) { if (it.size() > 5000) { break; } it.push_back(x); }
    if (got != want || it != want || s.count() != m.size() || s.empty() != m.empty() || s.any() == m.empty()) { violation("set-contents", "after %s: [%s], read [%s], walked [%s], count %zu, empty %d, any %d", after, nums(want).c_str(), nums(got).c_str(), nums(it).c_str(), s.count(), s.empty(), s.any()); }
    for (u32 j = 0; j < 8; ++j) { u32 const x = choose(600); if (s[x] != (m.count(x) > 0)) { violation("set-contents", "after %s: membership of %u in [%s] is %d", after, x, nums(want).c_str(), static_cast<bool>(s[x])); } }
  };
  same("making it", a, ma);
  same("making it", b, mb);
  for (u32 op = 0, n = choose(7); op < n; ++op) {
    switch (choose(7)) {
      case 0: a |= b; ma.insert(mb.begin(), mb.end()); same("a union", a, ma); break;
      case 1: a -= b; for (auto x : mb) { ma.erase(x); } same("a difference", a, ma); break;
      case 2: { u32 const x = choose(2) ? choose(600) : choose(70); a.set(x); ma.insert(x); same("an insertion", a, ma); break; }
      case 3: { auto const c = b - a; auto m = mb; for (auto x : ma) { m.erase(x); } same("a difference", c, m); same("being subtracted from", b, mb); b = c; mb = m; break; }
      case 4: { auto const c = a | b; auto m = ma; m.insert(mb.begin(), mb.end()); same("a union", c, m); b = c; mb = m; break; }
      case 5: a.clear(); ma.clear(); same("clearing", a, ma); break;
      case 6: mb.clear(); b = drawn(mb); break;
    }
    bool const ge = std::includes(ma.begin(), ma.end(), mb.begin(), mb.end()), le = std::includes(mb.begin(), mb.end(), ma.begin(), ma.end());
    auto const want = ge && le ? std::partial_ordering::equivalent : ge ? std::partial_ordering::greater : le ? std::partial_ordering::less : std::partial_ordering::unordered;
    if (a.contains(b) != ge || b.contains(a) != le || a.compare(b) != want) { violation("set-order", "of the sets [%s] and [%s] the first holds the second: %d, the second the first: %d", nums({ma.begin(), ma.end()}).c_str(), nums({mb.begin(), mb.end()}).c_str(), a.contains(b), b.contains(a)); }
  }
}

void exclusion_run() {
  draw_heap();
  auto& inf = const_cast<infrastructure_t&>(**base);
  u32 const all = static_cast<u32>(inf.interlocking_.routes_.size());
  // a random part of the interlocking, renumbered
  static u32 const sizes[] = {12, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 0, 150, 250, 475};
  u32 const k = std::min(all, sizes[choose(choose(6) == 5 ? 19 : 15)]);
  std::vector<u32> perm;
  if (choose(2) == 0) { u32 const off = choose(all - k + 1); for (u32 i = 0; i < k; ++i) { perm.push_back(off + i); } }
  else { u32 x = choose(1U << 16); std::set<u32> seen; while (perm.size() < k) { x = x * 1664525U + 1013904223U; u32 const c = (x >> 8) % all; if (seen.insert(c).second) { perm.push_back(c); } } }
  soro::vector<interlocking_route> routes;
  for (u32 i = 0; i < k; ++i) { auto r = inf.interlocking_.routes_[perm[i]]; r.id_ = i; routes.emplace_back(r); }
  inf.interlocking_.routes_ = routes;
  auto const nodes = inf.graph_.nodes_.size();
  inf.interlocking_.starting_at_.clear(); inf.interlocking_.starting_at_.resize(nodes);
  inf.interlocking_.ending_at_.clear(); inf.interlocking_.ending_at_.resize(nodes);
  for (auto const& r : routes) {
    inf.interlocking_.starting_at_[r.first_node(*base)->id_].emplace_back(r.id_);
    inf.interlocking_.ending_at_[r.last_node(*base)->id_].emplace_back(r.id_);
  }
  // the file of exclusion sets: any sets of routes
  static u32 const many[] = {0, 100, 255, 256, 257, 300, 700};
  std::vector<std::vector<u32>> sets(k == 0 ? 0 : choose(20) == 19 ? many[choose(7)] : choose(12));
  std::string file;
  for (auto& s : sets) {
    std::set<u32> in;
    if (sets.size() < 100 && choose(24) == 23) { for (u32 i = 0, drop = choose(8); i < k; ++i) { if (drop < 4 || i % 8 != drop) { in.insert(i); } } }
    else { u32 const n = 1 + choose(6); for (u32 i = 0; i < n; ++i) { in.insert(choose(k)); } }
    s.assign(in.begin(), in.end());
    auto line = s;
    if (choose(2)) { std::reverse(line.begin(), line.end()); }
    file += nums(line) + "\n";
  }
  bool const there = choose(6) != 5;
  if (there) { disk::put("/simfs/x/exclusion_sets", file); } else { fault(F_MISSING_FILE); sets.clear(); disk::mkdirs("/simfs/x"); }
  bool const el = choose(8) != 7, gr = choose(8) != 7;
  auto const sched = draw_sched(choose(8) == 7, true);
  disk::Cfg dc;
  switch (choose(8)) { case 1: dc.open_err = 32; break; case 2: dc.read_err = 32; break; case 3: dc.read_short = 40; break; case 4: dc.read_eintr = 8; break; default: break; }
  note("%u routes, %zu exclusion sets%s, elements %d graph %d, %u workers, mode %u", k, sets.size(), there ? "" : " (file missing)", el, gr, sched.hw, sched.mode);
  exclusion ex;
  bool threw = false;
  std::string what;
  allow_failstop(sched.create_fail > 0);  // without threads giving up is fine, wrong results are not
  disk::arm(dc);
  with_sched(sched, [&] {
    try { ex = get_exclusion(**base, "/simfs/x/exclusion_sets", option<exclusion_elements>{el}, option<exclusion_graph>{gr}); }
    catch (std::exception const& e) { threw = true; what = e.what(); }
  });
  bool const hit = disk::injected() > 0 || fault_count(F_READ_EINTR) > 0 || fault_count(F_THREAD_CREATE_FAIL) > 0;
  disk::disarm();
  event(threw);
  if (threw) {
    if (!hit) { violation("exclusion-failed", "computing the exclusion of %u routes failed without a fault: %s", k, what.c_str()); }
    return;
  }
  if (k > 1) { nontrivial(); }
  state(mix(mix(k, sched.hw), sets.size()));
  auto const want_n = el ? k : 0;
  if (ex.exclusion_elements_.closed_.size() != want_n || ex.exclusion_elements_.open_.size() != want_n) { violation("element-count", "%u routes, locked elements of %u/%u routes", k, static_cast<u32>(ex.exclusion_elements_.closed_.size()), static_cast<u32>(ex.exclusion_elements_.open_.size())); }
  for (u32 i = 0; i < want_n; ++i) {
    auto const& c = closed[perm[i]];
    std::vector<u32> const want(c.begin(), c.end()), got(ex.exclusion_elements_.closed_[i].begin(), ex.exclusion_elements_.closed_[i].end());
    if (want != got) { violation("locked-elements", "route %u locks [%s], reported [%s]", perm[i], nums(want).c_str(), nums(got).c_str()); }
    std::vector<u32> wo;
    auto const f = routes[i].first_node(*base)->element_->id(), l = routes[i].last_node(*base)->element_->id();
    for (auto e : want) { if (e != f && e != l) { wo.push_back(e); } }
    std::vector<u32> const go(ex.exclusion_elements_.open_[i].begin(), ex.exclusion_elements_.open_[i].end());
    if (wo != go) { violation("locked-elements-open", "route %u: [%s], reported [%s]", perm[i], nums(wo).c_str(), nums(go).c_str()); }
  }
  if (el && gr) {
    if (ex.exclusion_graph_.nodes_.size() != k) { violation("graph-size", "%u routes, %u graph nodes", k, static_cast<u32>(ex.exclusion_graph_.nodes_.size())); }
    for (u32 i = 0; i < k; ++i) {
      std::vector<u32> want;
      for (u32 j = 0; j < k; ++j) { if (conflict[perm[i]][perm[j]]) { want.push_back(j); } }
      std::vector<u32> got;
      auto const e = ex.exclusion_graph_.nodes_[i].expanded_set();
      got.assign(e.begin(), e.end());
      if (want != got) {
        std::vector<u32> d;
        std::set_symmetric_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(d));
        violation("conflicting-routes", "with %u workers, route %u of %u conflicts with %zu routes, reported %zu; wrong about [%s]", sched.hw, i, k, want.size(), got.size(), nums(d).c_str());
      }
      std::vector<u32> it;
      if (!want.empty()) { for (auto const j : ex.exclusion_graph_.nodes_[i]) { it.push_back(j); } }
      if (it != want || ex.exclusion_graph_.nodes_[i].count() != want.size()) { violation("conflicting-routes", "route %u conflicts with %zu routes, walking the set gives %zu, its count says %zu", i, want.size(), it.size(), ex.exclusion_graph_.nodes_[i].count()); }
      for (u32 j = 0; j < k; j += 1 + k / 40) { if (ex.exclusion_graph_.nodes_[i][j] != conflict[perm[i]][perm[j]]) { violation("conflicting-routes", "membership test of %u in the conflicts of %u is wrong", j, i); } }
    }
  } else if (!ex.exclusion_graph_.nodes_.empty()) { violation("graph-size", "an exclusion graph nobody asked for"); }
  set_algebra(ex, k);
  std::sort(sets.begin(), sets.end());
  std::vector<std::vector<u32>> got;
  for (auto const& s : ex.exclusion_sets_) { got.emplace_back(s.begin(), s.end()); }
  if (sets != got) { violation("exclusion-sets", "%zu exclusion sets in the file, %zu read%s", sets.size(), got.size(), sets.size() == got.size() ? " with other contents" : ""); }
  if (ex.irs_to_exclusion_sets_.size() != k) { violation("route-to-sets", "%u routes, sets of %u", k, static_cast<u32>(ex.irs_to_exclusion_sets_.size())); }
  for (u32 i = 0; i < k; ++i) {
    std::vector<u32> want;
    for (u32 s = 0; s < sets.size(); ++s) { if (std::binary_search(sets[s].begin(), sets[s].end(), i)) { want.push_back(s); } }
    std::vector<u32> const g(ex.irs_to_exclusion_sets_[i].begin(), ex.irs_to_exclusion_sets_[i].end());
    if (want != g) { violation("route-to-sets", "route %u is in the sets [%s], reported [%s]", i, nums(want).c_str(), nums(g).c_str()); }
  }
}
Reg r_x01("X01", "exclusion", prep_x, exclusion_run, 1);

// ------------------------------------------------------------ ordering
void prep_o() { load(true); make_pool(250); }
// the same on an infrastructure and trains of the seed
template <void (*Run)()> void generated() {
  static gen::size const sizes[] = {{4, 3, 4, 10, 10, 200, true}, {3, 2, 3, 10, 12, 200, true}, {6, 3, 4, 8, 8, 200, true}, {2, 3, 5, 10, 14, 200, true}};
  pool.clear();
  auto const w = load_generated(sizes[choose(4)], true);
  fill_pool(12, 1500, 4, {88172645463325252ULL + choose(1U << 16)});
  if (pool.empty()) { discard("no trains"); }
  note("generated infrastructure: %zu stations, %zu station routes, %zu interlocking routes, %zu templates", w.st.size(), w.sr.size(), conflict.size(), pool.size());
  Run();
}

struct usage { u32 train, day, k, route; u64 from; };
struct world {
  tt::base_timetable* bt;
  tt::timetable* tt;
  sm::ordering_graph::filter filter;
  std::vector<usage> want;                      // in the order the trips appear
  std::map<std::pair<u32, u64>, std::pair<u32, u32>> trips;  // (train, anchor) -> range in want
};
constexpr u32 DAY = 86400;
u32 const DAY0 = 19297;  // 2022-11-01

world draw_world(u32 many = 0) {
  world w;
  tt::base_timetable bt;
  bool const crowd = choose(5) == 4;  // many trips over the same routes
  bool const huge = many && choose(many) == many - 1;
  u32 const n = huge ? 6 + choose(6) : crowd ? 2 + choose(4) : 1 + choose(5);
  std::vector<std::pair<u32, u32>> picked;  // template, shift
  for (u32 i = 0; i < n; ++i) {
    u32 t = choose(static_cast<u32>(pool.size())), sh = 0;
    u32 const how = picked.empty() ? 0 : choose(4);
    static u32 const base_sh[] = {0, 3600, 20 * 3600, 22 * 3600 + 1800, 30 * 3600};
    if (how == 0) { sh = base_sh[choose(5)] + choose(600); }
    else if (how == 1) { auto const& p = picked[choose(static_cast<u32>(picked.size()))]; t = p.first; sh = p.second + choose(2) * choose(300); if (sh == p.second) { fault(F_TIE); } }  // follows another train, or ties with it
    else if (how == 2) { sh = picked[0].second + choose(400); }
    else {  // shares a main signal passage time with another train's route start
      auto const& p = picked[choose(static_cast<u32>(picked.size()))];
      u64 const at = pool[p.first].ms[choose(static_cast<u32>(pool[p.first].ms.size()))] + p.second;
      auto const& m = pool[t].ms;
      u64 const mine = m[choose(static_cast<u32>(m.size()))];
      if (at >= mine) { sh = static_cast<u32>(at - mine); fault(F_TIE); }
    }
    picked.push_back({t, sh});
  }
  for (u32 i = 0; i < n; ++i) {
    tt::train t = pool[picked[i].first].train;
    t.id_ = i;
    t.number_ = {100 + i, static_cast<tt::train::number::sub_t>(choose(3))};
    auto const sh = relative_time{picked[i].second};
    for (auto& sp : t.sequence_points_) { sp.arrival_ += sh; sp.departure_ += sh; }
    u32 const span = huge ? 16 + choose(16) : crowd ? 8 + choose(14) : 1 + choose(5);
    u32 const first = choose(4);
    std::string mask(span, '1');
    u32 const holes = choose(3);
    for (u32 h = 0; h < holes; ++h) { mask[choose(span)] = '0'; }
    mask[choose(span)] = '1';
    t.service_days_ = tt::make_bitfield(tt::bitfield::anchor_time{date::days{static_cast<int>(DAY0 + first)}}, tt::bitfield::anchor_time{date::days{static_cast<int>(DAY0 + first + span - 1)}}, mask.c_str());
    bt.trains_.emplace_back(t);
  }
  if (choose(3) == 2) {
    u64 const s = static_cast<u64>(DAY0) * DAY + choose(8) * (DAY / 2) + choose(3) * choose(DAY / 2);
    u64 const e = s + (choose(3) == 0 ? choose(3) * 600 : choose(4 * DAY));
    w.filter.interval_ = {absolute_time{absolute_time::duration{static_cast<u32>(s)}}, absolute_time{absolute_time::duration{static_cast<u32>(e)}}};
  }
  if (n > 1 && choose(5) == 4) { for (u32 i = 0; i < n; ++i) { if (choose(2)) { w.filter.trains_.push_back(i); } } auto& f = w.filter.trains_; if (f.size() > 1 && choose(2)) { std::swap(f[choose(static_cast<u32>(f.size()))], f.back()); } }
  u64 const lo = w.filter.interval_.start_.time_since_epoch().count(), hi = w.filter.interval_.end_.time_since_epoch().count();
  for (u32 i = 0; i < n; ++i) {
    auto const& fl = w.filter.trains_;
    if (!fl.empty() && std::find(fl.begin(), fl.end(), i) == fl.end()) { continue; }
    auto const& t = bt.trains_[i];
    auto const& p = pool[picked[i].first];
    u64 const sh = picked[i].second;
    for (u32 d = 0; d < 40; ++d) {
      tt::bitfield::anchor_time const at{date::days{static_cast<int>(DAY0 + d)}};
      if (at < t.service_days_.first_date_ || at > t.service_days_.last_date_ || !t.service_days_.at(at)) { continue; }
      u64 const anchor = static_cast<u64>(DAY0 + d) * DAY;
      if (anchor + p.dep + sh > hi || anchor + p.arr + sh < lo) { continue; }
      u32 const b = static_cast<u32>(w.want.size());
      for (u32 k = 0; k < t.path_.size(); ++k) { w.want.push_back({i, d, k, static_cast<u32>(t.path_[k]), anchor + sh + (k == 0 ? p.dep : p.ms[k - 1])}); }
      w.trips[{i, anchor}] = {b, static_cast<u32>(w.want.size())};
    }
  }
  note("%u trains, %zu trips, %zu route usages%s", n, w.trips.size(), w.want.size(), lo != 0 ? ", time window" : "");
  for (u32 i = 0; i < n; ++i) { auto const& p = pool[picked[i].first]; note("train %u: template %u, %u routes, leaves %lu, arrives %lu, days %u", i, picked[i].first, static_cast<u32>(p.train.path_.size()), static_cast<unsigned long>(p.dep + picked[i].second), static_cast<unsigned long>(p.arr + picked[i].second), static_cast<u32>(bt.trains_[i].service_days_.count())); }
  w.tt = new tt::timetable(std::move(bt));
  return w;
}
std::string un(usage const& u) { return "train " + std::to_string(u.train) + " day " + std::to_string(u.day) + " route#" + std::to_string(u.k) + " (" + std::to_string(u.route) + ")"; }

// id of each expected usage in the graph, or a violation
std::vector<u32> match_trips(world const& w, sm::ordering_graph const& og) {
  std::vector<u32> id(w.want.size(), 0);
  if (og.trip_to_nodes_.size() != w.trips.size()) {
    for (auto const& [t, r] : w.trips) { if (og.trip_to_nodes_.find(tt::train::trip{t.first, absolute_time{absolute_time::duration{static_cast<u32>(t.second)}}}) == og.trip_to_nodes_.end()) { violation("trip-missing", "the trip of train %u on day %lu runs within the window but is not ordered", t.first, static_cast<unsigned long>(t.second / DAY - DAY0)); } }
    violation("trip-extra", "%zu trips expected, %zu ordered", w.trips.size(), og.trip_to_nodes_.size());
  }
  if (og.nodes_.size() != w.want.size()) { violation("node-count", "%zu route usages, %zu nodes", w.want.size(), og.nodes_.size()); }
  std::vector<bool> used(og.nodes_.size(), false);
  for (auto const& [t, r] : w.trips) {
    auto const trip = tt::train::trip{t.first, absolute_time{absolute_time::duration{static_cast<u32>(t.second)}}};
    if (og.trip_to_nodes_.find(trip) == og.trip_to_nodes_.end()) { violation("trip-missing", "the trip of train %u on day %lu runs within the window but is not ordered", t.first, static_cast<unsigned long>(t.second / DAY - DAY0)); }
    auto const ns = og.trip_nodes(trip);
    if (ns.size() != r.second - r.first) { violation("trip-nodes", "a trip over %u routes has %zu nodes", r.second - r.first, ns.size()); }
    for (u32 k = 0; k < ns.size(); ++k) {
      auto const& nd = ns[k];
      auto const& u = w.want[r.first + k];
      if (nd.id_ >= og.nodes_.size() || &og.nodes_[nd.id_] != &nd || used[nd.id_] || nd.train_id_ != u.train || nd.ir_id_ != u.route) { violation("node-contents", "node %u of %s: train %u route %u", nd.id_, un(u).c_str(), nd.train_id_, nd.ir_id_); }
      used[nd.id_] = true;
      id[r.first + k] = nd.id_;
    }
  }
  return id;
}
using bits = std::vector<u64>;
struct reach_t { std::vector<bits> r; bool cyclic; bool get(u32 a, u32 b) const { return r[a][b / 64] >> (b % 64) & 1; } };
reach_t reach_of(std::vector<std::vector<u32>> const& out) {
  u32 const n = static_cast<u32>(out.size());
  reach_t x{std::vector<bits>(n, bits(n / 64 + 1, 0)), false};
  std::vector<u32> indeg(n, 0), order;
  for (auto const& o : out) { for (auto b : o) { ++indeg[b]; } }
  for (u32 i = 0; i < n; ++i) { if (!indeg[i]) { order.push_back(i); } }
  for (u32 i = 0; i < order.size(); ++i) { for (auto b : out[order[i]]) { if (!--indeg[b]) { order.push_back(b); } } }
  x.cyclic = order.size() != n;
  for (auto it = order.rbegin(); it != order.rend(); ++it) { for (auto b : out[*it]) { x.r[*it][b / 64] |= 1ULL << (b % 64); for (u32 k = 0; k < x.r[b].size(); ++k) { x.r[*it][k] |= x.r[b][k]; } } }
  return x;
}
std::vector<std::vector<u32>> outs(sm::ordering_graph const& og) {
  std::vector<std::vector<u32>> o;
  for (auto const& n : og.nodes_) { o.emplace_back(n.out_.begin(), n.out_.end()); }
  return o;
}
std::unique_ptr<sm::ordering_graph> build_graph(world const& w, SchedCfg const& s) {
  std::unique_ptr<sm::ordering_graph> og;
  with_sched(s, [&] { og = std::make_unique<sm::ordering_graph>(*base, *w.tt, w.filter); });
  return og;
}

void check_ordering(world const& w) {
  auto const s1 = draw_sched(false, true);
  auto const og = build_graph(w, s1);
  auto const id = match_trips(w, *og);
  u32 const n = static_cast<u32>(id.size());
  if (w.trips.size() > 1) { nontrivial(); }
  auto const o = outs(*og);
  u64 eh = mix(n, w.trips.size());
  for (auto const& x : o) { eh = mix(eh, x.size()); for (auto b : x) { eh = mix(eh, b); } }
  state(eh);
  std::vector<std::vector<u32>> in(n);
  for (u32 a = 0; a < n; ++a) { for (auto b : o[a]) { if (b >= n) { violation("edge-target", "edge to node %u of %u", b, n); } in[b].push_back(a); } }
  for (u32 a = 0; a < n; ++a) {
    std::vector<u32> x(og->nodes_[a].in_.begin(), og->nodes_[a].in_.end()), y = in[a];
    std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    if (x != y) { violation("edges-not-mirrored", "predecessors of node %u [%s], edges to it from [%s]", a, nums(x).c_str(), nums(y).c_str()); }
    if (std::adjacent_find(y.begin(), y.end()) != y.end()) { violation("duplicate-edge", "an edge to node %u is there twice", a); }
  }
  auto const r = reach_of(o);
  if (r.cyclic) {
    auto const c = sm::get_cycle(*og);
    std::string t;
    if (c) { for (auto v : *c) { for (u32 i = 0; i < n; ++i) { if (id[i] == v) { t += " -> " + un(w.want[i]); } } } }
    violation("order-cyclic", "no train of this cycle can ever run:%s", t.c_str());
  }
  std::vector<usage const*> us(n);
  for (u32 i = 0; i < n; ++i) { us[id[i]] = &w.want[i]; }
  auto const same_trip = [&](u32 a, u32 b) { return us[a]->train == us[b]->train && us[a]->day == us[b]->day; };
  for (u32 a = 0; a < n; ++a) {
    for (u32 b = 0; b < n; ++b) {
      if (a == b) { continue; }
      bool const conf = conflict[us[a]->route][us[b]->route];
      if (same_trip(a, b)) {
        if (us[a]->k + 1 == us[b]->k && !r.get(a, b)) { violation("trip-order", "nothing keeps %s before %s", un(*us[a]).c_str(), un(*us[b]).c_str()); }
      } else if (conf && a < b && !r.get(a, b) && !r.get(b, a)) { violation("conflict-unordered", "%s and %s exclude each other but have no order", un(*us[a]).c_str(), un(*us[b]).c_str()); }
      else if (conf && us[a]->from < us[b]->from && !r.get(a, b)) { violation("conflict-misordered", "%s enters at %lu, before %s at %lu, but is ordered behind it", un(*us[a]).c_str(), static_cast<unsigned long>(us[a]->from), un(*us[b]).c_str(), static_cast<unsigned long>(us[b]->from)); }
    }
    for (auto b : o[a]) {
      bool const te = same_trip(a, b) && us[a]->k + 1 == us[b]->k;
      if (!te && (!conflict[us[a]->route][us[b]->route] || us[a]->from > us[b]->from)) { violation("edge-without-reason", "%s must wait for %s", un(*us[b]).c_str(), un(*us[a]).c_str()); }
      for (auto c : o[a]) { if (c != b && r.get(c, b)) { violation("redundant-edge", "the edge from %s to %s is implied by others", un(*us[a]).c_str(), un(*us[b]).c_str()); } }
    }
  }
  // Only pairs of routes that conflict are ordered, apart from what follows.
  auto const s2 = draw_sched(false, true);
  auto const og2 = build_graph(w, s2);
  bool same = og2->nodes_.size() == og->nodes_.size() && og2->trip_to_nodes_ == og->trip_to_nodes_;
  for (u32 a = 0; same && a < n; ++a) { same = outs(*og2)[a] == o[a]; }
  if (!same) { violation("depends-on-workers", "the order built by %u workers differs from the one built by %u", s1.hw, s2.hw); }
  if (n < 200 && !sm::has_exclusion_paths(*og, *base)) { violation("check-false-alarm", "has_exclusion_paths denies a complete order"); }
}
void ordering_run() {
  draw_heap();
  check_ordering(draw_world(12));
  if (choose(4) == 3) { check_ordering(draw_world()); }  // another timetable in the same process
}
Reg r_x02("X02", "ordering", prep_o, ordering_run, 3);
Reg r_x02g("X02", "ordering-generated", nullptr, generated<ordering_run>, 1);

// ------------------------------------------------------------ running
void drive_run() {
  draw_heap();
  auto const w = draw_world();
  auto const og = build_graph(w, draw_sched(false, true));
  struct tr { u32 train, day; sm::ordering_node const* at; std::vector<u32> path; u32 k; bool active, done; u64 until; };
  std::vector<tr> ts;
  for (auto const& [t, r] : w.trips) {
    auto const it = og->trip_to_nodes_.find(tt::train::trip{t.first, absolute_time{absolute_time::duration{static_cast<u32>(t.second)}}});
    if (it == og->trip_to_nodes_.end()) { continue; }  // reported by X02
    tr x{t.first, static_cast<u32>(t.second / DAY - DAY0), &og->nodes_[it->second.first], {}, 0, false, false, 0};
    for (u32 i = r.first; i < r.second; ++i) { x.path.push_back(w.want[i].route); }
    ts.push_back(x);
  }
  std::vector<bool> over(og->nodes_.size(), false);
  u64 now = 0, moves = 0;
  u32 const delay_p = choose(4), stall_p = choose(4) == 3 ? 4 : 0;
  note("%zu trips, %zu nodes, delays %u, stalls %u", ts.size(), og->nodes_.size(), delay_p, stall_p);
  if (ts.size() > 1) { nontrivial(); }
  while (true) {
    // trains that may enter their next route do so, in seeded order
    std::vector<u32> can;
    for (u32 i = 0; i < ts.size(); ++i) {
      auto const& t = ts[i];
      if (t.done || t.active) { continue; }
      bool ok = true;
      for (auto p : t.at->in_) { ok = ok && over[p]; }
      if (ok) { can.push_back(i); }
    }
    bool const wait = can.empty() || (choose(3) == 2 && std::any_of(ts.begin(), ts.end(), [](auto const& t) { return t.active; }));
    if (!wait) {
      u32 const i = can[choose(static_cast<u32>(can.size()))];
      auto& t = ts[i];
      if (t.k >= t.path.size()) { violation("overrun", "train %u day %u continues behind its last route", t.train, t.day); }
      if (t.at->train_id_ != t.train || t.at->ir_id_ != t.path[t.k]) { violation("wrong-way", "train %u day %u should enter route %u (its route#%u), the order sends it on with route %u of train %u", t.train, t.day, t.path[t.k], t.k, t.at->ir_id_, t.at->train_id_); }
      for (auto const& q : ts) { if (q.active && conflict[q.path[q.k]][t.path[t.k]]) { violation("conflict-in-use", "train %u day %u enters route %u while train %u day %u uses route %u", t.train, t.day, t.path[t.k], q.train, q.day, q.path[q.k]); } }
      u64 d = 10 + choose(50);
      if (delay_p && choose(8) < delay_p) { d += choose(2000); fault(F_TRAIN_DELAY); }
      if (stall_p && choose(16) < stall_p) { d += 100000; fault(F_TRAIN_STALL); }
      t.active = true;
      t.until = now + d;
      event(mix(i, t.k));
      state(mix(mix(i, t.k), 7));
      if (G_note()) { note("t=%lu train %u day %u enters route %u", static_cast<unsigned long>(now), t.train, t.day, t.path[t.k]); }
      continue;
    }
    tr* next = nullptr;
    for (auto& t : ts) { if (t.active && (!next || t.until < next->until)) { next = &t; } }
    if (!next) { break; }
    now = next->until;
    next->active = false;
    over[next->at->id_] = true;
    ++moves;
    if (next->k + 1 == next->path.size()) { next->done = true; continue; }
    ++next->k;
    if (next->at->out_.empty()) { violation("no-next", "train %u day %u stands behind its route#%u", next->train, next->day, next->k - 1); }
    next->at = &next->at->next(*og);
  }
  for (auto const& t : ts) { if (!t.done) { violation("deadlock", "train %u day %u waits for ever before its route#%u (%u)", t.train, t.day, t.k, t.path[t.k]); } }
  probe(sim::P0, moves);
}
Reg r_t01("T01", "drive", prep_o, drive_run, 3);
Reg r_t01g("T01", "drive-generated", nullptr, generated<drive_run>, 1);

// ------------------------------------------------------------ checkers
void checker_run() {
  draw_heap();
  auto const w = draw_world();
  auto og = build_graph(w, draw_sched(false, true));
  if (og->nodes_.empty()) { discard("no trips"); }
  u32 const n = static_cast<u32>(og->nodes_.size());
  u32 const edits = choose(5);
  for (u32 e = 0; e < edits; ++e) {
    u32 const a = choose(n);
    auto& na = og->nodes_[a];
    if (choose(2) == 0) {
      if (na.out_.empty()) { continue; }
      u32 const k = choose(static_cast<u32>(na.out_.size())), b = na.out_[k];
      na.out_.erase(na.out_.begin() + k);
      auto& in = og->nodes_[b].in_;
      in.erase(std::find(in.begin(), in.end(), a));
      note("without the edge %u -> %u", a, b);
    } else {
      u32 const b = choose(n);
      if (std::find(na.out_.begin(), na.out_.end(), b) != na.out_.end()) { continue; }
      na.out_.push_back(b);
      og->nodes_[b].in_.push_back(a);
      note("with the edge %u -> %u", a, b);
    }
    fault(F_MALFORMED_INPUT);
  }
  // model: shortest distances over one or more edges
  auto const o = outs(*og);
  std::vector<std::vector<u32>> dist(n, std::vector<u32>(n, ~0U));
  u32 shortest = ~0U;
  for (u32 a = 0; a < n; ++a) {
    std::queue<u32> q;
    for (auto b : o[a]) { if (dist[a][b] == ~0U) { dist[a][b] = 1; q.push(b); } }
    while (!q.empty()) { u32 const x = q.front(); q.pop(); for (auto b : o[x]) { if (dist[a][b] == ~0U) { dist[a][b] = dist[a][x] + 1; q.push(b); } } }
    shortest = std::min(shortest, dist[a][a]);
  }
  bool unordered = false;
  for (u32 a = 0; a < n; ++a) { for (u32 b = a + 1; b < n; ++b) {
    auto const &x = og->nodes_[a], &y = og->nodes_[b];
    bool clique = false;
    for (auto s : (*base)->exclusion_.irs_to_exclusion_sets_[x.ir_id_]) { auto const& z = (*base)->exclusion_.exclusion_sets_[s]; clique = clique || std::find(z.begin(), z.end(), y.ir_id_) != z.end(); }
    unordered = unordered || (clique && dist[a][b] == ~0U && dist[b][a] == ~0U);
  } }
  nontrivial();
  state(mix(mix(n, shortest), unordered));
  auto const c = sm::get_cycle(*og);
  if (c.has_value() != (shortest != ~0U)) { violation(c ? "cycle-false-alarm" : "cycle-missed", "a graph %s cycle, get_cycle finds %s", shortest == ~0U ? "without" : "with", c ? "one" : "none"); }
  if (c) {
    if (c->size() != shortest) { violation("cycle-not-shortest", "the shortest cycle has %u edges, %zu reported", shortest, c->size()); }
    std::set<u32> uniq(c->begin(), c->end());
    bool ok = uniq.size() == c->size();
    u32 rot = 0, match = 0;
    for (rot = 0; rot < 1; ++rot) { for (u32 i = 0; i < c->size(); ++i) { u32 const x = (*c)[i], y = (*c)[(i + 1) % c->size()]; match += dist[x][y] == 1; } }
    if (!ok || match != c->size()) { violation("cycle-not-a-cycle", "nodes [%s] are not a cycle in their order", nums({c->begin(), c->end()}).c_str()); }
  }
  auto const cs = sm::get_cycles(*og);
  u32 on = 0;
  for (u32 a = 0; a < n; ++a) { on += dist[a][a] != ~0U; }
  if (cs.size() != on) { violation("cycles-count", "%u nodes lie on a cycle, %zu cycles found", on, cs.size()); }
  bool const hp = sm::has_exclusion_paths(*og, *base);
  if (hp == unordered) { violation(hp ? "unordered-missed" : "check-false-alarm", "%s conflicting usages without an order, has_exclusion_paths says %d", unordered ? "with" : "without", hp); }
}
Reg r_t02("T02", "checkers", prep_o, checker_run, 3);
Reg r_t02g("T02", "checkers-generated", nullptr, generated<checker_run>, 1);
}  // namespace
