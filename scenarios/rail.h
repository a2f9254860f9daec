// Shared by the scenarios on infrastructure and trains: the real "small"
// infrastructure, an independent model of which routes conflict, and a pool of
// trains that run on it.
#pragma once
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "soro/infrastructure/exclusion/exclusion_elements.h"
#include "soro/infrastructure/exclusion/get_exclusion.h"
#include "soro/infrastructure/infrastructure.h"
#include "soro/runtime/runtime.h"
#include "soro/timetable/timetable.h"

#include "core.h"
#include "gen.h"

namespace rail {
using namespace soro;
using namespace soro::infra;
using ids = std::vector<sim::u32>;

inline infrastructure* base;                       // parsed once, before the runs
inline std::vector<std::set<sim::u32>> closed;     // route -> elements it locks (model)
inline std::vector<std::vector<bool>> conflict;    // model of the exclusion relation
inline std::string repo_dir() { return REPO_DIR; }

inline bool locks(element::ptr const e) { return e->joins_tracks() || interlocking_route::valid_ends().contains(e->type()); }

// The elements a route locks: in each section it uses, everything between the
// first and the last element it passes there.
inline std::set<sim::u32> model_closed(interlocking_route const& r, infrastructure const& infra) {
  std::vector<element::ptr> es;
  for (auto const& rn : r.iterate(infra)) { es.push_back(rn.node_->element_); }
  std::set<sim::u32> secs;
  for (auto e : es) { if (e->is_track_element()) { secs.insert(infra->graph_.element_id_to_section_ids_[e->id()].front()); } }
  std::set<sim::u32> out;
  for (auto s : secs) {
    auto const& o = infra->graph_.sections_[s].rising_order_;
    long lo = -1, hi = -1;
    for (long i = 0; i < static_cast<long>(o.size()); ++i) {
      if (std::find(es.begin(), es.end(), o[static_cast<std::size_t>(i)]) != es.end()) { if (lo < 0) { lo = i; } hi = i; }
    }
    for (long i = lo; i >= 0 && i <= hi; ++i) { auto e = o[static_cast<std::size_t>(i)]; if (locks(e)) { out.insert(e->id()); } }
  }
  return out;
}
inline bool share(std::set<sim::u32> const& a, std::set<sim::u32> const& b) {
  for (auto x : a) { if (b.count(x)) { return true; } }
  return false;
}
// the model of the exclusion relation for the infrastructure in use
inline void model_conflicts() {
  auto const& routes = (*base)->interlocking_.routes_;
  closed.assign(routes.size(), {});
  for (auto const& r : routes) { closed[r.id_] = model_closed(r, *base); }
  std::vector<sim::u32> first, last;
  for (auto const& r : routes) { first.push_back(r.first_node(*base)->id_); last.push_back(r.last_node(*base)->id_); }
  conflict.assign(routes.size(), std::vector<bool>(routes.size(), false));
  for (auto const& a : routes) {
    for (auto const& b : routes) {
      bool const joint = last[a.id_] == first[b.id_] || last[b.id_] == first[a.id_];
      conflict[a.id_][b.id_] = !joint && share(closed[a.id_], closed[b.id_]);
    }
  }
}
inline void load(bool with_exclusion) {
  if (base) { return; }
  auto o = make_infra_opts(repo_dir() + "/resources/infrastructure/small", "");
  o.layout_ = false;
  o.exclusions_ = with_exclusion;
  base = new infrastructure(o);
  model_conflicts();
}
// A generated infrastructure instead, imported without faults. Its exclusion
// sets are cliques that cover every conflict, and every route is in one.
inline gen::world load_generated(gen::size const& z, bool with_exclusion) {
  auto w = gen::draw_world(z);
  if (w.too_many) { sim::discard("too many interlocking routes"); }
  gen::write_files(w);
  std::string const dir = "/simfs/net/gen";
  for (auto const& [n, c] : w.files) { sim::disk::put(dir + "/" + n, c); }
  auto o = make_infra_opts(dir, "");
  o.layout_ = false;
  o.exclusions_ = false;
  base = new infrastructure(o);
  auto const n = static_cast<sim::u32>((*base)->interlocking_.routes_.size());
  if (n == 0) { sim::discard("no interlocking routes"); }
  model_conflicts();
  if (!with_exclusion) { return w; }
  std::vector<ids> sets;
  std::vector<std::vector<bool>> done(n, std::vector<bool>(n, false));
  std::vector<bool> in(n, false);
  for (sim::u32 a = 0; a < n; ++a) {
    for (sim::u32 b = a + 1; b < n; ++b) {
      if (!conflict[a][b] || done[a][b]) { continue; }
      ids c{a, b};
      for (sim::u32 x = 0; x < n; ++x) { if (x != a && x != b && std::all_of(c.begin(), c.end(), [&](auto y) { return conflict[x][y]; })) { c.push_back(x); } }
      std::sort(c.begin(), c.end());
      for (auto x : c) { in[x] = true; for (auto y : c) { done[x][y] = true; } }
      sets.push_back(c);
    }
  }
  for (sim::u32 a = 0; a < n; ++a) { if (!in[a]) { sets.push_back({a}); } }
  std::string f;
  for (auto const& c : sets) { for (std::size_t i = 0; i < c.size(); ++i) { f += (i ? " " : "") + std::to_string(c[i]); } f += "\n"; }
  sim::disk::put(dir + "/exclusion_sets", f);
  o.exclusions_ = true;
  base = new infrastructure(o);
  return w;
}

struct tmpl {
  tt::train train;
  std::vector<sim::u32> ms;   // arrival at each main signal, relative to the day
  sim::u32 dep, arr;
};
inline std::vector<tmpl> pool;

struct lcg { sim::u64 x = 88172645463325252ULL; sim::u32 operator()(sim::u32 n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return static_cast<sim::u32>((x >> 16) % n); } };
inline long halt_in(interlocking_route const& r, rs::FreightTrain const f, station_route::id& sr, infrastructure const& infra) {
  for (auto const& sp : r.iterate_station_routes(*infra)) {
    auto const h = sp.station_route_->get_halt_idx(f);
    if (h.has_value() && sp.contains(*h)) { sr = sp.station_route_->id_; return static_cast<long>(*h); }
  }
  return -1;
}
inline void fill_pool(std::size_t n, int max_tries, sim::u32 max_want, lcg rnd) {
  auto const& infra = *base;
  auto const& il = infra->interlocking_;
  std::vector<rs::traction_vehicle> tvs;
  for (auto const& [k, s] : infra->rolling_stock_.train_series_) { for (auto const& [v, tv] : s.variants_) { tvs.push_back(tv); } }
  if (tvs.empty()) { return; }
  for (int tries = 0; tries < max_tries && pool.size() < n; ++tries) {
    tmpl t;
    auto const f = rnd(4) == 0 ? rs::FreightTrain::YES : rs::FreightTrain::NO;
    auto const& first = il.routes_[rnd(static_cast<sim::u32>(il.routes_.size()))];
    station_route::id sr = 0;
    if (halt_in(first, f, sr, infra) < 0) { continue; }
    std::vector<sim::u32> path{first.id_};
    std::size_t const want = 2 + rnd(max_want);
    bool ends = false;
    while (path.size() < 12) {
      auto const& r = il.routes_[path.back()];
      auto const& nx = il.starting_at_[r.last_node(infra)->id_];
      if (nx.empty() || !r.ends_on_ms(infra)) { break; }
      path.push_back(nx[rnd(static_cast<sim::u32>(nx.size()))]);
      ends = halt_in(il.routes_[path.back()], f, sr, infra) >= 0;
      if (ends && path.size() >= want) { break; }
    }
    while (!ends && path.size() > 2) { path.pop_back(); ends = halt_in(il.routes_[path.back()], f, sr, infra) >= 0; }
    if (!ends) { continue; }
    t.train.break_in_ = t.train.break_out_ = false;
    sim::u32 tm = 3600;
    for (std::size_t i = 0; i < path.size(); ++i) {
      t.train.path_.emplace_back(path[i]);
      if (halt_in(il.routes_[path[i]], f, sr, infra) < 0) { continue; }
      bool const edge = i == 0 || i + 1 == path.size();
      if (!edge && rnd(2) == 0) { continue; }
      tt::sequence_point sp;
      sp.type_ = tt::sequence_point::type::PASSENGER;
      sp.arrival_ = relative_time{tm};
      sp.departure_ = relative_time{tm + rnd(3) * 60};
      sp.min_stop_time_ = duration2{rnd(3) * 30};
      sp.station_route_ = sr;
      if (i == 0) { sp.arrival_ = sp.departure_; }
      tm = static_cast<sim::u32>(sp.departure_.count()) + 100 + rnd(200);
      t.train.sequence_points_.emplace_back(sp);
    }
    soro::vector<rs::traction_vehicle> v;
    v.emplace_back(tvs[rnd(static_cast<sim::u32>(tvs.size()))]);
    t.train.physics_ = rs::train_physics{v, si::from_ton(static_cast<si::precision>(50 + rnd(300))), si::from_m(static_cast<si::precision>(rnd(300))), si::from_km_h(static_cast<si::precision>(60 + rnd(140))), rs::CTC::NO, f};
    try {
      auto const all = runtime::runtime_calculation(t.train, infra, {type::MAIN_SIGNAL, type::HALT});
      sim::u32 last = 0;
      bool ok = true;
      for (auto const& x : all.times_) {
        auto const a = static_cast<sim::u32>(x.arrival_.count());
        if (x.element_->is(type::MAIN_SIGNAL)) { t.ms.push_back(a); if (a < last) { ok = false; } last = a; }
      }
      if (!ok || t.ms.size() + 1 != path.size() || all.times_.empty()) { continue; }
      auto const end = static_cast<sim::u32>(all.times_.back().arrival_.count());
      t.dep = static_cast<sim::u32>(t.train.sequence_points_.front().departure_.count());
      if (end < last || t.ms.front() < t.dep) { continue; }
      t.train.sequence_points_.back().arrival_ = relative_time{end};
      t.train.sequence_points_.back().departure_ = relative_time{end};
      t.arr = end;
    } catch (std::exception const&) { continue; }
    pool.push_back(std::move(t));
  }
}
inline void make_pool(std::size_t n) {
  if (!pool.empty()) { return; }
  fill_pool(n, 20000, 7, {});
  if (pool.size() < 20) { fprintf(stderr, "pool of trains is too small: %zu\n", pool.size()); exit(2); }
}
}  // namespace rail
