// Running times of trains: of every recorded element, in order, within the
// timetable, the limits and what the train can do.
#include "rail.h"

#include <cmath>

#include "soro/runtime/interval.h"

using namespace sim;
using namespace rail;
namespace si = soro::si;

namespace {
double m_s(si::speed s) { return static_cast<double>(s.val_); }
struct piece { double from; double limit; };   // m, m/s
struct stop { u32 sr; u32 node; u32 arr, dep, min; };
// What moves a train, told apart from how the code keeps it.
struct train_model {
  double vmax = 1e9, weight, decel;
  std::vector<rs::traction_vehicle> vs;
  double force(double v) const {
    double f = 0;
    for (auto const& x : vs) { f += static_cast<double>(x.tractive_curve_(si::speed{static_cast<si::precision>(v)}).val_) - static_cast<double>(x.resistance_curve_(si::speed{static_cast<si::precision>(v)}).val_); }
    return f;
  }
};
struct job {
  tt::train train;
  train_model model;
  soro::runtime::timestamps got;
  bool threw = false, oom = false;
  std::string what;
};
struct at { node::ptr n; double d; bool omitted; long stop; };
struct want {
  std::vector<at> nodes;             // from the first to the last halt
  std::vector<piece> limit;
  u32 borders = 0;
  std::vector<double> border;        // where the limits and stops are looked at
};

bool affects(speed_limit const& s) { return s.type_ == speed_limit::type::GENERAL_ALLOWED && m_s(s.limit_) > 0 && (s.effects_ == speed_limit::effects::ALL || s.effects_ == speed_limit::effects::CONVENTIONAL); }

// A train over connected interlocking routes, stopping at the first and last
// halt and some between.
bool draw_train(tt::train& t, std::vector<stop>& stops, train_model& m) {
  auto const& infra = *base;
  auto const& il = infra->interlocking_;
  auto const f = choose(4) == 3 ? rs::FreightTrain::YES : rs::FreightTrain::NO;
  u32 const nr = static_cast<u32>(il.routes_.size());
  station_route::id sr = 0;
  u32 first = choose(nr);
  for (u32 i = 0; i < nr && halt_in(il.routes_[first], f, sr, infra) < 0; ++i) { first = (first + 1) % nr; }
  std::vector<u32> path{first};
  u32 const want = 1 + choose(8);
  while (path.size() < 14 && path.size() < want) {
    auto const& r = il.routes_[path.back()];
    auto const& nx = il.starting_at_[r.last_node(infra)->id_];
    if (nx.empty() || !r.ends_on_ms(infra)) { break; }
    path.push_back(nx[choose(static_cast<u32>(nx.size()))]);
  }
  struct h { u32 at; station_route::id sr; u32 node; };
  std::vector<h> hs;
  for (u32 i = 0; i < path.size(); ++i) {
    auto const& r = il.routes_[path[i]];
    bool one = false;
    for (auto const& sp : r.iterate_station_routes(*infra)) {
      auto const x = sp.station_route_->get_halt_idx(f);
      if (x.has_value() && sp.contains(*x) && !one && std::count(sp.station_route_->omitted_nodes_.begin(), sp.station_route_->omitted_nodes_.end(), *x) == 0) { hs.push_back({i, sp.station_route_->id_, sp.station_route_->nodes(*x)->id_}); one = true; }
    }
  }
  while (!hs.empty() && hs.back().at + 1 < path.size()) { path.pop_back(); }
  // the same halt twice would be one stop
  std::vector<h> us;
  for (auto const& x : hs) { if (us.empty() || us.back().node != x.node) { us.push_back(x); } }
  if (us.size() < 2 || us.front().at != 0 || us.back().at + 1 != path.size()) { return false; }
  // a node is passed once
  std::set<u32> seen;
  for (u32 i = 0; i < path.size(); ++i) { u32 k = 0; for (auto const& rn : il.routes_[path[i]].iterate(infra)) { if (!(i > 0 && k == 0) && !seen.insert(rn.node_->id_).second) { return false; } ++k; } }
  for (auto p : path) { t.path_.emplace_back(p); }
  t.break_in_ = t.break_out_ = false;
  u32 tm = choose(86400);
  for (u32 i = 0; i < us.size(); ++i) {
    bool const edge = i == 0 || i + 1 == us.size();
    if (!edge && choose(2)) { continue; }
    tt::sequence_point sp;
    sp.type_ = choose(2) ? tt::sequence_point::type::PASSENGER : tt::sequence_point::type::OPERATIONS;
    stop s{us[i].sr, us[i].node, tm, tm + choose(4) * 45, choose(4) * 35};
    sp.arrival_ = relative_time{s.arr}; sp.departure_ = relative_time{s.dep}; sp.min_stop_time_ = duration2{s.min}; sp.station_route_ = s.sr;
    t.sequence_points_.emplace_back(sp);
    stops.push_back(s);
    tm = s.dep + choose(600);
  }
  std::vector<rs::traction_vehicle> tvs;
  for (auto const& [k, s] : infra->rolling_stock_.train_series_) { for (auto const& [v, tv] : s.variants_) { tvs.push_back(tv); } }
  if (tvs.empty()) { return false; }
  soro::vector<rs::traction_vehicle> v;
  for (u32 i = 0, n = 1 + choose(2); i < n; ++i) { v.emplace_back(tvs[choose(static_cast<u32>(tvs.size()))]); }
  double const tons = 50 + choose(1500), len = choose(700), kmh = 30 + choose(200);
  for (auto const& x : v) { m.vs.push_back(x); m.vmax = std::min(m.vmax, m_s(x.max_speed_)); }
  m.vmax = std::min(m.vmax, kmh / 3.6);
  m.weight = static_cast<double>(si::from_ton(static_cast<si::precision>(tons)).val_);
  m.decel = -static_cast<double>(v.front().deacceleration_.val_);
  t.physics_ = rs::train_physics{v, si::from_ton(static_cast<si::precision>(tons)), si::from_m(static_cast<si::precision>(len)), si::from_km_h(static_cast<si::precision>(kmh)), rs::CTC::NO, f};
  return true;
}

want model(tt::train const& t, std::vector<stop> const& stops) {
  auto const& infra = *base;
  auto const& il = infra->interlocking_;
  want w;
  std::vector<route_node> all;
  for (u32 i = 0; i < t.path_.size(); ++i) { u32 k = 0; for (auto const& rn : il.routes_[t.path_[i]].iterate(infra)) { if (i == 0 || k > 0) { all.push_back(rn); } ++k; } }
  u32 lo = 0, hi = 0;
  for (u32 i = 0; i < all.size(); ++i) { if (all[i].node_->id_ == stops.front().node) { lo = i; } if (all[i].node_->id_ == stops.back().node) { hi = i; } }
  // the limit in force at the start is the last one behind it
  double init = -1;
  {
    auto const sr = infra->station_routes_[stops.front().sr];
    u32 at = 0;
    for (u32 i = 0; i < sr->nodes().size(); ++i) { if (sr->nodes(i)->id_ == stops.front().node) { at = i; } }
    for (u32 i = at + 1; i-- > 0 && init < 0;) { auto const n = sr->nodes(i); if (n->is(type::SPEED_LIMIT)) { auto const& s = infra->graph_.element_data<speed_limit>(n); if (affects(s)) { init = m_s(s.limit_); } } }
    std::set<u32> been;
    for (auto n = sr->nodes().front(); init < 0 && n->reverse_ahead() != nullptr && been.insert(n->id_).second; n = n->reverse_ahead()) { if (n->is(type::SPEED_LIMIT)) { auto const& s = infra->graph_.element_data<speed_limit>(n); if (affects(s)) { init = m_s(s.limit_); } } }
    if (init < 0) { init = m_s(infra->defaults_.stationary_speed_limit_); }
  }
  w.limit.push_back({0, init});
  double d = 0, ms = 0, border = -1;
  bool shared = false, stops_since = false;  // the signal shares its place with another border, the train stopped since
  u32 k = 0;
  for (u32 i = lo; i <= hi; ++i) {
    auto const& rn = all[i];
    if (i > lo) {
      auto const a = all[i - 1].node_->element_, b = rn.node_->element_;
      if (a != b) { d += std::abs(static_cast<double>(si::as_m(a->get_km(b) - b->get_km(a)))); }
    }
    long s = -1;
    if (k < stops.size() && rn.node_->id_ == stops[k].node) { s = k++; }
    bool const omit = rn.omitted_ || (rn.node_->is(type::HALT) && s < 0);  // halts the train does not use
    w.nodes.push_back({rn.node_, d, omit, s});
    if (omit) { continue; }
    speed_limit const *here = nullptr, *last = nullptr;
    auto const take = [&](speed_limit const* x) { if (affects(*x)) { (x->poa_ == speed_limit::poa::HERE ? here : last) = x; } };
    if (rn.node_->is(type::SPEED_LIMIT)) { take(&infra->graph_.element_data<speed_limit>(rn.node_)); }
    if (rn.extra_spl_.has_value()) { take(&**rn.extra_spl_); }
    if (last) {
      probe(sim::P2); if (ms < d && m_s(last->limit_) < w.limit.back().limit) { probe(sim::P3); }
      // as long as the limit at the last signal holds
      if (shared && stops_since) { probe(sim::P4); }
      u32 j = 0;
      while (j + 1 < w.limit.size() && w.limit[j + 1].from <= ms) { ++j; }
      double const old = w.limit[j].limit;
      if (w.limit[j].from < ms) { w.limit.insert(w.limit.begin() + j + 1, {ms, old}); ++j; }
      while (j < w.limit.size() && w.limit[j].limit == old) { w.limit[j++].limit = m_s(last->limit_); }
    }
    if (here) { w.limit.push_back({d, m_s(here->limit_)}); }
    if (rn.node_->is(type::MAIN_SIGNAL)) { shared = border == d; stops_since = false; ms = d; }
    if (here || rn.node_->is(type::MAIN_SIGNAL) || rn.node_->is(type::HALT)) { border = d; }
    if (rn.node_->is(type::MAIN_SIGNAL) && shared) { probe(sim::P5); }
    if (s > 0 && i < hi) { probe(sim::P6); if (shared) { probe(sim::P7); } }
    if (s > 0 && d > ms) { stops_since = true; }
    if (here || rn.node_->is(type::MAIN_SIGNAL) || rn.node_->is(type::HALT)) { ++w.borders; if (w.border.empty() || w.border.back() != d) { w.border.push_back(d); } }
  }
  return w;
}
// The places and limits of what the train passes, drawn anew. The run owns a
// copy of the infrastructure (it is a process of its own).
void redraw(tt::train const& t) {
  auto const& infra = *base;
  node::ptr prev = nullptr;
  for (auto r : t.path_) {
    for (auto const& rn : infra->interlocking_.routes_[r].iterate(infra)) {
      auto const n = rn.node_;
      auto const track = [](node::ptr x) { return x->element_->is_directed_track_element(); };
      if (prev != nullptr && prev != n && track(prev) && track(n) && choose(3) == 2) {
        auto& a = const_cast<track_element&>(prev->element_->as<track_element>());
        auto& b = const_cast<track_element&>(n->element_->as<track_element>());
        if (a.line_ == b.line_) { b.km_ = a.km_; }
      }
      if (n->is(type::SPEED_LIMIT) && choose(3)) {
        auto& s = const_cast<speed_limit&>(infra->graph_.element_data<speed_limit>(n));
        s.type_ = choose(8) == 7 ? speed_limit::type::SPECIAL_ALLOWED : speed_limit::type::GENERAL_ALLOWED;
        s.limit_ = si::from_km_h(static_cast<si::precision>(10 + 5 * choose(40)));
        s.poa_ = choose(2) ? speed_limit::poa::LAST_SIGNAL : speed_limit::poa::HERE;
        s.effects_ = static_cast<speed_limit::effects>(std::max<int>(0, static_cast<int>(choose(6)) - 3) % 3);
      }
      prev = n;
    }
  }
}
// no two stops at one place
bool apart(want const& w) {
  double last = -1;
  for (auto const& x : w.nodes) { if (x.stop >= 0) { if (x.d == last) { return false; } last = x.d; } }
  return true;
}
// the shortest time between two places
double least(want const& w, double a, double b, double vmax) {
  double t = 0;
  for (u32 i = 0; i < w.limit.size(); ++i) {
    double const lo = std::max(a, w.limit[i].from), hi = std::min(b, i + 1 < w.limit.size() ? w.limit[i + 1].from : 1e18);
    if (hi > lo) { t += (hi - lo) / std::min(w.limit[i].limit * 1.0101, vmax * 1.0101); }
  }
  return t;
}
// The course of a train that, from border to border, gathers speed as its
// forces allow until it runs as fast as it may, keeps that speed, and slows
// down to what it may have at the border. Where it could not slow down in time,
// it may only run as fast as lets it.
struct course {
  struct leg { double from, to, t0, t1; std::vector<std::pair<double, double>> pts; };  // (place, time)
  std::vector<leg> legs;
  std::vector<double> arr, dep;   // at the borders
  bool refuses = false;
};
course predict(want const& w, train_model const& m, std::vector<stop> const& stops) {
  course c;
  double const dt = 0.5;
  auto const& b = w.border;
  u32 const n = static_cast<u32>(b.size());
  std::vector<double> lim(n, 0), target(n, 0);      // of the leg to border i, at border i
  std::vector<long> stop_at(n, -1);
  auto const in_force = [&](double d) { double l = w.limit.front().limit; for (auto const& x : w.limit) { if (x.from <= d) { l = x.limit; } } return l; };
  for (u32 i = 0; i < n; ++i) { for (auto const& x : w.nodes) { if (x.stop >= 0 && x.d == b[i]) { stop_at[i] = x.stop; } } }
  for (u32 i = 1; i < n; ++i) { lim[i] = std::min(in_force(b[i - 1]), m.vmax); }
  auto const way = [&](double v, double to) { return (v * v - to * to) / (2 * m.decel); };
  for (bool again = true; again;) {
    again = false;
    for (u32 i = 1; i < n; ++i) {
      double const to = stop_at[i] >= 0 ? 0 : i + 1 < n ? lim[i + 1] : 0, len = b[i] - b[i - 1];
      if (lim[i] <= to || way(lim[i], to) <= len) { continue; }
      double v = lim[i] - 1;
      while (v > to && way(v, to) >= len) { v -= 1; }
      lim[i] = std::max(v, to);
      if (lim[i] <= 0) { c.refuses = true; return c; }
      again = true;
    }
  }
  double t = 0, v = 0;
  c.arr.push_back(0); c.dep.push_back(0);
  for (u32 i = 1; i < n; ++i) {
    double const len = b[i] - b[i - 1], to = stop_at[i] >= 0 ? 0 : i + 1 < n ? lim[i + 1] : 0;
    course::leg g{b[i - 1], b[i], t, t, {}};
    struct p { double t, d, v; };
    std::vector<p> acc;
    if (v < lim[i]) {
      p x{0, 0, v};
      acc.push_back(x);
      while (x.v < lim[i] && x.d < len) {
        double const u = x.v + m.force(x.v) / (m.weight * 1.06) * dt;
        if (u <= 0) { c.refuses = true; return c; }
        x.d += (x.v + u) / 2 * dt; x.v = u; x.t += dt;
        acc.push_back(x);
      }
      if (acc.back().d > len) { acc.pop_back(); if (acc.size() > 1) { acc.back().d = len; } }
    }
    p up = acc.empty() ? p{0, 0, v} : acc.back();
    up.v = std::min(up.v, std::max(lim[i], v));
    double brk = up.v > to ? way(up.v, to) : 0;
    if (brk > len * (1 + 1e-9)) { c.refuses = true; return c; }
    if (!acc.empty() && brk > 0 && up.d + brk >= len) {
      auto k = acc.size();
      if (k < 2) { c.refuses = true; return c; }
      --k;
      do { if (k == 0) { c.refuses = true; return c; } --k; up = acc[k]; brk = up.v > to ? way(up.v, to) : 0; } while (brk > 0 && up.d + brk > len);
      acc.resize(k + 1);
    }
    double const coast = len - up.d - brk;
    double tt = t;
    for (auto const& x : acc) { g.pts.push_back({b[i - 1] + x.d, t + x.t}); }
    tt += up.t;
    if (coast > 1e-9) { if (up.v <= 0) { c.refuses = true; return c; } g.pts.push_back({b[i] - brk, tt + std::ceil(coast / (up.v * dt) - 1e-9) * dt}); tt = g.pts.back().second; }
    if (brk > 0) {
      double const tb = std::ceil((up.v - to) / m.decel / dt - 1e-9) * dt;
      for (double u = dt; u < tb; u += dt) { g.pts.push_back({b[i] - brk + up.v * u - m.decel * u * u / 2, tt + u}); }
      g.pts.push_back({b[i], tt + tb});
      tt += tb; v = to;
    } else { v = up.v; }
    g.t1 = tt;
    c.legs.push_back(g);
    t = tt;
    c.arr.push_back(t);
    if (stop_at[i] >= 0) {
      auto const& s = stops[static_cast<u32>(stop_at[i])];
      long const a = static_cast<long>(stops[0].dep) + static_cast<long>(std::floor(t)), d = std::max<long>(s.dep, a + s.min);
      t += static_cast<double>(d - a);
    }
    c.dep.push_back(t);
  }
  return c;
}
// When the train gets to a place, in seconds after it left.
double when(course const& c, want const& w, double d) {
  for (u32 i = 0; i < w.border.size(); ++i) { if (w.border[i] == d) { return c.arr[i]; } }
  for (auto const& g : c.legs) {
    if (d < g.from || d > g.to) { continue; }
    std::pair<double, double> last{g.from, g.t0};
    for (auto const& x : g.pts) { if (x.first >= d) { return x.first > last.first ? last.second + (x.second - last.second) * (d - last.first) / (x.first - last.first) : x.second; } last = x; }
    return g.t1;
  }
  return c.arr.back();
}
std::string el(node::ptr n) { return n->element_->get_type_str() + " " + std::to_string(n->element_->id()); }

void check(job const& j, std::vector<stop> const& stops, type_set const& record) {
  auto const w = model(j.train, stops);
  std::vector<at> e;
  for (auto const& x : w.nodes) { if (!x.omitted && record.contains(x.n->type())) { e.push_back(x); } }
  if (G_note()) {
    for (auto const& x : w.nodes) { note("%8.0f m %s%s%s", x.d, el(x.n).c_str(), x.omitted ? " (omitted)" : "", x.stop >= 0 ? " stop" : ""); }
    for (auto const& x : w.limit) { note("from %.0f m on %.1f km/h", x.from, x.limit * 3.6); }
    for (u32 i = 0; i < stops.size(); ++i) { note("stop %u: arrival %u departure %u at least %u s", i, stops[i].arr, stops[i].dep, stops[i].min); }
    for (auto const& x : j.got.times_) { note("calculated %s %u: %ld to %ld", x.element_->get_type_str().c_str(), x.element_->id(), static_cast<long>(x.arrival_.count()), static_cast<long>(x.departure_.count())); }
  }
  if (G_note()) { for (auto const& iv : soro::runtime::get_interval_list(j.train, record, *base)) { note("interval to %.0f m: %.1f %.1f km/h%s", static_cast<double>(si::as_m(iv.distance_)), m_s(iv.limit_left_) * 3.6, m_s(iv.limit_right_) * 3.6, iv.is_halt() ? " halt" : ""); for (auto const& e : iv.events_) { note("   %s %.0f", el(e.node_).c_str(), static_cast<double>(si::as_m(e.distance_))); } } for (auto const& tn : j.train.iterate(*base)) { note("train node %s %d", el(tn.node_).c_str(), tn.omitted()); } }
  if (e.size() != j.got.times_.size()) { violation("elements", "%zu elements to record on the way, %zu times calculated", e.size(), static_cast<std::size_t>(j.got.times_.size())); }
  course c;
  try { c = predict(w, j.model, stops); } catch (std::exception const&) { c.refuses = true; }
  std::vector<u32> halts;
  double const vmax = m_s(j.train.physics_.max_speed());
  double from_d = 0;
  long from_t = stops.front().dep;
  u32 k = 0;
  long standing = -1;
  for (u32 i = 0; i < e.size(); ++i) {
    auto const& g = j.got.times_[i];
    long const arr = static_cast<long>(g.arrival_.count()), dep = static_cast<long>(g.departure_.count());
    if (g.element_ != e[i].n->element_) { violation("elements", "the %u. time is of %s, the train passes %s", i, g.element_->get_type_str().c_str(), el(e[i].n).c_str()); }
    if (e[i].n->is(type::HALT)) { halts.push_back(i); }
    if (e[i].stop >= 0) { standing = e[i].stop; }
    // the stop at this place, if any
    long here = -1;
    for (u32 s = 0; s < stops.size(); ++s) { for (auto const& x : w.nodes) { if (x.stop == static_cast<long>(s) && x.d == e[i].d) { here = s; } } }
    if (e[i].stop == 0) { if (arr != stops[0].dep || dep != stops[0].dep) { violation("departure", "the train leaves at %u, calculated %ld to %ld", stops[0].dep, arr, dep); } }
    else if (e[i].stop > 0) {
      auto const& s = stops[static_cast<u32>(e[i].stop)];
      long const d = std::max<long>(s.dep, arr + s.min);
      if (dep != d) { violation("stop", "arriving at %ld, stopping %u s, leaving at %u or later: leaves at %ld", arr, s.min, s.dep, dep); }
    } else if (arr != dep && here < 0) { violation("stop", "%s is passed at %ld, left at %ld, but there is no stop", el(e[i].n).c_str(), arr, dep); }
    if (i > 0) {
      auto const& p = j.got.times_[i - 1];
      if (g.arrival_ < p.arrival_ || g.departure_ < p.departure_ || (e[i].d > e[i - 1].d && g.arrival_ < p.departure_)) { violation("order", "%s is passed at %ld to %ld before %s at %ld to %ld", el(e[i].n).c_str(), arr, dep, el(e[i - 1].n).c_str(), static_cast<long>(p.arrival_.count()), static_cast<long>(p.departure_.count())); }
    }
    if (!c.refuses && i > 0) {
      // a second for the rounding of every stop, and what the steps of the calculation lose
      // (what lies where the train stops may be reached before or after the stop)
      double const g0 = static_cast<double>(arr - static_cast<long>(stops[0].dep));
      double t = when(c, w, e[i].d);
      for (u32 q = 0; q < w.border.size(); ++q) { if (w.border[q] == e[i].d && e[i].stop < 0) { t = std::clamp(g0, c.arr[q], c.dep[q]); } }
      double const off = g0 - t, tol = 2 + 1.0 * stops.size() + 0.25 * static_cast<double>(w.border.size());
      if (std::abs(off) > tol) { violation("course", "%s at %.0f m is reached %.1f s after the departure, calculated %ld s", el(e[i].n).c_str(), e[i].d, t, arr - static_cast<long>(stops[0].dep)); }
    }
    double const t = least(w, from_d, e[i].d, vmax);
    if (e[i].d > from_d) { if (static_cast<double>(arr - from_t) < t - 1.1 - 0.55 * w.borders && arr >= 0) { violation("speed", "%.0f m to %s need at least %.1f s within the limits, the train takes %ld s", e[i].d - from_d, el(e[i].n).c_str(), t, arr - from_t); } }
    if (e[i].stop >= 0) { from_d = e[i].d; from_t = dep; k = static_cast<u32>(e[i].stop); }
  }
  (void)k; (void)standing;
  if (std::vector<u32>(j.got.halt_indices_.begin(), j.got.halt_indices_.end()) != halts) { violation("halts", "%zu halts are passed, %zu listed", halts.size(), static_cast<std::size_t>(j.got.halt_indices_.size())); }
}
bool same(job const& a, job const& b) {
  if (a.threw != b.threw || a.what != b.what || a.got.times_.size() != b.got.times_.size()) { return false; }
  for (u32 i = 0; i < a.got.times_.size(); ++i) { auto const &x = a.got.times_[i], &y = b.got.times_[i]; if (x.arrival_ != y.arrival_ || x.departure_ != y.departure_ || x.element_ != y.element_) { return false; } }
  return true;
}

void calculate(job& j, type_set const& record) {
  try { j.got = soro::runtime::runtime_calculation(j.train, *base, record); }
  catch (std::exception const& e) { no_alloc_fail const n; j.threw = true; j.what = e.what(); }
}

void runtime_run() {
  draw_heap();
  static type const types[] = {type::MAIN_SIGNAL, type::HALT, type::APPROACH_SIGNAL, type::SPEED_LIMIT, type::EOTD, type::RUNTIME_CHECKPOINT, type::SIMPLE_SWITCH, type::BORDER, type::SLOPE};
  auto const draw_types = [&] {
    switch (choose(3)) {
      case 0: return type_set{type::MAIN_SIGNAL, type::HALT};
      case 1: return type_set{type::MAIN_SIGNAL, type::HALT, type::APPROACH_SIGNAL, type::SPEED_LIMIT, type::EOTD, type::RUNTIME_CHECKPOINT, type::SIMPLE_SWITCH, type::BORDER, type::SLOPE, type::CROSS, type::LINE_SWITCH};
      default: { auto const t = [&] { return types[choose(9)]; }; auto const x = t(), y = t(), z = t(); return type_set{x, y, z}; }
    }
  };
  auto const record = draw_types();
  std::vector<job> jobs;
  std::vector<std::vector<stop>> stops;
  u32 const n = 1 + choose(5);
  for (u32 tries = 0; tries < 12 && jobs.size() < n; ++tries) {
    job j; std::vector<stop> s;
    if (draw_train(j.train, s, j.model)) { jobs.push_back(std::move(j)); stops.push_back(std::move(s)); }
  }
  if (choose(4)) { for (auto const& j : jobs) { redraw(j.train); } }
  for (u32 i = 0; i < jobs.size();) { if (apart(model(jobs[i].train, stops[i]))) { ++i; continue; } jobs.erase(jobs.begin() + i); stops.erase(stops.begin() + i); }
  if (jobs.empty()) { discard("no trains"); }
  nontrivial();
  auto alone = jobs;
  u64 const alloc = choose(6) == 5 ? 1 + choose(400) : 0;
  // all at once
  auto const s = draw_sched(false, false);
  with_sched(s, [&] {
    if (alloc) { arm_alloc_fail(alloc); }
    std::vector<std::thread> ts;
    try { no_alloc_fail const na; for (auto& j : jobs) { ts.emplace_back([&] { calculate(j, record); }); } }
    catch (std::system_error const&) {}
    for (auto& t : ts) { t.join(); }
  });
  bool const oom = alloc_fail_fired();
  arm_alloc_fail(0);
  for (u32 i = 0; i < jobs.size(); ++i) {
    calculate(alone[i], record);
    if (alone[i].threw) { probe(sim::P1); if (getenv("SIM_WHY")) { fprintf(stderr, "refused: %s\n", alone[i].what.c_str()); } } else { probe(sim::P0); }
    if (alone[i].threw) {
      course c;
      try { c = predict(model(alone[i].train, stops[i]), alone[i].model, stops[i]); } catch (std::exception const&) { c.refuses = true; }
      if (!c.refuses) { violation("refused", "the train can run, but its times were not calculated: %s", alone[i].what.c_str()); }
    }
    if (!alone[i].threw) { check(alone[i], stops[i], record); }
    if (!same(alone[i], jobs[i]) && !(oom && jobs[i].threw)) { violation("not-reproducible", "the times of a train depend on what is calculated besides"); }
    u64 h = alone[i].threw ? hash_str(alone[i].what) : 1;
    for (auto const& x : alone[i].got.times_) { h = mix(h, mix(x.element_->id(), static_cast<u64>(x.arrival_.count() * 100003 + x.departure_.count()))); }
    state(h);
  }
}
void prep_r() { load(false); }
void generated_run() {
  static gen::size const sizes[] = {{4, 3, 4, 10, 10, 200, true}, {3, 2, 3, 10, 12, 200, true}, {6, 3, 4, 8, 8, 200, true}, {2, 3, 5, 10, 14, 200, true}};
  auto const w = load_generated(sizes[choose(4)], false);
  note("generated infrastructure: %zu stations, %zu station routes, %zu interlocking routes", w.st.size(), w.sr.size(), conflict.size());
  runtime_run();
}
Reg r_r01("R01", "runtime", prep_r, runtime_run, 1);
Reg r_r01g("R01", "runtime-generated", nullptr, generated_run, 1);
}  // namespace
