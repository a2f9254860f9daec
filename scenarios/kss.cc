// Import of KSS timetables: complete, as written, every train accounted for.
#include "kssgen.h"
#include "pugi_mem.h"

#include <mutex>

#include "soro/timetable/parsers/kss/kss_error.h"
#include "soro/timetable/parsers/kss/parse_kss_timetable.h"
#include "soro/timetable/timetable.h"

namespace {
std::mutex log_mutex;
bool log_on = false;
std::vector<std::string> log_lines;
}  // namespace
namespace utl {
void shim_log_sink(int, std::string const& s) {
  std::lock_guard const l{log_mutex};
  if (log_on) { log_lines.push_back(s); }
}
}  // namespace utl

using namespace sim;
using namespace rail;
using namespace kss;

namespace {
// the small infrastructure
void prep_k() {
  load(false);
  find_ways(60000, 250, 40, {});
  if (unique_ways.size() < 50) { fprintf(stderr, "too few ways through the network\n"); exit(2); }
}

struct got_t { bool threw = false; std::string what; std::error_code ec; bool oom = false; tt::base_timetable* bt = nullptr; std::map<std::string, u32> errors; };

got_t import(SchedCfg const& s, u64 alloc_fail, bool via_ctor) {
  got_t g;
  {
    std::lock_guard const l{log_mutex};
    log_on = true; log_lines.clear();
  }
  auto* const opts = new tt::timetable_options{tt::make_timetable_opts("/simfs/tt/plan")};
  with_sched(s, [&] {
    arm_refusal(alloc_fail);
    try {
      if (via_ctor) {
        tt::timetable t{*opts, *base};
        no_alloc_fail n;
        g.bt = new tt::base_timetable(*t);
      } else {
        auto r = tt::try_parsing_timetable(*opts, *base);
        no_alloc_fail n;
        if (r) { g.bt = new tt::base_timetable(**r); } else { g.ec = r.error(); }
      }
    } catch (std::exception const& e) {
      no_alloc_fail n;
      g.threw = true;
      g.what = e.what();
    }
    g.oom = alloc_fail_fired();
    arm_refusal(0);
  });
  delete opts;
  std::lock_guard const l{log_mutex};
  log_on = false;
  bool in = false;
  for (auto const& x : log_lines) {
    if (x.find("error report for [parsing kss timetable]") != std::string::npos) { in = true; continue; }
    auto const c = x.rfind(": ");
    if (in && c != std::string::npos) { g.errors[canonical(x.substr(0, c))] += static_cast<u32>(std::atoi(x.c_str() + c + 2)); }
  }
  return g;
}

std::string days_str(std::set<u32> const& s) { std::string r; for (auto d : s) { r += (r.empty() ? "" : " ") + date_str(d); } return r; }

// Every way of asking for a train's days gives the same days, and a window of time gives the trips running in it.
void queries(want_train const& t, tt::train const& g) {
  auto const& sd = g.service_days_;
  if (t.days.empty()) {
    if (g.trip_count() != 0 || !g.trips().empty()) { violation("trips", "train %u never runs, but has %zu trips", t.main, g.trips().size()); }
    return;
  }
  auto const day_of = [](auto const d) { return static_cast<u32>(d.time_since_epoch() / std::chrono::hours{24}); };
  std::set<u32> walked;
  for (auto const d : sd) { walked.insert(day_of(d)); }
  std::set<u32> trips;
  for (auto const& tp : g.trips()) { if (tp.train_id_ != g.id_) { violation("trips", "a trip of train %u belongs to train %u", t.main, static_cast<u32>(tp.train_id_)); } trips.insert(day_of(tp.anchor_)); }
  if (walked != t.days || trips != t.days || g.trips().size() != t.days.size() || g.trip_count() != t.days.size() || sd.count() != t.days.size() || day_of(sd.first_set_date()) != *t.days.begin() || day_of(sd.last_set_date()) != *t.days.rbegin()) {
    violation("trips", "train %u runs on [%s]: walked [%s], trips [%s], %zu counted, first %s, last %s", t.main, days_str(t.days).c_str(), days_str(walked).c_str(), days_str(trips).c_str(), static_cast<std::size_t>(g.trip_count()), date_str(day_of(sd.first_set_date())).c_str(), date_str(day_of(sd.last_set_date())).c_str());
  }
  long const dep = static_cast<long>(t.points.front().dep), arr = static_cast<long>(t.points.back().arr);
  for (u32 n = choose(3); n != 0; --n) {
    // the ends lie on or next to an event half of the time
    auto const moment = [&]() {
      long const day = choose(3) != 2 ? static_cast<long>(*std::next(t.days.begin(), choose(static_cast<u32>(t.days.size())))) : static_cast<long>(D0) - 25 + choose(choose(2) ? 150 : 560);
      long const at = day * 86400;
      switch (choose(4)) {
        case 0: return at + dep - 1 + static_cast<long>(choose(3));
        case 1: return at + arr - 1 + static_cast<long>(choose(3));
        case 2: return at - 1 + static_cast<long>(choose(3));
        default: return at + static_cast<long>(choose(86400));
      }
    };
    long a = moment(), b = moment();
    if (a > b) { std::swap(a, b); }
    std::set<u32> want, got;
    for (auto d : t.days) { long const m = static_cast<long>(d) * 86400; if (a <= m + arr && m + dep <= b) { want.insert(d); } }
    u32 times = 0;
    for (auto const anchor : g.departures(tt::interval{soro::absolute_time{std::chrono::seconds{a}}, soro::absolute_time{std::chrono::seconds{b}}})) { got.insert(day_of(anchor)); if (++times > 1000) { break; } }
    if (got != want || times != want.size()) { violation("trips-in-window", "train %u runs on [%s] from %ld to %ld s after midnight: between %ld and %ld those of [%s], got %u: [%s]", t.main, days_str(t.days).c_str(), dep, arr, a, b, days_str(want).c_str(), times, days_str(got).c_str()); }
  }
}

// Walking a train: from its first to its last stop along its station routes,
// every stop and passing time at its place.
void walk(want_train const& t, tt::train const& g) {
  auto const& infra = *base;
  struct place { u32 node; bool omitted; u32 point; bool limit; };
  std::vector<place> want;
  std::map<u32, u32> point_of;
  for (u32 k = 0; k < t.points.size(); ++k) { point_of[t.points[k].sr] = k; }
  for (u32 i = 0; i < t.srs.size(); ++i) {
    auto const& sr = *infra->station_routes_[t.srs[i]];
    u32 h = ~0U;
    halt_of(t.srs[i], t.freight, h);
    auto const p = point_of.find(t.srs[i]);
    u32 const at = p == point_of.end() ? ~0U : t.points[p->second].type != 0 ? h : static_cast<u32>(*sr.runtime_checkpoint_);
    u32 const from = i == 0 ? h : 0, to = i + 1 == t.srs.size() ? h + 1 : static_cast<u32>(sr.size());
    for (u32 k = from; k < to; ++k) {
      bool const om = std::find(sr.omitted_nodes_.begin(), sr.omitted_nodes_.end(), k) != sr.omitted_nodes_.end();
      bool const limit = !om && std::any_of(sr.extra_speed_limits_.begin(), sr.extra_speed_limits_.end(), [&](auto const& l) { return l.node_ == sr.nodes()[k]; });
      want.push_back({sr.nodes()[k]->id_, om || (sr.nodes()[k]->is(infra::type::HALT) && k != at), k == at ? p->second : ~0U, limit});
    }
  }
  u32 i = 0;
  for (auto const& x : g.iterate(infra)) {
    if (i >= want.size()) { violation("walk", "train %u visits more than its %zu places", t.main, want.size()); }
    u32 const point = x.sequence_point_.has_value() ? static_cast<u32>(*x.sequence_point_ - g.sequence_points_.data()) : ~0U;
    if (x.node_->id_ != want[i].node || x.omitted() != want[i].omitted || point != want[i].point) {
      violation("walk", "place %u of %zu of train %u is node %u%s with stop %d, walked node %u%s with stop %d", i, want.size(), t.main, want[i].node, want[i].omitted ? " (omitted)" : "", static_cast<int>(want[i].point), x.node_->id_, x.omitted() ? " (omitted)" : "", static_cast<int>(point));
    }
    if (x.extra_spl_.has_value() != want[i].limit) { violation("walk", "place %u of train %u %s an extra speed limit", i, t.main, want[i].limit ? "lost" : "got"); }
    ++i;
  }
  if (i != want.size()) { violation("walk", "train %u visits %u of its %zu places", t.main, i, want.size()); }
  if (g.get_start_node(infra)->id_ != want.front().node) { violation("walk", "train %u starts elsewhere", t.main); }
  if (g.first_station_route(infra)->id_ != t.srs.front() || g.last_station_route(infra)->id_ != t.srs.back()) { violation("walk", "train %u begins or ends on another station route", t.main); }
  double metres = 0;
  for (u32 k = 1; k < want.size(); ++k) {
    auto const a = infra->graph_.nodes_[want[k - 1].node]->element_, b = infra->graph_.nodes_[want[k].node]->element_;
    metres += std::abs(static_cast<double>(si::as_m(a->get_km(b))) - static_cast<double>(si::as_m(b->get_km(a))));
  }
  if (!(std::abs(static_cast<double>(si::as_m(g.path_length(infra))) - metres) <= 1e-3 * (1 + metres))) { violation("path-length", "the way of train %u is %.3f m long, not %.3f", t.main, metres, static_cast<double>(si::as_m(g.path_length(infra)))); }
  u32 halts = 0;
  for (auto const& p : t.points) { halts += p.type != 0 ? 1 : 0; }
  if (g.total_halts() != halts) { violation("halts", "train %u stops %u times, not %u", t.main, halts, static_cast<u32>(g.total_halts())); }
}

void compare(want_all const& w, tt::base_timetable const& bt) {
  std::map<u32, want_train const*> by_number;
  u64 first = ~0ULL, last = 0;
  for (auto const& f : w.files) { for (auto const& t : f.trains) { by_number[t.main] = &t; } }
  std::set<u32> seen;
  u32 prev_in_file = 0;
  (void)prev_in_file;
  for (u32 i = 0; i < bt.trains_.size(); ++i) {
    auto const& g = bt.trains_[i];
    if (g.id_ != i) { violation("train-id", "train %u has the id %u", i, static_cast<u32>(g.id_)); }
    auto const it = by_number.find(g.number_.main_);
    if (it == by_number.end() || !seen.insert(g.number_.main_).second) { violation("train-extra", "train %u/%u is not to be imported%s", g.number_.main_, g.number_.sub_, it == by_number.end() ? "" : " twice"); }
    auto const& t = *it->second;
    if (g.number_.sub_ != t.sub) { violation("train-number", "train %u/%u imported as %u/%u", t.main, t.sub, g.number_.main_, g.number_.sub_); }
    std::set<u32> days;
    for (auto const d : g.service_days_.get_set_days()) { days.insert(static_cast<u32>(d.time_since_epoch().count())); }
    if (days != t.days || (!days.empty() && (static_cast<u32>(g.service_days_.first_date_.time_since_epoch().count()) > *days.begin() || static_cast<u32>(g.service_days_.last_date_.time_since_epoch().count()) < *days.rbegin()))) { violation("service-days", "train %u runs on [%s], imported [%s]", t.main, days_str(t.days).c_str(), days_str(days).c_str()); }
    queries(t, g);
    std::vector<u32> const path(g.path_.begin(), g.path_.end());
    if (path != t.path) { std::string a, b; for (auto x : t.path) { a += std::to_string(x) + " "; } for (auto x : path) { b += std::to_string(x) + " "; } violation("path", "train %u can only use the interlocking routes %simported with %s", t.main, a.c_str(), b.c_str()); }
    if (g.sequence_points_.size() != t.points.size()) { violation("stops", "train %u has %zu stops and passing times, imported %zu", t.main, t.points.size(), static_cast<std::size_t>(g.sequence_points_.size())); }
    for (u32 k = 0; k < t.points.size(); ++k) {
      auto const& a = t.points[k];
      auto const& b = g.sequence_points_[k];
      bool const ok = b.station_route_ == a.sr && (a.arr == ~0U || b.arrival_ == relative_time{a.arr}) && (a.dep == ~0U || b.departure_ == relative_time{a.dep} || (k == 0 && !valid(b.departure_))) && b.min_stop_time_ == duration2{a.stop};
      u32 const ty = b.type_ == tt::sequence_point::type::TRANSIT ? 0 : b.type_ == tt::sequence_point::type::OPERATIONS ? 1 : b.type_ == tt::sequence_point::type::PASSENGER ? 2 : 3;
      if (!ok || ty != a.type) { violation("stop-data", "stop %u of train %u: station route %u arrival %u departure %u minimum stop %u type %u, imported %u %u %u %u %u", k, t.main, a.sr, a.arr, a.dep, a.stop, a.type, static_cast<u32>(b.station_route_), static_cast<u32>(b.arrival_.count()), static_cast<u32>(b.departure_.count()), static_cast<u32>(b.min_stop_time_.count()), ty); }
    }
    walk(t, g);
    if (g.break_in_ || g.break_out_) { violation("break-in", "train %u neither breaks in nor out", t.main); }
    double vmax = t.speed, force = 0, res = 0;
    for (auto s : t.series) {
      auto const tv = (*base)->rolling_stock_.get_traction_vehicle(soro::string{engines[s].nr}, soro::string{engines[s].owner}, engines[s].variant);
      vmax = std::min(vmax, static_cast<double>(si::as_km_h(tv->max_speed_)));
      force += static_cast<double>(tv->tractive_curve_(si::from_km_h(static_cast<si::precision>(30))).val_);
      res += static_cast<double>(tv->resistance_curve_(si::from_km_h(static_cast<si::precision>(30))).val_);
    }
    auto const near = [](double a, double b) { return std::abs(a - b) <= 1e-6 * (1 + std::abs(a)); };
    auto const& p = g.physics_;
    if (p.freight() != t.freight || p.ctc() != rs::CTC::NO || !near(si::as_m(p.length()), t.length) || !near(static_cast<double>(p.weight().val_), static_cast<double>(si::from_ton(static_cast<si::precision>(t.weight)).val_)) ||
        !near(si::as_km_h(p.max_speed()), vmax) || !near(static_cast<double>(p.tractive_force(si::from_km_h(static_cast<si::precision>(30))).val_), force) || !near(static_cast<double>(p.resistive_force(si::from_km_h(static_cast<si::precision>(30))).val_), res)) {
      violation("rolling-stock", "train %u: %s, %g m, %g t, %g km/h, imported %g m, %g km/h", t.main, t.freight == rs::FreightTrain::YES ? "freight" : "passenger", t.length, t.weight, vmax, static_cast<double>(si::as_m(p.length())), static_cast<double>(si::as_km_h(p.max_speed())));
    }
    if (!t.days.empty()) {
      first = std::min<u64>(first, static_cast<u64>(*t.days.begin()) * 86400 + static_cast<u64>(g.sequence_points_.front().departure_.count()));
      last = std::max<u64>(last, static_cast<u64>(*t.days.rbegin()) * 86400 + static_cast<u64>(g.sequence_points_.back().arrival_.count()));
    }
  }
  for (auto const& [n, t] : by_number) { if (!seen.count(n)) { violation("train-missing", "train %u was not imported", n); } }
  // within a file the trains keep their order
  for (auto const& f : w.files) {
    u32 last_pos = 0;
    for (auto const& t : f.trains) {
      u32 pos = 0;
      while (bt.trains_[pos].number_.main_ != t.main) { ++pos; }
      if (pos < last_pos) { violation("train-order", "the trains of %s are out of order", f.name.c_str()); }
      last_pos = pos;
    }
  }
  if (first != ~0ULL && (static_cast<u64>(bt.interval_.start_.time_since_epoch().count()) != first || static_cast<u64>(bt.interval_.end_.time_since_epoch().count()) != last)) {
    violation("interval", "trains run from %lu to %lu, the timetable says %lu to %lu", static_cast<unsigned long>(first), static_cast<unsigned long>(last), static_cast<unsigned long>(bt.interval_.start_.time_since_epoch().count()), static_cast<unsigned long>(bt.interval_.end_.time_since_epoch().count()));
  }
  if (std::string{bt.source_.data(), bt.source_.size()} != "plan") { violation("source", "source is '%s'", std::string(bt.source_.data(), bt.source_.size()).c_str()); }
}
bool same(tt::base_timetable const& a, tt::base_timetable const& b) {
  if (a.trains_.size() != b.trains_.size()) { return false; }
  for (u32 i = 0; i < a.trains_.size(); ++i) { if (!(a.trains_[i].number_ == b.trains_[i].number_)) { return false; } }
  return true;
}
void describe(want_all const& w) {
  if (!G_note()) { return; }
  for (auto const& f : w.files) { note("%s: %zu bytes, %zu trains to import%s", f.name.c_str(), f.xml.size(), f.trains.size(), f.broken ? ", truncated" : ""); }
  for (auto const& d : w.decoys) { note("%s: not a timetable file", d.c_str()); }
  for (auto const& [m, n] : w.errors) { note("%u trains to reject: %s", n, m.c_str()); }
}

void import_run() {
  draw_heap();
  auto const w = draw_timetable();
  put_all(w);
  describe(w);
  disk::Cfg dc;
  dc.dir_order = true;
  disk::arm(dc);
  auto const s1 = draw_sched(false, true);
  bool const ctor = choose(4) == 3;
  auto g = import(s1, 0, ctor);
  auto const broken = std::any_of(w.files.begin(), w.files.end(), [](auto const& f) { return f.broken; });
  if (w.files.empty()) {
    if (g.bt) { violation("no-timetable-accepted", "a directory without a timetable file was imported"); }
    if (!ctor && g.threw) { violation("no-timetable-threw", "no timetable in the directory: %s", g.what.c_str()); }
    return;
  }
  nontrivial();
  if (w.other_version) {
    if (g.bt) { violation("version-accepted", "a timetable for another version of the infrastructure was imported"); }
    if (!broken && !ctor && g.ec != soro::error::make_error_code(soro::error::kss::INFRASTRUCTURE_VERSION_MISMATCH)) { violation("version-error", "timetable for another infrastructure version: %s", g.threw ? g.what.c_str() : g.ec.message().c_str()); }
    return;
  }
  if (broken) {
    if (g.bt) { violation("truncated-accepted", "a timetable with a truncated file or impossible services was imported with %u trains", static_cast<u32>(g.bt->trains_.size())); }
    return;
  }
  if (!g.bt) { violation("import-failed", "importing an intact timetable failed: %s", g.threw ? g.what.c_str() : g.ec.message().c_str()); }
  for (auto const& [m, n] : g.errors) { note("reported: %s: %u", m.c_str(), n); }
  if (G_note()) {
    for (auto const& f : w.files) { for (auto const& t : f.trains) { for (auto const& p : t.points) { note("train %u: station route %u arrival %u departure %u", t.main, p.sr, p.arr, p.dep); } } }
    for (auto const& t : g.bt->trains_) { for (auto const& p : t.sequence_points_) { note("imported %u: station route %u arrival %ld departure %ld", t.number_.main_, static_cast<u32>(p.station_route_), static_cast<long>(p.arrival_.count()), static_cast<long>(p.departure_.count())); } for (auto r : t.path_) { note("imported %u: interlocking route %u", t.number_.main_, static_cast<u32>(r)); } }
  }
  compare(w, *g.bt);
  if (g.errors != w.errors) {
    std::string a, b;
    for (auto const& [m, n] : w.errors) { a += m + ": " + std::to_string(n) + "; "; }
    for (auto const& [m, n] : g.errors) { b += m + ": " + std::to_string(n) + "; "; }
    violation("account", "rejected trains: %s reported: %s", a.c_str(), b.c_str());
  }
  u64 h = mix(w.files.size(), g.bt->trains_.size());
  for (auto const& t : g.bt->trains_) { h = mix(h, mix(t.path_.size(), t.number_.main_)); }
  state(h);
  draw_heap();
  auto const s2 = draw_sched(false, true);
  disk::arm(dc);
  auto g2 = import(s2, 0, false);
  if (!g2.bt || !same(*g.bt, *g2.bt) || g2.errors != g.errors) { violation("not-reproducible", "importing the same timetable again gives other train ids"); }
  delete g.bt; delete g2.bt;
}
Reg r_x03("X03", "import", prep_k, import_run, 3);

void fault_run() {
  draw_heap();
  auto const w = draw_timetable();
  put_all(w);
  describe(w);
  disk::Cfg dc;
  dc.dir_order = true;
  static unsigned const p[] = {4, 16, 64, 1};
  unsigned const q = p[choose(4)];
  u64 alloc = 0;
  bool create_fail = false;
  switch (choose(9)) {
    case 1: dc.open_err = q; break;
    case 2: dc.stat_err = q; break;
    case 3: dc.mmap_err = q; break;
    case 4: dc.readdir_err = q; break;
    case 5: dc.read_err = q; dc.open_err = q / 2; break;
    case 6: alloc = choose(3) == 2 ? IN_PUGI + 1 + choose(24) : 1 + choose(choose(2) ? 60 : 6000); break;
    case 7: create_fail = true; break;
    default: dc.stat_err = dc.open_err = dc.mmap_err = dc.readdir_err = q; break;
  }
  dc.read_short = choose(2) * 30;
  dc.skip = choose(4) * choose(8);
  auto s = draw_sched(create_fail, true);
  allow_failstop(true);
  disk::arm(dc);
  auto g = import(s, alloc, choose(3) == 2);
  bool const hit = disk::injected() > 0 || g.oom || fault_count(F_THREAD_CREATE_FAIL) > 0;
  disk::disarm();
  bool const bad = w.files.empty() || w.other_version || std::any_of(w.files.begin(), w.files.end(), [](auto const& f) { return f.broken; });
  event(mix(g.bt != nullptr, hit));
  if (!w.files.empty()) { nontrivial(); }
  if (g.bt) {
    if (bad) { violation("bad-accepted", "an unusable timetable was imported"); }
    compare(w, *g.bt);
    if (!g.oom && g.errors != w.errors) { violation("account", "the account of rejected trains is incomplete"); }
    state(mix(g.bt->trains_.size(), hit));
    delete g.bt;
  } else {
    if (!bad && !hit) { violation("import-failed", "importing an intact timetable failed: %s", g.threw ? g.what.c_str() : g.ec.message().c_str()); }
    // the working disk afterwards
    auto g2 = import(draw_sched(false, true), 0, false);
    if (!bad && !g2.bt) { violation("no-recovery", "the import still fails after the fault: %s", g2.threw ? g2.what.c_str() : g2.ec.message().c_str()); }
    if (g2.bt) { if (bad) { violation("bad-accepted", "an unusable timetable was imported"); } compare(w, *g2.bt); delete g2.bt; }
    state(hash_str(g.threw ? "threw" : g.ec.message()));
  }
}
Reg r_f04("F04", "import-faults", prep_k, fault_run, 3);

// the same on generated infrastructures
void generated() {
  static gen::size const sizes[] = {{4, 3, 4, 8, 10, 150, true}, {3, 2, 3, 8, 12, 150, true}, {6, 3, 4, 6, 8, 150, true}, {2, 3, 5, 8, 14, 150, true}};
  auto const w = load_generated(sizes[choose(4)], false);
  use_world(w);
  find_ways(600, 12, 6, {});
  if (engines.empty()) { discard("no engines"); }
  if (unique_ways.empty()) { discard(ways.empty() ? "no ways through the network" : "no unique ways through the network"); }
}
Reg r_x03g("X03", "import-generated", nullptr, [] { generated(); import_run(); }, 1);
Reg r_f04g("F04", "import-faults-generated", nullptr, [] { generated(); fault_run(); }, 1);
}  // namespace
