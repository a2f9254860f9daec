// Import of infrastructures: complete, as written, the same on every run.
#include <cmath>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>

#include "gen.h"
#include "pugi_mem.h"
#include "soro/infrastructure/infrastructure.h"

extern "C" int toolmain(int, char const**);

using namespace sim;
using namespace gen;
namespace in = soro::infra;
namespace si = soro::si;

namespace {
struct opts { bool il = true, ex = true, el = true, gr = true, layout = true, by_index = false, no_csv = false; };
opts draw_opts() {
  opts o;
  o.il = choose(10) != 9; o.ex = choose(6) != 5; o.el = choose(6) != 5; o.gr = choose(6) != 5; o.layout = choose(4) != 3; o.by_index = choose(4) == 3; o.no_csv = choose(8) == 7;
  return o;
}
struct result { std::unique_ptr<in::infrastructure> inf; bool threw = false, oom = false; std::string what; };
char const* const DIR = "/simfs/iss/net";

result import(opts const& o, SchedCfg const& s, u64 nth_alloc) {
  result g;
  auto io = in::make_infra_opts(o.by_index ? std::string(DIR) + "/Index.xml" : DIR, o.no_csv ? "" : "/simfs/iss/coords.csv");
  io.interlocking_ = o.il; io.exclusions_ = o.ex; io.exclusion_elements_ = o.el; io.exclusion_graph_ = o.gr; io.layout_ = o.layout;
  with_sched(s, [&] {
    if (nth_alloc) { arm_refusal(nth_alloc); }
    try { g.inf = std::make_unique<in::infrastructure>(io); }
    catch (std::exception const& e) { no_alloc_fail const n; g.threw = true; g.what = e.what(); }
    catch (...) { g.threw = true; g.what = "not an std::exception"; }
    g.oom = alloc_fail_fired();
    arm_refusal(0);
  });
  return g;
}
void put_all(world const& w) {
  disk::mkdirs(DIR);
  for (auto const& [n, c] : w.files) { disk::put(std::string(DIR) + "/" + n, c); }
  if (w.csv_there) { disk::put("/simfs/iss/coords.csv", w.csv); }
}
bool near(double a, double b) { return std::abs(a - b) <= 1e-6 * (1 + std::abs(a) + std::abs(b)); }
long metres(si::length l) { return std::lround(static_cast<double>(si::as_m(l))); }
template <typename S> std::string str(S const& s) { return {s.data(), s.size()}; }

// Compares the imported infrastructure with the files' contents.
struct checker {
  world const& w;
  in::infrastructure const& inf;
  opts const& o;
  std::vector<in::element::ptr> E;                       // model element -> element
  std::vector<std::vector<in::element::ptr>> I;          // section, item -> element
  std::vector<u32> S;                                    // model section -> section
  std::map<nk, in::node::ptr> N;
  std::vector<std::set<u32>> graph;                      // route -> routes it conflicts with

  std::string name(nk n) const {
    if (n == 0) { return "nothing"; }
    auto const pos = [&](u32 m) { return world::km(m); };
    switch (nk_kind(n)) {
      case 1: { auto const& it = w.sec[nk_a(n)].items[nk_b(n)]; return it.xml() + " " + std::to_string(it.rp) + " at " + pos(it.m) + (it.t().dir ? "" : w.rising_of(n) ? " rising" : " falling"); }
      case 3: return "empty section " + std::to_string(nk_a(n)) + (nk_key(n) ? " rising" : " falling");
      default: { static char const* const k[] = {"border", "bumper", "track end", "line switch", "switch", "cross"}; auto const& e = w.el[nk_a(n)]; return std::string(k[e.k]) + " " + std::to_string(e.l[0].rp) + " port " + std::to_string(nk_key(n)); }
    }
  }
  void elements() {
    auto const& g = inf->graph_;
    if (inf->stations_.size() != w.st.size()) { violation("stations", "%zu stations in the files, %u imported", w.st.size(), static_cast<u32>(inf->stations_.size())); }
    E.assign(w.el.size(), nullptr);
    I.resize(w.sec.size());
    S.assign(w.sec.size(), NONE);
    u32 elements = static_cast<u32>(w.el.size()), metas = 0, mapped = 0;
    for (u32 s = 0; s < w.st.size(); ++s) {
      auto const& st = *inf->stations_[s];
      if (st.id_ != s || str(st.ds100_) != w.st[s].name) { violation("station-name", "station %u is %s, imported %s", s, w.st[s].name.c_str(), str(st.ds100_).c_str()); }
      if (auto const it = inf->ds100_to_station_.find(st.ds100_); it == inf->ds100_to_station_.end() || it->second != &st) { violation("station-lookup", "station %s cannot be found by its name", w.st[s].name.c_str()); }
      if (st.sections_.size() != w.st[s].secs.size()) { violation("sections", "station %s has %zu sections, imported %u", w.st[s].name.c_str(), w.st[s].secs.size(), static_cast<u32>(st.sections_.size())); }
      for (u32 k = 0; k < st.sections_.size(); ++k) {
        u32 const m = w.st[s].secs[k];
        S[m] = st.sections_[k];
        section(m, g.sections_[S[m]]);
        auto const& x = w.sec[m];
        elements += static_cast<u32>(x.items.size()) + (x.rise.empty() ? 1 : 0) + (x.fall.empty() ? 1 : 0);
        metas += (x.rise.empty() ? 1 : 0) + (x.fall.empty() ? 1 : 0);
      }
    }
    if (g.elements_.size() != elements || g.element_data_.size() != elements || g.element_id_to_section_ids_.size() != elements) { violation("element-count", "%u elements described, %u imported", elements, static_cast<u32>(g.elements_.size())); }
    std::set<in::element::ptr> all(g.elements_.begin(), g.elements_.end());
    if (all.size() != elements) { violation("element-count", "an element was imported twice"); }
    for (u32 i = 0; i < elements; ++i) { if (g.elements_[i]->id() != i) { violation("element-id", "element %u has the id %u", i, g.elements_[i]->id()); } }
    std::map<u32, u32> station_of, sections_of;
    for (u32 e = 0; e < w.el.size(); ++e) {
      if (!E[e]) { violation("element-missing", "%s was not imported", name(nk_el(e, 0)).c_str()); }
      station_of[E[e]->id()] = w.el[e].st;
      u32 const ports = w.el[e].k <= TEND ? 1 : w.el[e].k == LS ? 2 : w.el[e].k == SWITCH ? 3 : 4;
      sections_of[E[e]->id()] = ports + (w.el[e].k == BORDER && w.el[e].mate != NONE ? 1 : 0);
      for (u32 p = 0; p < ports; ++p) {
        auto const& ids = g.element_id_to_section_ids_[E[e]->id()];
        if (std::find(ids.begin(), ids.end(), S[w.el[e].l[p].sec]) == ids.end()) { violation("element-sections", "%s is not in one of its sections", name(nk_el(e, p)).c_str()); }
      }
      data(e);
      ++mapped;
    }
    for (u32 s = 0; s < I.size(); ++s) { for (auto p : I[s]) { station_of[p->id()] = w.sec[s].st; sections_of[p->id()] = 1; ++mapped; } }
    if (mapped + metas != elements) { violation("element-count", "%u elements described, %u found", elements, mapped + metas); }
    for (u32 i = 0; i < elements; ++i) {
      auto const it = inf->element_to_station_.find(i);
      if (it == inf->element_to_station_.end() || (station_of.count(i) && it->second->id_ != station_of[i])) { violation("element-station", "element %u belongs to the wrong station", i); }
      if (sections_of.count(i) && g.element_id_to_section_ids_[i].size() != sections_of[i]) { violation("element-sections", "element %u is in %u sections, imported in %u", i, sections_of[i], static_cast<u32>(g.element_id_to_section_ids_[i].size())); }
      auto const& se = it->second->elements_;
      if (std::count(se.begin(), se.end(), g.elements_[i]) != 1) { violation("element-station", "element %u is listed %u times in its station", i, static_cast<u32>(std::count(se.begin(), se.end(), g.elements_[i]))); }
    }
    borders(elements);
  }
  void same_element(u32 e, in::element::ptr p, bool high, u32 port) {
    if (E[e] && E[e] != p) { violation("section-joint", "%s was imported as two elements", name(nk_el(e, port)).c_str()); }
    E[e] = p;
    if (!p->is(w.type_of(nk_el(e, 0)))) { violation("element-type", "%s was imported as %s", name(nk_el(e, port)).c_str(), p->get_type_str().c_str()); }
    if (port == 0 && p->rising() != high) { violation("element-direction", "%s faces the wrong way", name(nk_el(e, port)).c_str()); }
  }
  void section(u32 m, in::section const& x) {
    auto const& s = w.sec[m];
    if (x.line_id_ != s.line || metres(x.length_) != static_cast<long>(s.hi_m - s.lo_m)) { violation("section-data", "section %u is on line %u, %u m long, imported on line %u, %ld m", m, s.line, s.hi_m - s.lo_m, static_cast<u32>(x.line_id_), metres(x.length_)); }
    u32 const n = static_cast<u32>(s.items.size()) + 2 + (s.rise.empty() ? 1 : 0) + (s.fall.empty() ? 1 : 0);
    if (x.rising_order_.size() != n || x.falling_order_.size() != n) { violation("section-size", "section %u has %u elements, imported %u", m, n, static_cast<u32>(x.rising_order_.size())); }
    std::set<in::element::ptr> const a(x.rising_order_.begin(), x.rising_order_.end()), b(x.falling_order_.begin(), x.falling_order_.end());
    if (a.size() != n || a != b) { violation("section-size", "section %u does not have the same elements in both directions", m); }
    same_element(s.lo_el, x.rising_order_.front(), false, s.lo_port);
    same_element(s.hi_el, x.rising_order_.back(), true, s.hi_port);
    if (x.falling_order_.front() != x.rising_order_.back() || x.falling_order_.back() != x.rising_order_.front()) { violation("section-ends", "section %u has other ends in the other direction", m); }
    I[m].assign(s.items.size(), nullptr);
    for (bool const rising : {true, false}) {
      auto const& order = rising ? x.rising_order_ : x.falling_order_;
      auto const& want = rising ? s.rise : s.fall;
      std::vector<in::element::ptr> got;
      in::element::ptr meta = nullptr;
      long last = rising ? s.lo_m : s.hi_m;
      for (u32 i = 1; i + 1 < n; ++i) {
        auto const p = order[i];
        if (!p->is_track_element()) { violation("section-order", "section %u has a section element inside", m); }
        auto const km = metres(p->is_directed_track_element() ? p->as<in::track_element>().km_ : p->as<in::undirected_track_element>().km_);
        if (rising ? km < last : km > last) { violation("section-order", "section %u is out of order at %ld m", m, km); }
        last = km;
        if (p->is_directed_track_element() && p->rising() != rising) { continue; }
        if (p->is(T::META)) { meta = p; } else { got.push_back(p); }
      }
      if (got.size() != want.size()) { violation("section-items", "section %u has %zu elements %s, imported %zu", m, want.size(), rising ? "rising" : "falling", got.size()); }
      if ((meta != nullptr) != want.empty()) { violation("section-items", "section %u: placeholder in a direction with elements", m); }
      if (meta) { N[nk_meta(m, rising)] = meta->as<in::track_element>().get_node(); }
      for (u32 i = 0; i < got.size(); ++i) {
        auto& slot = I[m][want[i]];
        if (slot && slot != got[i]) { violation("section-items", "%s is at another place in the other direction", name(nk_item(m, want[i], rising, false)).c_str()); }
        slot = got[i];
        item_data(m, want[i], got[i]);
      }
    }
  }
  void item_data(u32 m, u32 i, in::element::ptr p) {
    auto const& it = w.sec[m].items[i];
    auto const nm = name(nk_item(m, i, true, it.t().dir));
    if (!p->is(it.t().t)) { violation("element-type", "%s was imported as %s", nm.c_str(), p->get_type_str().c_str()); }
    auto const check = [&](auto const& e) { if (metres(e.km_) != static_cast<long>(it.m) || e.line_ != w.sec[m].line) { violation("element-data", "%s was imported at %ld m of line %u", nm.c_str(), metres(e.km_), static_cast<u32>(e.line_)); } };
    if (it.t().dir) { check(p->as<in::track_element>()); N[nk_item(m, i, it.rising, true)] = p->as<in::track_element>().get_node(); }
    else { check(p->as<in::undirected_track_element>()); N[nk_item(m, i, true, false)] = p->nodes()[0]; N[nk_item(m, i, false, false)] = p->nodes()[1]; }
    auto const& d = inf->graph_.element_data_[p->id()];
    auto const bad = [&] { violation("element-data", "the data of %s were imported wrongly", nm.c_str()); };
    auto const xml = it.xml();
    auto const has = [&](char const* s) { return xml.find(s) != std::string::npos; };
    switch (it.t().t) {
      case T::HALT: { auto const& h = d.as<in::halt>(); if (str(h.name_) != it.called(0) || str(h.identifier_operational_) != it.called(1) || str(h.identifier_extern_) != it.called(2) || h.is_passenger_ != has("Rz") || h.is_left_ != has("Links") || h.is_right_ != has("Rechts")) { bad(); } break; }
      case T::MAIN_SIGNAL: if (str(d.as<in::main_signal>().name_) != it.name) { bad(); } break;
      case T::EOTD: if (d.as<in::eotd>().signal_ != has("Signal")) { bad(); } break;
      case T::SLOPE: { auto const& s = d.as<in::slope>(); if (!near(static_cast<double>(s.rising_.val_), it.v1 + 0.5) || !near(static_cast<double>(s.falling_.val_), it.v2)) { bad(); } break; }
      case T::SPEED_LIMIT: {
        auto const& s = d.as<in::speed_limit>();
        if (s.type_ != (has("Ende") ? in::speed_limit::type::END_SPECIAL : in::speed_limit::type::GENERAL_ALLOWED) || s.calculated_ != (it.v2 % 2 == 1) || static_cast<u32>(s.effects_) != it.eff || s.element_ != p || s.node_ != p->as<in::track_element>().get_node()) { bad(); }
        if (si::valid(s.limit_) != (it.v1 != 0) || (it.v1 && !near(static_cast<double>(si::as_km_h(s.limit_)), it.v1))) { bad(); }
        if (si::valid(s.length_) != (it.v2 % 3 != 0) || (it.v2 % 3 && !near(static_cast<double>(si::as_m(s.length_)), it.v2 % 3 == 1 ? it.v2 * 1000.0 : it.v2))) { bad(); }
        break;
      }
      default: break;
    }
  }
  void data(u32 e) {
    auto const& x = w.el[e];
    auto const p = E[e];
    auto const bad = [&](char const* what) { violation("element-data", "%s of %s imported wrongly", what, name(nk_el(e, 0)).c_str()); };
    auto const at = [&](u32 port, auto km, auto line) { if (metres(km) != static_cast<long>(x.l[port].m) || line != w.sec[x.l[port].sec].line) { bad("the place"); } };
    switch (x.k) {
      case BUMPER: case TEND: at(0, p->as<in::end_element>().km_, p->as<in::end_element>().line_); break;
      case BORDER: at(0, p->as<in::simple_element>().start_km_, p->as<in::simple_element>().start_line_); at(0, p->as<in::simple_element>().end_km_, p->as<in::simple_element>().end_line_); break;
      case LS: { auto const& s = p->as<in::simple_element>(); at(0, s.start_km_, s.start_line_); at(1, s.end_km_, s.end_line_); if (s.end_rising_ != x.l[1].high) { bad("the direction"); } break; }
      case SWITCH: {
        auto const& s = p->as<in::simple_switch>();
        at(0, s.start_km_, s.start_line_); at(1, s.stem_km_, s.stem_line_); at(2, s.branch_km_, s.branch_line_);
        if (s.stem_rising_ != x.l[1].high || s.branch_rising_ != x.l[2].high) { bad("the direction"); }
        auto const& d = inf->graph_.element_data_[p->id()].as<in::switch_data>();
        if (str(d.name_) != x.name || d.ui_identifier_.has_value() != !x.ui.empty() || (!x.ui.empty() && str(*d.ui_identifier_) != x.ui)) { bad("the name"); }
        break;
      }
      case CROSS: {
        auto const& s = p->as<in::cross>();
        at(0, s.start_left_km_, s.start_left_line_); at(1, s.end_left_km_, s.end_left_line_); at(2, s.start_right_km_, s.start_right_line_); at(3, s.end_right_km_, s.end_right_line_);
        if (s.end_left_rising_ != x.l[1].high || s.start_right_rising_ != x.l[2].high || s.end_right_rising_ != x.l[3].high || p->is_cross_switch() != (x.a || x.b)) { bad("the direction"); }
        break;
      }
    }
  }
  void borders(u32) {
    auto const& g = inf->graph_;
    u32 pairs = 0;
    for (u32 s = 0; s < w.st.size(); ++s) {
      std::vector<std::pair<u32, bool>> want;   // element, low end of its section
      for (auto m : w.st[s].secs) {
        auto const add = [&](u32 e, bool low) { if (w.el[e].k == BORDER && w.el[e].mate != NONE) { want.emplace_back(e, low); } };
        add(w.sec[m].lo_el, true);
        add(w.sec[m].hi_el, false);
      }
      auto const& got = inf->stations_[s]->borders_;
      if (got.size() != want.size()) { violation("borders", "station %s has %zu borders to other stations, imported %u", w.st[s].name.c_str(), want.size(), static_cast<u32>(got.size())); }
      for (u32 i = 0; i < want.size(); ++i) {
        auto const [e, low] = want[i];
        auto const& x = w.el[e];
        auto const& b = got[i];
        if (b.station_ != inf->stations_[s] || b.element_ != E[e] || b.neighbour_ != inf->stations_[w.el[x.mate].st] || b.neighbour_element_ != E[x.mate] || b.line_ != w.sec[x.l[0].sec].line || b.track_sign_ != static_cast<int>(x.sign) || b.low_border_ != low) {
          violation("borders", "border %lu of station %s was imported wrongly", static_cast<unsigned long>(x.l[0].rp), w.st[s].name.c_str());
        }
        if (!low) { continue; }
        ++pairs;
        u32 found = 0;
        for (u32 k = static_cast<u32>(w.sec.size()); k < g.sections_.size(); ++k) {
          auto const& c = g.sections_[k];
          if (c.rising_order_.size() != 2 || c.falling_order_.size() != 2 || c.rising_order_[1] != E[e]) { continue; }
          if (c.rising_order_[0] != E[x.mate] || c.falling_order_[0] != E[e] || c.falling_order_[1] != E[x.mate] || c.line_id_ != b.line_ || metres(c.length_) != 0) { violation("border-section", "the joint of two stations at border %lu was imported wrongly", static_cast<unsigned long>(x.l[0].rp)); }
          for (auto q : {e, x.mate}) { auto const& ids = g.element_id_to_section_ids_[E[q]->id()]; if (std::find(ids.begin(), ids.end(), k) == ids.end()) { violation("border-section", "border %lu does not know its joint", static_cast<unsigned long>(w.el[q].l[0].rp)); } }
          ++found;
        }
        if (found != 1) { violation("border-section", "%u joints of two stations at border %lu", found, static_cast<unsigned long>(x.l[0].rp)); }
      }
    }
    if (g.sections_.size() != w.sec.size() + pairs) { violation("sections", "%zu sections and %u joints between stations, imported %u", w.sec.size(), pairs, static_cast<u32>(g.sections_.size())); }
  }
  void nodes() {
    auto const& g = inf->graph_;
    for (u32 e = 0; e < w.el.size(); ++e) {
      if (w.el[e].k > TEND) { continue; }
      bool const high = w.el[e].l[0].high;
      auto const ns = E[e]->nodes();
      N[nk_el(e, 0)] = high ? ns[0] : ns[1];
      N[nk_el(e, 1)] = high ? ns[1] : ns[0];
    }
    for (u32 s = 0; s < w.sec.size(); ++s) {
      for (bool const r : {true, false}) {
        auto const& x = w.sec[s];
        auto const& o = r ? x.rise : x.fall;
        nk const last = o.empty() ? nk_meta(s, r) : nk_item(s, o.back(), r, x.items[o.back()].t().dir);
        nk const there = w.arrive(s, r);
        auto const n = N[last]->next_node_;
        if (!n || n->element_ != E[nk_a(there)]) { violation("way", "after %s comes %s, not imported so", name(last).c_str(), name(there).c_str()); }
        auto const it = N.find(there);
        if (it == N.end()) { N[there] = n; } else if (it->second != n) { violation("way", "after %s comes %s, imported as if arriving there otherwise", name(last).c_str(), name(there).c_str()); }
      }
    }
    std::map<in::node::ptr, nk> back;
    for (auto const& [k, n] : N) { if (!n || !back.emplace(n, k).second) { violation("nodes", "%s cannot be told apart from another place", name(k).c_str()); } }
    if (N.size() != g.nodes_.size()) { violation("nodes", "%zu places of the network, imported %u", N.size(), static_cast<u32>(g.nodes_.size())); }
    for (u32 i = 0; i < g.nodes_.size(); ++i) { if (g.nodes_[i]->id_ != i || !back.count(g.nodes_[i])) { violation("nodes", "node %u has the id %u", i, g.nodes_[i]->id_); } }
    std::map<in::node::ptr, std::multiset<in::node::ptr>> rev;
    for (auto const& [k, n] : N) {
      auto const [a, b] = w.next(k);
      auto const ptr = [&](nk x) -> in::node::ptr { return x ? N.at(x) : nullptr; };
      if (n->next_node_ != ptr(a) || n->branch_node_ != ptr(b)) {
        auto const nm = [&](in::node::ptr p) { return p ? name(back.at(p)) : std::string("nothing"); };
        violation("way", "after %s comes %s, branching off %s, imported %s and %s", name(k).c_str(), name(a).c_str(), name(b).c_str(), nm(n->next_node_).c_str(), nm(n->branch_node_).c_str());
      }
      if (a) { rev[ptr(a)].insert(n); }
      if (b) { rev[ptr(b)].insert(n); }
    }
    for (auto const& [k, n] : N) { if (std::multiset<in::node::ptr>(n->reverse_edges_.begin(), n->reverse_edges_.end()) != rev[n]) { violation("way-back", "the places before %s were imported wrongly", name(k).c_str()); } }
    // the place before it on the straight way
    std::map<nk, nk> before;
    for (auto const& [k, n] : N) { if (auto const [a, b] = w.next(k); a && a != b) { before.emplace(a, k); } }
    for (auto const& [k, n] : N) {
      in::node::ptr want = nullptr;
      if (nk_kind(k) == 2 && w.el[nk_a(k)].k == SWITCH && nk_key(k) == 1) {
        auto const& l = w.el[nk_a(k)].l[1];
        auto const& x = w.sec[l.sec];
        auto const& o = l.high ? x.rise : x.fall;
        want = N.at(o.empty() ? nk_meta(l.sec, l.high) : nk_item(l.sec, o.back(), l.high, x.items[o.back()].t().dir));
      } else if (auto const it = before.find(k); it != before.end()) { want = N.at(it->second); }
      else if (!rev[n].empty()) { want = *rev[n].begin(); }
      if (n->reverse_ahead() != want) { violation("way-back", "straight back from %s lies %s, not found so", name(k).c_str(), want ? name(back.at(want)).c_str() : "nothing"); }
    }
  }
  void station_routes() {
    if (inf->station_routes_.size() != w.sr.size()) { violation("station-routes", "%zu station routes, imported %u", w.sr.size(), static_cast<u32>(inf->station_routes_.size())); }
    std::vector<std::set<in::station_route::ptr>> of_station(w.st.size());
    for (auto const& r : w.sr) {
      auto const& g = *inf->station_routes_[r.id];
      auto const bad = [&](char const* what) { violation("station-route-data", "%s of station route %s was imported wrongly", what, r.name.c_str()); };
      if (g.id_ != r.id || str(g.name_) != r.name || g.station_ != inf->stations_[r.st]) { bad("the name"); }
      std::vector<in::node::ptr> want;
      for (auto n : r.nodes) { want.push_back(N.at(n)); }
      if (!std::equal(want.begin(), want.end(), g.nodes().begin(), g.nodes().end())) { violation("station-route-way", "station route %s (%zu places, from %s to %s) was imported with %u other places", r.name.c_str(), want.size(), name(r.nodes.front()).c_str(), name(r.nodes.back()).c_str(), static_cast<u32>(g.nodes().size())); }
      if (!std::equal(r.ms.begin(), r.ms.end(), g.path_->main_signals_.begin(), g.path_->main_signals_.end())) { bad("a main signal"); }
      if (g.path_->start_ != want.front()->element_ || g.path_->end_ != want.back()->element_) { bad("an end"); }
      std::vector<u32> es, ee;
      for (u32 i = 0; i < r.nodes.size(); ++i) { if (w.type_of(r.nodes[i]) == T::ETCS_START) { es.push_back(i); } if (w.type_of(r.nodes[i]) == T::ETCS_END) { ee.push_back(i); } }
      if (!std::equal(es.begin(), es.end(), g.path_->etcs_starts_.begin(), g.path_->etcs_starts_.end()) || !std::equal(ee.begin(), ee.end(), g.path_->etcs_ends_.begin(), g.path_->etcs_ends_.end())) { bad("an ETCS sign"); }
      if (!std::equal(r.omitted.begin(), r.omitted.end(), g.omitted_nodes_.begin(), g.omitted_nodes_.end())) { bad("an omitted element"); }
      auto const opt = [&](u32 a, auto const& b) { return a == NONE ? !b.has_value() : b.has_value() && *b == a; };
      if (!opt(r.pass, g.get_halt_idx(soro::rs::FreightTrain::NO)) || !opt(r.freight, g.get_halt_idx(soro::rs::FreightTrain::YES))) { bad("a halt"); }
      if (!opt(r.rtcp, g.runtime_checkpoint_)) { bad("the runtime checkpoint"); }
      if (g.extra_speed_limits_.size() != r.spls.size()) { bad("the number of speed limits"); }
      std::map<u32, u32> limit_at;
      for (u32 i = 0; i < r.spls.size(); ++i) {
        auto const& a = r.spls[i];
        auto const& b = g.extra_speed_limits_[i];
        if (b.node_ != want[a.idx] || !near(static_cast<double>(si::as_km_h(b.limit_)), a.limit) || static_cast<u32>(b.effects_) != a.eff || b.type_ != in::speed_limit::type::GENERAL_ALLOWED) { bad("a speed limit"); }
        limit_at[a.idx] = i;
      }
      for (u32 a = 0; a < 11; ++a) { if (g.attributes_[a] != (r.attrs.count(a) > 0)) { bad("an attribute"); } }
      if (g.electrified() != (r.attrs.count(1) > 0)) { bad("electrification"); }
      if (metres(g.length_) != r.length) { violation("station-route-length", "station route %s is %ld m long, imported %ld m", r.name.c_str(), r.length, metres(g.length_)); }
      auto const st = [&](u32 s, auto const& b) { return s == NONE ? !b.has_value() : b.has_value() && *b == inf->stations_[s]; };
      if (!st(r.from_st, g.from_station_) || !st(r.to_st, g.to_station_)) { bad("a neighbouring station"); }
      if (g.requires_etcs(inf->lines_) != r.etcs) { violation("etcs", "station route %s %s ETCS", r.name.c_str(), r.etcs ? "requires" : "does not require"); }
      if (g.is_through_route() != (r.through_start && r.through_end) || g.is_in_route() != (r.through_start && !r.through_end) || g.is_out_route() != (!r.through_start && r.through_end)) { bad("the kind"); }
      // travelling along it, all of it or a part
      u32 const n = static_cast<u32>(want.size());
      for (u32 k = 0; k < 3; ++k) {
        u32 const a = k == 0 ? 0 : choose(n + 1), b = k == 0 ? n : a + choose(n - a + 1);
        u32 i = a;
        for (auto const& x : g.from_to(static_cast<in::node::idx>(a), static_cast<in::node::idx>(b))) {
          bool const om = r.omitted.count(i) > 0, lim = limit_at.count(i) > 0 && !om;
          if (i >= b || x.node_ != want[i] || x.omitted() != om) { violation("station-route-walk", "station route %s from %u to %u: place %u is wrong", r.name.c_str(), a, b, i); }
          if (lim != x.extra_spl_.has_value() || (lim && *x.extra_spl_ != &g.extra_speed_limits_[limit_at[i]])) { violation("station-route-limit", "station route %s from %u to %u: %s speed limit at place %u", r.name.c_str(), a, b, lim ? x.extra_spl_.has_value() ? "wrong" : "missing" : "unexpected", i); }
          ++i;
        }
        if (i != b && a < n) { violation("station-route-walk", "station route %s from %u to %u ends at %u", r.name.c_str(), a, b, i); }
      }
      of_station[r.st].insert(&g);
      auto const& by_name = inf->stations_[r.st]->station_routes_;
      if (auto const f = by_name.find(soro::string{r.name.c_str()}); f == by_name.end() || f->second != &g) { violation("station-route-lookup", "station route %s is not found by its name", r.name.c_str()); }
      auto const& by_el = inf->stations_[r.st]->element_to_routes_;
      auto const f = by_el.find(want.front()->element_->id());
      if (f == by_el.end() || std::count(f->second.begin(), f->second.end(), &g) != 1) { violation("station-route-lookup", "station route %s is not found by its first element", r.name.c_str()); }
    }
    for (u32 s = 0; s < w.st.size(); ++s) {
      if (inf->stations_[s]->station_routes_.size() != of_station[s].size()) { violation("station-routes", "station %s has too many station routes", w.st[s].name.c_str()); }
      std::size_t n = 0;
      for (auto const& [e, v] : inf->stations_[s]->element_to_routes_) { n += v.size(); }
      if (n != of_station[s].size()) { violation("station-route-lookup", "station %s lists %zu of its %zu routes by element", w.st[s].name.c_str(), n, of_station[s].size()); }
    }
    auto const& sg = inf->station_route_graph_;
    if (sg.successors_.size() != w.sr.size() || sg.predeccesors_.size() != w.sr.size()) { violation("station-route-graph", "wrong size"); }
    for (auto const& r : w.sr) {
      auto const ids = [](auto const& v) { std::vector<u32> x; for (auto p : v) { x.push_back(p->id_); } std::sort(x.begin(), x.end()); return x; };
      auto a = r.succ, b = r.pred;
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
      if (ids(sg.successors_[r.id]) != a || ids(sg.predeccesors_[r.id]) != b) { violation("station-route-graph", "%zu station routes continue %s and %zu lead to it, imported %u and %u", a.size(), r.name.c_str(), b.size(), static_cast<u32>(sg.successors_[r.id].size()), static_cast<u32>(sg.predeccesors_[r.id].size())); }
    }
  }
  void interlocking() {
    auto const& il = inf->interlocking_;
    if (!o.il) { if (!il.routes_.empty()) { violation("interlocking-unasked", "interlocking routes nobody asked for"); } return; }
    std::vector<ilr> want = w.irs, got;
    for (auto const& r : il.routes_) { got.push_back({{r.station_routes_.begin(), r.station_routes_.end()}, r.start_offset_, r.end_offset_}); if (r.id_ != got.size() - 1) { violation("interlocking-id", "interlocking route %zu has the id %u", got.size() - 1, r.id_); } }
    auto sorted = got;
    std::sort(want.begin(), want.end());
    std::sort(sorted.begin(), sorted.end());
    if (want != sorted) {
      std::vector<ilr> a, b;
      std::set_difference(want.begin(), want.end(), sorted.begin(), sorted.end(), std::back_inserter(a));
      std::set_difference(sorted.begin(), sorted.end(), want.begin(), want.end(), std::back_inserter(b));
      auto const& x = a.empty() ? b.front() : a.front();
      std::string s;
      for (auto i : x.srs) { s += w.sr[i].name + " "; }
      violation("interlocking-routes", "%zu interlocking routes, generated %zu; %s: %s(%u to %u)", want.size(), sorted.size(), a.empty() ? "not one" : "missing", s.c_str(), x.start, x.end);
    }
    u32 const nn = static_cast<u32>(inf->graph_.nodes_.size());
    std::vector<std::vector<u32>> starting(nn), ending(nn), part(w.sr.size());
    std::vector<std::set<u32>> halting(nn), of_st(w.st.size());
    for (u32 id = 0; id < got.size(); ++id) {
      auto const& r = got[id];
      auto const& g = il.routes_[id];
      struct at { u32 sr, idx; };
      std::vector<at> way;
      for (u32 k = 0; k < r.srs.size(); ++k) {
        auto const& s = w.sr[r.srs[k]];
        u32 const a = k == 0 ? r.start : 0, b = k + 1 == r.srs.size() ? r.end : static_cast<u32>(s.nodes.size());
        for (u32 i = a; i < b; ++i) { way.push_back({s.id, i}); if (i == s.pass || i == s.freight) { halting[N.at(s.nodes[i])->id_].insert(id); } }
        part[s.id].push_back(id);
        of_st[s.st].insert(id);
      }
      auto const node = [&](at const& x) { return N.at(w.sr[x.sr].nodes[x.idx]); };
      starting[node(way.front())->id_].push_back(id);
      ending[node(way.back())->id_].push_back(id);
      if (g.size(inf) != way.size()) { violation("interlocking-size", "interlocking route %u has %zu places, reported %u", id, way.size(), g.size(inf)); }
      if (g.first_node(inf) != node(way.front()) || g.last_node(inf) != node(way.back()) || g.starts_on_ms(inf) != node(way.front())->is(T::MAIN_SIGNAL) || g.ends_on_ms(inf) != node(way.back())->is(T::MAIN_SIGNAL)) { violation("interlocking-ends", "interlocking route %u has other ends", id); }
      auto const walk = [&](auto&& gen, u32 a, u32 b, char const* what) {
        u32 i = a;
        for (auto const& x : gen) {
          if (i >= b || x.node_ != node(way[i]) || x.omitted() != (w.sr[way[i].sr].omitted.count(way[i].idx) > 0)) { violation("interlocking-walk", "%s: place %u of interlocking route %u is wrong", what, i, id); }
          ++i;
        }
        if (i != b) { violation("interlocking-walk", "%s: interlocking route %u ends after %u of %u places", what, id, i, b); }
      };
      u32 const n = static_cast<u32>(way.size());
      if (id % 4 == 0 || got.size() < 40) {
        walk(g.iterate(inf), 0, n, "whole");
        u32 const a = choose(n), b = a + choose(n - a);
        auto const ix = [](u32 i) { return static_cast<in::node::idx>(i); };
        walk(g.from(way[a].sr, ix(way[a].idx), inf), a, n, "from");
        walk(g.to(way[b].sr, ix(way[b].idx + 1), inf), 0, b + 1, "to");
        walk(g.from_to(way[a].sr, ix(way[a].idx), way[b].sr, ix(way[b].idx + 1), inf), a, b + 1, "from to");
        for (auto k : r.srs) { for (u32 i = 0; i < w.sr[k].nodes.size(); i += 1 + choose(3)) { bool const inside = (k != r.srs.front() || i >= r.start) && (k != r.srs.back() || i < r.end); if (g.contains(k, ix(i)) != inside) { violation("interlocking-contains", "place %u of station route %u is %s interlocking route %u", i, k, inside ? "in" : "not in", id); } } }
      }
    }
    auto const cmp = [&](auto const& a, auto const& b, char const* what, bool const once = false) {
      if (a.size() != b.size()) { violation("interlocking-index", "%s: wrong size", what); }
      for (u32 i = 0; i < a.size(); ++i) {
        std::vector<u32> x(a[i].begin(), a[i].end()), y(b[i].begin(), b[i].end());
        if constexpr (std::is_same_v<std::decay_t<decltype(a[i])>, std::set<u32>>) { std::sort(y.begin(), y.end()); if (!once) y.erase(std::unique(y.begin(), y.end()), y.end()); }
        if (x != y) { violation("interlocking-index", "%s %u: %zu interlocking routes, listed %zu", what, i, x.size(), y.size()); }
      }
    };
    cmp(starting, il.starting_at_, "starting at");
    cmp(ending, il.ending_at_, "ending at");
    cmp(halting, il.halting_at_, "halting at");
    cmp(part, il.sr_to_participating_irs_, "using station route");
    cmp(of_st, il.station_to_irs_, "using station", true);
  }
  void exclusion() {
    auto const& x = inf->exclusion_;
    auto const& rs = inf->interlocking_.routes_;
    u32 const n = static_cast<u32>(rs.size());
    if (!o.ex) { if (!x.exclusion_sets_.empty() || !x.exclusion_elements_.closed_.empty()) { violation("exclusion-unasked", "exclusion nobody asked for"); } return; }
    u32 const want_el = o.el ? n : 0, want_gr = o.el && o.gr ? n : 0;
    if (x.exclusion_elements_.closed_.size() != want_el || x.exclusion_elements_.open_.size() != want_el || x.exclusion_graph_.nodes_.size() != want_gr) { violation("exclusion-size", "%u routes: locked elements of %u, conflicts of %u", n, static_cast<u32>(x.exclusion_elements_.closed_.size()), static_cast<u32>(x.exclusion_graph_.nodes_.size())); }
    std::map<u32, std::vector<u32>> users;
    std::vector<std::set<u32>> locked(n);
    auto const locks = [](T t) { return t == T::MAIN_SIGNAL || t == T::HALT || t == T::BORDER || t == T::BUMPER || t == T::TRACK_END || t == T::SIMPLE_SWITCH || t == T::CROSS; };
    for (u32 id = 0; id < n && want_el; ++id) {
      // on every way through a section, all between the first and the last place used on it
      struct visit { u32 sec; std::set<in::element::ptr> es; };
      std::vector<visit> vs;
      std::set<in::element::ptr> between;  // elements of no single section, since the last that belongs to one
      for (u32 k = 0; k < rs[id].station_routes_.size(); ++k) {
        auto const& s = w.sr[rs[id].station_routes_[k]];
        u32 const a = k == 0 ? rs[id].start_offset_ : 0, b = k + 1 == rs[id].station_routes_.size() ? rs[id].end_offset_ : static_cast<u32>(s.nodes.size());
        for (u32 i = a; i < b; ++i) {
          auto const e = N.at(s.nodes[i])->element_;
          if (nk_kind(s.nodes[i]) == 2) {
            between.insert(e);
            if (!vs.empty()) { vs.back().es.insert(e); }
            continue;
          }
          if (vs.empty() || vs.back().sec != nk_a(s.nodes[i])) { vs.push_back({nk_a(s.nodes[i]), between}); }
          vs.back().es.insert(e);
          between.clear();
        }
      }
      std::set<u32> may;  // elements at the very place of an end may or may not count
      for (auto const& [m, es] : vs) {
        auto const& c = w.sec[m];
        std::vector<std::pair<u32, in::element::ptr>> at{{c.lo_m, E[c.lo_el]}, {c.hi_m, E[c.hi_el]}};
        for (u32 i = 0; i < c.items.size(); ++i) { at.emplace_back(c.items[i].m, I[m][i]); }
        u32 lo = NONE, hi = 0;
        for (auto const& [km, e] : at) { if (es.count(e)) { lo = std::min(lo, km); hi = std::max(hi, km); } }
        for (auto const& [km, e] : at) { if (locks(e->type()) && km >= lo && km <= hi) { (es.count(e) || (km > lo && km < hi) ? locked[id] : may).insert(e->id()); } }
      }
      for (auto e : locked[id]) { may.erase(e); }
      for (auto e : may) { if (auto const& c = x.exclusion_elements_.closed_[id]; std::find(c.begin(), c.end(), e) != c.end()) { locked[id].insert(e); } }
      std::vector<u32> const want(locked[id].begin(), locked[id].end()), got(x.exclusion_elements_.closed_[id].begin(), x.exclusion_elements_.closed_[id].end());
      if (want != got) {
        std::string d;
        for (u32 k = 0; k < rs[id].station_routes_.size(); ++k) { auto const& s = w.sr[rs[id].station_routes_[k]]; u32 const a = k == 0 ? rs[id].start_offset_ : 0, b = k + 1 == rs[id].station_routes_.size() ? rs[id].end_offset_ : static_cast<u32>(s.nodes.size()); for (u32 i = a; i < b; ++i) { d += (i == a ? " | " : ", ") + name(s.nodes[i]); } }
        note("its places:%s", d.c_str());
        d.clear();
        for (auto e : want) { d += (d.empty() ? "" : ", ") + std::to_string(e); }
        d += "; reported ";
        for (auto e : got) { d += std::to_string(e) + " "; }
        note("locked elements %s", d.c_str());
        violation("locked-elements", "interlocking route %u locks %zu elements, reported %zu", id, want.size(), got.size());
      }
      std::vector<u32> open;
      for (auto e : want) { if (e != rs[id].first_node(inf)->element_->id() && e != rs[id].last_node(inf)->element_->id()) { open.push_back(e); } }
      if (!std::equal(open.begin(), open.end(), x.exclusion_elements_.open_[id].begin(), x.exclusion_elements_.open_[id].end())) { violation("locked-elements-open", "interlocking route %u locks %zu elements between its ends", id, open.size()); }
      for (auto e : want) { users[e].push_back(id); }
    }
    for (u32 id = 0; id < want_gr; ++id) {
      std::set<u32> want;
      for (auto e : locked[id]) { for (auto u : users[e]) { want.insert(u); } }
      for (auto it = want.begin(); it != want.end();) {
        bool const joint = rs[id].last_node(inf) == rs[*it].first_node(inf) || rs[*it].last_node(inf) == rs[id].first_node(inf);
        it = joint ? want.erase(it) : std::next(it);
      }
      graph.push_back(want);
      auto const g = x.exclusion_graph_.nodes_[id].expanded_set();
      if (!std::equal(want.begin(), want.end(), g.begin(), g.end())) { violation("conflicting-routes", "interlocking route %u conflicts with %zu routes, reported %zu", id, want.size(), static_cast<std::size_t>(g.size())); }
    }
    std::vector<std::vector<u32>> got;
    for (auto const& s : x.exclusion_sets_) { got.emplace_back(s.begin(), s.end()); }
    if (got != w.sets) { violation("exclusion-sets", "%zu exclusion sets, read %zu", w.sets.size(), got.size()); }
    if (x.irs_to_exclusion_sets_.size() != n) { violation("exclusion-sets", "%u routes, sets of %u", n, static_cast<u32>(x.irs_to_exclusion_sets_.size())); }
    for (u32 id = 0; id < n; ++id) {
      std::vector<u32> want;
      for (u32 s = 0; s < w.sets.size(); ++s) { if (std::find(w.sets[s].begin(), w.sets[s].end(), id) != w.sets[s].end()) { want.push_back(s); } }
      if (!std::equal(want.begin(), want.end(), x.irs_to_exclusion_sets_[id].begin(), x.irs_to_exclusion_sets_[id].end())) { violation("exclusion-sets", "interlocking route %u is in %zu exclusion sets", id, want.size()); }
    }
  }
  void core() {
    auto const& d = inf->defaults_;
    if (w.defaults && (str(d.line_class_) != "D4" || !near(static_cast<double>(si::as_s(d.route_form_time_)), w.form_time) || !near(static_cast<double>(si::as_m(d.brake_path_length_)), w.brake) || !near(static_cast<double>(si::as_km_h(d.stationary_speed_limit_)), w.limit))) { violation("defaults", "the default values were imported wrongly"); }
    if (str(inf->version_.name_) != w.version || inf->version_.number_ != w.number) { violation("version", "version %s (%u), imported %s (%u)", w.version.c_str(), w.number, str(inf->version_.name_).c_str(), inf->version_.number_); }
    if (str(inf->source_) != "net") { violation("source", "imported from net, says '%s'", str(inf->source_).c_str()); }
    if (inf->rolling_stock_.train_series_.size() != w.series.size()) { violation("rolling-stock", "%zu train series, imported %u", w.series.size(), static_cast<u32>(inf->rolling_stock_.train_series_.size())); }
    for (auto const& s : w.series) {
      for (auto const& v : s.vs) {
        auto const tv = inf->rolling_stock_.get_traction_vehicle(s.nr, s.company, v.id);
        if (tv.has_value() != v.ok) { violation("rolling-stock", "variant %u of series %s-%s is %s", v.id, s.nr.c_str(), s.company.c_str(), v.ok ? "missing" : "usable though its tractive force has gaps"); }
        if (!v.ok) { continue; }
        double const f = 1000 * (v.f1 - (v.f2 + 0.5) * 30 + 0.015 * 900);
        if (str(tv->name_) != v.name || !near(static_cast<double>(tv->weight_.val_), v.weight * 1000.0) || !near(static_cast<double>(si::as_km_h(tv->max_speed_)), v.speed) || !near(static_cast<double>(tv->tractive_curve_(si::from_km_h(static_cast<si::precision>(30))).val_), f)) { violation("rolling-stock", "variant %u of series %s-%s was imported wrongly", v.id, s.nr.c_str(), s.company.c_str()); }
      }
    }
    if (inf->full_station_names_.size() != w.st.size()) { violation("full-names", "wrong number"); }
    for (u32 s = 0; s < w.st.size(); ++s) { auto const& want = w.st[s].has_full ? w.st[s].full : w.st[s].name; if (str(inf->full_station_names_[s]) != want) { violation("full-names", "station %s is called %s, imported %s", w.st[s].name.c_str(), want.c_str(), str(inf->full_station_names_[s]).c_str()); } }
    if (inf->lines_.size() != w.lines.size()) { violation("lines", "%zu lines, imported %u", w.lines.size(), static_cast<u32>(inf->lines_.size())); }
    for (auto const& l : w.lines) {
      auto const it = inf->lines_.find(static_cast<in::line::id>(l.id));
      if (it == inf->lines_.end() || it->second.segments_.size() != l.segs.size()) { violation("lines", "line %u was not imported completely", l.id); }
      for (u32 i = 0; i < l.segs.size(); ++i) {
        auto const& a = l.segs[i];
        auto const& b = it->second.segments_[i];
        if (metres(b.from_) != static_cast<long>(a.from) || metres(b.to_) != static_cast<long>(a.to) || b.signalling_ != art_signals(a.art) || b.lzb_ != art_lzb(a.art) || b.etcs_ != art_etcs(a.art)) { violation("lines", "part %u of line %u was imported wrongly", i, l.id); }
      }
    }
  }
  void positions() {
    auto const& p = inf->station_positions_;
    if (!o.layout) { if (!p.empty() || !inf->element_positions_.empty()) { violation("positions-unasked", "positions nobody asked for"); } return; }
    if (p.size() != w.st.size() || inf->element_positions_.size() != inf->graph_.elements_.size()) { violation("positions", "%zu stations and %u elements, positions of %u and %u", w.st.size(), static_cast<u32>(inf->graph_.elements_.size()), static_cast<u32>(p.size()), static_cast<u32>(inf->element_positions_.size())); }
    std::vector<std::set<u32>> nb(w.st.size());
    for (auto const& e : w.el) { if (e.k == BORDER && e.mate != NONE) { nb[e.st].insert(w.el[e.mate].st); } }
    bool const csv = w.csv_there && !o.no_csv;
    auto const known = [&](u32 s) { return csv && w.st[s].coords; };
    for (u32 s = 0; s < w.st.size(); ++s) {
      auto const& x = w.st[s];
      double const lon = static_cast<double>(p[s].lon_), lat = static_cast<double>(p[s].lat_);
      auto const want = [&](double a, double b, char const* why) { if (!near(lon, a) || !near(lat, b)) { violation("station-position", "station %s is at %.5f %.5f (%s), placed at %.5f %.5f", x.name.c_str(), a, b, why, lon, lat); } };
      if (known(s)) { want(x.lon / 1000.0, x.lat / 1000.0, "as written"); continue; }
      std::map<u32, u32> dist{{s, 0}};
      std::vector<u32> todo{s}, found;
      for (u32 i = 0; i < todo.size(); ++i) {
        if (known(todo[i])) { found.push_back(todo[i]); continue; }
        for (auto t : nb[todo[i]]) { if (dist.emplace(t, dist[todo[i]] + 1).second) { todo.push_back(t); } }
      }
      if (found.empty()) { want(8, 47, "nothing known"); continue; }
      auto const at = [&](u32 f) { return std::pair{w.st[f].lon / 1000.0, w.st[f].lat / 1000.0}; };
      if (found.size() == 1) { want(at(found[0]).first - 0.1 * dist[found[0]], at(found[0]).second, "beside the only known neighbour"); continue; }
      double l0 = 1e9, l1 = -1e9, b0 = 1e9, b1 = -1e9;
      for (auto f : found) { auto const [a, b] = at(f); l0 = std::min(l0, a); l1 = std::max(l1, a); b0 = std::min(b0, b); b1 = std::max(b1, b); }
      if (!(lon >= l0 - 1e-6 && lon <= l1 + 1e-6 && lat >= b0 - 1e-6 && lat <= b1 + 1e-6)) { violation("station-position", "station %s is not between its neighbours", x.name.c_str()); }
      if (found.size() == 2) {  // on the line between the two, nearer to the one fewer stations away
        auto const [ax, ay] = at(found[0]);
        auto const [bx, by] = at(found[1]);
        double const len = std::hypot(bx - ax, by - ay), px = lon - ax, py = lat - ay;
        double const t = len < 1e-9 ? 0.5 : (px * (bx - ax) + py * (by - ay)) / len / len;
        u32 const da = dist[found[0]], db = dist[found[1]];
        if (!(std::abs(px * (by - ay) - py * (bx - ax)) <= 1e-4 * len) || (da < db && t > 0.5 + 1e-6) || (db < da && t < 0.5 - 1e-6)) { violation("station-position", "station %s is %.3f of the way between two stations %u and %u away, %.6f beside it", x.name.c_str(), t, da, db, len < 1e-9 ? 0 : (px * (by - ay) - py * (bx - ax)) / len); }
      }
    }
    for (u32 i = 0; i < inf->element_positions_.size(); ++i) { auto const& e = inf->element_positions_[i]; if (!e.valid() || !(std::abs(static_cast<double>(e.lat_)) <= 90.0)) { violation("element-position", "element %u is at %g %g", i, static_cast<double>(e.lon_), static_cast<double>(e.lat_)); } }
    drawing();
  }
  // The elements of a station lie around its position as they are drawn, ten
  // metres for a unit, turned together by some angle; those on a section lie
  // on the line between its ends, in order.
  void drawing() {
    std::vector<std::vector<u32>> of(w.st.size());
    for (u32 e = 0; e < w.el.size(); ++e) { of[w.el[e].st].push_back(e); }
    for (u32 s = 0; s < w.st.size(); ++s) {
      if (of[s].empty()) { continue; }
      auto const& c = inf->station_positions_[s];
      double const rad = 3.14159265358979 / 180, earth = 6378137, lat0 = static_cast<double>(c.lat_), lon0 = static_cast<double>(c.lon_);
      using xy = std::pair<double, double>;
      auto const at = [&](in::element::ptr e) { auto const& p = inf->element_positions_[e->id()]; return xy{(static_cast<double>(p.lat_) - lat0) * rad * earth, (static_cast<double>(p.lon_) - lon0) * rad * earth * std::cos((static_cast<double>(p.lat_) + lat0) / 2 * rad)}; };
      double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
      for (auto e : of[s]) { x0 = std::min(x0, drawn_x(w, e) / 10.0); x1 = std::max(x1, drawn_x(w, e) / 10.0); y0 = std::min(y0, drawn_y(e) / 10.0); y1 = std::max(y1, drawn_y(e) / 10.0); }
      auto const drawn = [&](u32 e) { return xy{-10 * (drawn_x(w, e) / 10.0 - (x0 + x1) / 2), -10 * (drawn_y(e) / 10.0 - (y0 + y1) / 2)}; };
      u32 far = of[s][0];
      for (auto e : of[s]) { if (std::hypot(drawn(e).first, drawn(e).second) > std::hypot(drawn(far).first, drawn(far).second)) { far = e; } }
      double const r = std::hypot(drawn(far).first, drawn(far).second), tol = 1 + r / 100;
      double const turn = std::atan2(at(E[far]).second, at(E[far]).first) - std::atan2(drawn(far).second, drawn(far).first);
      for (auto e : of[s]) {
        auto const [n, o] = drawn(e);
        auto const [an, ae] = at(E[e]);
        double const wn = n * std::cos(turn) - o * std::sin(turn), we = n * std::sin(turn) + o * std::cos(turn);
        if (!(std::hypot(an - wn, ae - we) <= tol)) { violation("element-position", "%s is drawn %.1f m north and %.1f m east of the middle of %s (turned by %.1f), placed at %.1f %.1f", name(nk_el(e, 0)).c_str(), wn, we, w.st[s].name.c_str(), turn / rad, an, ae); }
      }
      for (auto m : w.st[s].secs) {
        auto const& x = inf->graph_.sections_[S[m]];
        auto const a = at(x.rising_order_.front()), b = at(x.rising_order_.back());
        double const len = std::hypot(b.first - a.first, b.second - a.second);
        double last = 0;
        for (auto e : x.rising_order_) {
          auto const p = at(e);
          double const t = len < 1e-3 ? 0 : ((p.first - a.first) * (b.first - a.first) + (p.second - a.second) * (b.second - a.second)) / len;
          double const q = std::max(0.0, std::min(1.0, len < 1e-3 ? 0 : t / len));
          if (!(std::hypot(p.first - a.first - q * (b.first - a.first), p.second - a.second - q * (b.second - a.second)) <= tol) || t < last - tol) { violation("element-position", "element %u of section %u in %s is not placed between the ends of the section, in order", e->id(), m, w.st[s].name.c_str()); }
          last = t;
        }
      }
    }
  }
  void network() { elements(); nodes(); core(); positions(); }
  void routes() { elements(); nodes(); station_routes(); }
  void ways() { elements(); nodes(); interlocking(); }
  void all() { network(); station_routes(); interlocking(); if (o.il) { exclusion(); } }
};

// Everything a user can see, bit for bit.
u64 fingerprint(in::infrastructure const& f) {
  u64 h = 1;
  auto const num = [&](auto x) { h = mix(h, static_cast<u64>(x)); };
  auto const bits = [&](auto x) { u64 b = 0; std::memcpy(&b, &x, std::min(sizeof b, sizeof x)); h = mix(h, b); };
  auto const text = [&](auto const& s) { h = mix(h, hash_bytes(s.data(), s.size())); };
  auto const el = [&](in::element::ptr e) { num(e ? e->id() : ~0U); };
  auto const nd = [&](in::node::ptr n) { num(n ? n->id_ : ~0U); };
  for (auto const& e : f->graph_.elements_) { num(e->type()); num(e->rising()); for (auto n : e->neighbours()) { el(n); } for (auto n : e->nodes()) { nd(n); } }
  for (auto const& n : f->graph_.nodes_) { el(n->element_); nd(n->next_node_); nd(n->branch_node_); for (auto r : n->reverse_edges_) { nd(r); } }
  for (auto const& s : f->graph_.sections_) { for (auto e : s.rising_order_) { el(e); } for (auto e : s.falling_order_) { el(e); } bits(s.length_.val_); }
  for (auto const& v : f->graph_.element_id_to_section_ids_) { for (auto x : v) { num(x); } num(~1U); }
  for (auto const& s : f->stations_) {
    for (auto x : s->sections_) { num(x); }
    for (auto e : s->elements_) { el(e); }
    for (auto const& [n, r] : s->station_routes_) { text(n); num(r->id_); }
    for (auto const& [e, v] : s->element_to_routes_) { num(e); for (auto r : v) { num(r->id_); } }
    for (auto const& b : s->borders_) { el(b.element_); el(b.neighbour_element_); }
  }
  for (auto const& r : f->station_routes_) { num(r->path_->nodes_.size()); for (auto n : r->nodes()) { nd(n); } bits(r->length_.val_); for (auto const& x : r->extra_speed_limits_) { nd(x.node_); bits(x.limit_.val_); } }
  for (auto const& v : f->station_route_graph_.successors_) { for (auto r : v) { num(r->id_); } num(~2U); }
  for (auto const& v : f->station_route_graph_.predeccesors_) { for (auto r : v) { num(r->id_); } num(~3U); }
  for (auto const& r : f->interlocking_.routes_) { for (auto s : r.station_routes_) { num(s); } num(r.start_offset_); num(r.end_offset_); }
  for (auto const* t : {&f->interlocking_.starting_at_, &f->interlocking_.ending_at_, &f->interlocking_.halting_at_, &f->interlocking_.sr_to_participating_irs_, &f->interlocking_.station_to_irs_}) { for (auto const& v : *t) { for (auto x : v) { num(x); } num(~4U); } }
  for (auto const& v : f->exclusion_.exclusion_elements_.closed_) { for (auto x : v) { num(x); } num(~5U); }
  for (auto const& v : f->exclusion_.exclusion_sets_) { for (auto x : v) { num(x); } num(~6U); }
  for (auto const& s : f->exclusion_.exclusion_graph_.nodes_) { for (auto x : s.expanded_set()) { num(x); } num(~7U); }
  for (auto const& p : f->station_positions_) { bits(p.lon_); bits(p.lat_); }
  for (auto const& p : f->element_positions_) { bits(p.lon_); bits(p.lat_); }
  for (auto const& n : f->full_station_names_) { text(n); }
  return h;
}

void describe(world const& w, opts const& o) {
  if (!G_note()) { return; }
  note("%zu stations, %zu sections, %zu station routes, %zu interlocking routes, %zu files", w.st.size(), w.sec.size(), w.sr.size(), w.irs.size(), w.files.size());
  note("interlocking %d exclusion %d elements %d graph %d layout %d by index %d coordinates %d", o.il, o.ex, o.el, o.gr, o.layout, o.by_index, w.csv_there && !o.no_csv);
}
world some_world() {
  size z;
  switch (choose(4)) { case 1: z = {1, 2, 2, 3, 3, 400}; break; case 2: z = {5, 3, 4, 6, 6, 400}; break; case 3: z = {4, 2, 2, 4, 4, 400}; break; default: break; }
  auto w = draw_world(z);
  if (w.too_many) { discard("too many interlocking routes"); }
  write_files(w);
  return w;
}
u64 shape(world const& w) { return mix(mix(w.st.size(), w.sec.size()), mix(w.sr.size(), w.irs.size())); }

void import_run() {
  draw_heap();
  auto const w = some_world();
  auto const o = draw_opts();
  put_all(w);
  describe(w, o);
  disk::Cfg dc;
  dc.dir_order = true;
  dc.read_short = choose(2) * 20;
  // what makes the description unusable
  u32 const harm = choose(8) == 7 ? 1 + choose(3) : 0;
  if (harm == 1) {
    std::vector<std::string> xs;
    for (auto const& [n, c] : w.files) { if (n.ends_with(".xml") && n[0] != 'B') { xs.push_back(n); } }
    auto const& n = xs[choose(static_cast<u32>(xs.size()))];
    auto const& c = w.files.at(n);
    auto const close = c.rfind("</");
    disk::put(std::string(DIR) + "/" + n, c.substr(0, 1 + choose(static_cast<u32>(close))));
    fault(F_TRUNCATED_INPUT);
    note("%s is truncated", n.c_str());
  } else if (harm == 2) {
    std::vector<std::string> xs;
    for (auto const& [n, c] : w.files) { if (n != "exclusion_sets") { xs.push_back(n); } }
    auto const& n = xs[choose(static_cast<u32>(xs.size()))];
    disk::remove(std::string(DIR) + "/" + n);
    fault(F_MISSING_FILE);
    note("%s is missing", n.c_str());
  } else if (harm == 3) {
    if (w.irs.empty() || !o.il || !o.ex) { discard("no interlocking"); }
    disk::put(std::string(DIR) + "/exclusion_sets", "0 " + std::to_string(w.irs.size() + choose(1000)) + "\n");
    fault(F_MALFORMED_INPUT);
  }
  disk::arm(dc);
  auto g = import(o, draw_sched(false, true), 0);
  disk::disarm();
  if (w.sr.size() > 1) { nontrivial(); }
  if (harm) {
    if (g.inf) { violation(harm == 1 ? "truncated-accepted" : harm == 2 ? "incomplete-accepted" : "unknown-route-accepted", "an infrastructure with %s was imported", harm == 1 ? "a truncated file" : harm == 2 ? "a missing file" : "exclusion sets of unknown routes"); }
    return;
  }
  if (!g.inf) { violation("import-failed", "importing an intact infrastructure failed: %s", g.what.c_str()); }
  checker{w, *g.inf, o, {}, {}, {}, {}, {}}.network();
  state(shape(w));
  auto const h = fingerprint(*g.inf);
  draw_heap();
  disk::arm(dc);
  auto g2 = import(o, draw_sched(false, true), 0);
  disk::disarm();
  if (!g2.inf || fingerprint(*g2.inf) != h) { violation("not-reproducible", "importing the same files again gives another infrastructure"); }
}
Reg r_i01("I01", "import", nullptr, import_run, 1);

enum part { ROUTES, WAYS, EXCLUSION };
template <part P> void part_run() {
  draw_heap();
  auto const w = some_world();
  auto o = draw_opts();
  if (P == ROUTES) { o.il = choose(8) == 7; } else { o.il = true; }
  if (P == EXCLUSION) { o.ex = true; o.el = choose(10) != 9; }
  put_all(w);
  describe(w, o);
  disk::Cfg dc;
  dc.dir_order = true;
  disk::arm(dc);
  auto g = import(o, draw_sched(false, true), 0);
  disk::disarm();
  if (!g.inf) { violation("import-failed", "importing an intact infrastructure failed: %s", g.what.c_str()); }
  if (P == ROUTES ? w.sr.size() > 1 : w.irs.size() > 1) { nontrivial(); }
  checker c{w, *g.inf, o, {}, {}, {}, {}, {}};
  if (P == ROUTES) { c.routes(); } else if (P == WAYS) { c.ways(); } else { c.elements(); c.nodes(); c.exclusion(); }
  state(shape(w));
}
Reg r_i02("I02", "station-routes", nullptr, part_run<ROUTES>, 1);
Reg r_i03("I03", "interlocking", nullptr, part_run<WAYS>, 1);
Reg r_x01("X01", "generated", nullptr, part_run<EXCLUSION>, 1);

void fault_run() {
  draw_heap();
  auto const w = some_world();
  auto const o = draw_opts();
  put_all(w);
  describe(w, o);
  disk::Cfg dc;
  dc.dir_order = true;
  static unsigned const p[] = {4, 16, 64, 1};
  unsigned const q = p[choose(4)];
  u64 alloc = 0;
  bool create_fail = false;
  switch (choose(8)) {
    case 1: dc.open_err = q; break;
    case 2: dc.stat_err = q; break;
    case 3: dc.mmap_err = q; break;
    case 4: dc.read_err = q; break;
    case 5: case 6: alloc = choose(3) == 2 ? IN_PUGI + 1 + choose(24) : 1 + choose(choose(2) ? 60 : 6000); break;
    case 7: create_fail = true; break;
    default: dc.stat_err = dc.open_err = dc.mmap_err = dc.read_err = q; break;
  }
  dc.read_short = choose(2) * 30;
  dc.skip = choose(4) * choose(8);
  auto const s = draw_sched(create_fail, true);
  allow_failstop(create_fail || alloc > 0);
  disk::arm(dc);
  auto g = import(o, s, alloc);
  bool const hit = disk::injected() > 0 || g.oom || fault_count(F_THREAD_CREATE_FAIL) > 0;
  disk::disarm();
  event(mix(g.inf != nullptr, hit));
  if (w.sr.size() > 1) { nontrivial(); }
  state(mix(shape(w), g.inf ? 0 : hash_str(g.what)));
  if (g.inf) { checker{w, *g.inf, o, {}, {}, {}, {}, {}}.all(); return; }
  if (!hit) { violation("import-failed", "importing an intact infrastructure failed: %s", g.what.c_str()); }
  auto g2 = import(o, draw_sched(false, true), 0);
  if (!g2.inf) { violation("no-recovery", "the import still fails after the fault: %s", g2.what.c_str()); }
  checker{w, *g2.inf, o, {}, {}, {}, {}, {}}.all();
}
// ---- the exclusion graph exporter, started by its own main
struct nowhere : std::streambuf {
  int overflow(int c) override { return c; }
  std::streamsize xsputn(char const*, std::streamsize n) override { return n; }
};
struct tool_result { int rc = 0; bool oom = false; std::string what; };
tool_result run_tool(std::string const& dir, std::string const& out, u32 style, SchedCfg const& s, u64 nth_alloc) {
  tool_result r;
  std::vector<std::string> a{"export_exclusion_graph"};
  auto const flag = [&](std::string const& f, std::string const& v) { if (style & 1) { a.push_back(f + "=" + v); } else { a.push_back(f); a.push_back(v); } };
  if (style & 2) { flag("--output_path", out); }
  flag("--infra_path", dir);
  if (!(style & 2)) { flag("--output_path", out); }
  std::vector<char const*> v;
  for (auto const& x : a) { v.push_back(x.c_str()); }
  nowhere n;
  auto* const old = std::cout.rdbuf(&n);
  with_sched(s, [&] {
    if (nth_alloc) { arm_refusal(nth_alloc); }
    try { r.rc = toolmain(static_cast<int>(v.size()), v.data()); }
    catch (std::exception const& e) { no_alloc_fail const na; r.rc = 2; r.what = e.what(); }
    catch (...) { r.rc = 2; }
    r.oom = alloc_fail_fired();
    arm_refusal(0);
  });
  std::cout.rdbuf(old);
  return r;
}
void check_graph_file(std::vector<std::set<u32>> const& graph, std::string const& out) {
  std::string c;
  if (!disk::get(out, c)) { violation("graph-missing", "the export ended well without a file"); }
  std::istringstream is{c};
  std::string line;
  for (u32 id = 0; id < graph.size(); ++id) {
    if (!std::getline(is, line) || is.eof()) { violation("graph-incomplete", "%zu routes, the file ends at route %u", graph.size(), id); }
    std::vector<u32> want, got;
    for (auto x : graph[id]) { if (x < id) { want.push_back(x); } }
    std::istringstream ls{line};
    std::string t;
    while (ls >> t) { char* e = nullptr; got.push_back(static_cast<u32>(std::strtoul(t.c_str(), &e, 10))); if (*e) { violation("graph-text", "'%s' in the line of route %u", t.c_str(), id); } }
    if (want != got) { violation("graph-line", "route %u conflicts with %zu earlier routes, the file has %zu: %s", id, want.size(), got.size(), line.c_str()); }
  }
  if (std::getline(is, line)) { violation("graph-extra", "more lines than routes: %s", line.c_str()); }
}
void export_graph_run() {
  draw_heap();
  auto const w = some_world();
  opts o;
  o.no_csv = true;
  put_all(w);
  describe(w, o);
  auto g = import(o, draw_sched(false, true), 0);
  if (!g.inf) { violation("import-failed", "importing an intact infrastructure failed: %s", g.what.c_str()); }
  checker c{w, *g.inf, o, {}, {}, {}, {}, {}};
  c.elements(); c.nodes(); c.exclusion();
  if (w.irs.size() > 1) { nontrivial(); }
  std::string const out = "/simfs/graph.txt";
  if (choose(3) == 2) { disk::put(out, "0 1 2\n1 2\n2\n" + std::string(choose(2) * 9000, '\n')); }
  disk::Cfg dc;
  dc.dir_order = true;
  u64 alloc = 0;
  bool create_fail = false;
  static unsigned const p[] = {2, 1, 8, 64};
  unsigned const q = p[choose(4)];
  switch (choose(10)) {
    case 1: case 2: dc.write_err = q; break;
    case 3: case 4: dc.write_enospc = q; break;
    case 5: dc.close_err = q; dc.skip = choose(40); break;
    case 6: dc.open_err = dc.read_err = dc.stat_err = dc.mmap_err = q; dc.skip = choose(30); break;
    case 7: alloc = choose(3) == 2 ? IN_PUGI + 1 + choose(24) : 1 + choose(choose(2) ? 60 : 6000); break;
    case 8: create_fail = true; break;
    default: break;
  }
  dc.write_short = choose(2) * 30;
  dc.read_short = choose(2) * 30;
  auto const s = draw_sched(create_fail, true);
  allow_failstop(create_fail || alloc > 0);
  disk::arm(dc);
  auto const r = run_tool(DIR, out, choose(4), s, alloc);
  bool const hit = disk::injected() > 0 || r.oom || fault_count(F_THREAD_CREATE_FAIL) > 0;
  disk::disarm();
  event(mix(static_cast<u64>(r.rc), hit));
  state(mix(shape(w), mix(static_cast<u64>(r.rc), hit)));
  if (r.rc == 0) { check_graph_file(c.graph, out); return; }
  if (!hit) { violation("export-failed", "the export failed: %d %s", r.rc, r.what.c_str()); }
  auto const r2 = run_tool(DIR, out, choose(4), draw_sched(false, true), 0);
  if (r2.rc != 0) { violation("no-recovery", "the export still fails after the fault: %s", r2.what.c_str()); }
  check_graph_file(c.graph, out);
}
Reg r_x05("X05", "export-graph", nullptr, export_graph_run, 1);
Reg r_f03("F03", "import-faults", nullptr, fault_run, 1);
}  // namespace
