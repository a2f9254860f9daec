// Random railway infrastructures: the files describing them and, independent of
// the code under test, what an import of these files must yield.
#pragma once
#include <sys/stat.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "soro/infrastructure/graph/type.h"

#include "core.h"

namespace gen {
using sim::u32;
using sim::u64;
using sim::choose;
using T = soro::infra::type;
constexpr u32 NONE = ~0U;

enum K { BORDER, BUMPER, TEND, LS, SWITCH, CROSS };
struct leg { u32 sec = NONE; bool high = false; u64 rp = 0; u32 m = 0; };
struct elem {
  K k;
  u32 st;
  leg l[4];
  bool a = false, b = false;      // arcs SL-ER and SR-EL of a cross
  bool branch_left = false;
  std::string name, ui;
  u32 sign = 0, mate = NONE;      // borders
  u32 line = 0;
  std::string partner;
};
struct itype { T t; char const* xml; bool dir; int key_r, key_f; };
// in the order of elements at the same kilometre
inline std::vector<itype> const& itypes() {
  static std::vector<itype> const v{
      {T::HALT, "HalteplatzGz", true, 110, 111}, {T::MAIN_SIGNAL, "Hauptsignal", true, 120, 121}, {T::HALT, "HalteplatzRzRechts", true, 110, 111},
      {T::MAIN_SIGNAL, "Hauptsignal", true, 120, 121}, {T::EOTD, "FstrZugschlussstelle", true, 150, 151}, {T::SLOPE, "Neigung", false, 10, 10},
      {T::SPEED_LIMIT, "GeschwZulaessig", true, 220, 221}, {T::APPROACH_SIGNAL, "Vorsignal", true, 130, 131}, {T::TUNNEL, "Tunnel", false, 0, 0},
      {T::ENTRY, "Zugang", false, 20, 20}, {T::RUNTIME_CHECKPOINT_UNDIRECTED, "Fahrzeitmesspunkt", false, 100, 100}, {T::RUNTIME_CHECKPOINT, "Fahrzeitmesspunkt", true, 101, 102},
      {T::HALT, "HalteplatzRzLinks", true, 110, 111}, {T::HALT, "HalteplatzRzBeide", true, 110, 111}, {T::HALT, "HalteplatzRzRechtsLinks", true, 110, 111},
      {T::PROTECTION_SIGNAL, "Schutzsignal", true, 140, 141}, {T::EOTD, "SignalZugschlussstelle", true, 150, 151}, {T::LZB_START, "LZBAnfang", true, 160, 161},
      {T::LZB_BLOCK_SIGN, "LZBBlockkennzeichen", true, 170, 171}, {T::LZB_END, "LZBEnde", true, 180, 181}, {T::ETCS_BLOCK_SIGN, "ETCSBlockkennzeichen", true, 200, 201},
      {T::ETCS_END, "ETCSEnde", true, 210, 211}, {T::SPEED_LIMIT, "GeschwEndeSpeziell", true, 220, 221}, {T::FORCED_HALT, "Zwangshalt", true, 230, 231},
      {T::POINT_SPEED, "Punktgeschw", true, 240, 241}, {T::BRAKE_PATH, "Bremsweg", true, 250, 251}, {T::TRACK_NAME, "Gleisbezeichnung", false, 300, 300},
      {T::LEVEL_CROSSING, "Bahnuebergang", false, 310, 310}, {T::ETCS_START, "ETCSAnfang", true, 190, 191}};
  return v;
}
struct item {
  u32 ty;
  bool rising = false;
  u64 rp = 0;
  u32 m = 0;
  std::string name;
  int v1 = 0, v2 = 0;             // numbers of the element's data
  u32 eff = 0;
  itype const& t() const { return itypes()[ty]; }
  int key() const { return rising ? t().key_r : t().key_f; }
  // what a halt is called: its name, by the operator, by others; any may be missing
  std::string called(u32 k) const { return v2 % (k == 0 ? 4 : k == 1 ? 5 : 7) == 3 ? "" : std::string(k == 0 ? "" : k == 1 ? "B" : "E") + name; }
  std::string xml() const { return std::string(t().xml) + (t().dir ? (rising ? "S" : "F") : ""); }
};
struct sect {
  u32 st, line;
  u32 lo_el, lo_port, hi_el, hi_port, lo_m, hi_m;
  std::vector<item> items;
  std::vector<u32> rise, fall;    // items met when travelling in that direction
};
// a place and direction of travel, one per node of the network
using nk = u64;
inline nk nk_item(u32 s, u32 i, bool rising, bool dir) { return 1ULL << 60 | u64{s} << 24 | u64{i} << 4 | (dir ? 0 : rising); }
inline nk nk_el(u32 e, u32 key) { return 2ULL << 60 | u64{e} << 24 | key; }
inline nk nk_meta(u32 s, bool rising) { return 3ULL << 60 | u64{s} << 24 | rising; }
inline u32 nk_kind(nk n) { return static_cast<u32>(n >> 60); }
inline u32 nk_a(nk n) { return static_cast<u32>(n >> 24); }
inline u32 nk_b(nk n) { return static_cast<u32>(n >> 4) & 0xfffff; }
inline u32 nk_key(nk n) { return static_cast<u32>(n) & 15; }

struct spl { u32 idx; int limit; u32 eff; u64 rp; std::string xml; };
struct route {
  u32 id = NONE, st = 0;
  std::string name;
  std::vector<nk> nodes;
  std::vector<bool> course;       // true: branch
  u64 start_rp = 0, end_rp = 0;
  std::string start_xml, end_xml;
  std::set<u32> omitted;          // indices into nodes
  std::vector<u32> ms;            // main signals that count
  std::vector<spl> spls;
  u32 pass = NONE, freight = NONE, rtcp = NONE;
  std::set<u32> attrs;
  bool through_start = false, through_end = false;
  bool etcs = false;              // not usable without ETCS
  long length = 0;
  std::vector<u32> succ, pred;
  u32 from_st = NONE, to_st = NONE;
};
struct stat_ { std::string name, full; std::vector<u32> secs; std::vector<u32> routes; bool has_full = false; bool coords = false, half = false; int lat = 0, lon = 0; std::vector<std::string> publish; };
struct seg { u32 from, to; int art; };
struct line_ { u32 id; std::vector<seg> segs; };
struct variant_ { u32 id; std::string name; u32 weight, speed; int f1, f2; bool ok; };
struct series_ { std::string nr, company; std::vector<variant_> vs; };
struct ilr { std::vector<u32> srs; u32 start, end; bool operator<(ilr const& o) const { return std::tie(srs, start, end) < std::tie(o.srs, o.start, o.end); } bool operator==(ilr const&) const = default; };

struct world {
  std::vector<elem> el;
  std::vector<sect> sec;
  std::vector<stat_> st;
  std::vector<route> sr;
  std::vector<line_> lines;
  std::vector<series_> series;
  std::vector<ilr> irs;           // with interlocking
  bool too_many = false, etcs_seen = false;
  bool traffic = false;           // made for trains to run on it
  std::string version; u32 number = 0;
  bool defaults = false; int form_time = 0, brake = 0, limit = 0;
  std::map<std::string, std::string> files;   // below the directory
  std::string csv; bool csv_there = false;
  std::vector<std::vector<u32>> sets;         // exclusion sets file
  bool sets_there = false;
  u64 next_rp = 0;
  u64 rp() { return 1000 + (++next_rp * 7919 + 13) % 1000003; }
  static std::string km(u32 m) { char b[32]; snprintf(b, sizeof b, "%u,%03u", m / 1000, m % 1000); return b; }

  // ---- travelling
  u32 enter(u32 e, u32 port) const {
    switch (el[e].k) { case LS: return port; case SWITCH: return port == 0 ? 0 : 1; case CROSS: return port; default: return 0; }
  }
  nk depart(u32 e, u32 port) const {  // first node after leaving e by port
    auto const& l = el[e].l[port];
    auto const& s = sec[l.sec];
    bool const rising = !l.high;
    auto const& o = rising ? s.rise : s.fall;
    if (o.empty()) { return nk_meta(l.sec, rising); }
    return nk_item(l.sec, o.front(), rising, s.items[o.front()].t().dir);
  }
  nk arrive(u32 s, bool rising) const { auto const& x = sec[s]; u32 const e = rising ? x.hi_el : x.lo_el; return nk_el(e, enter(e, rising ? x.hi_port : x.lo_port)); }
  bool rising_of(nk n) const { if (nk_kind(n) == 1) { auto const& it = sec[nk_a(n)].items[nk_b(n)]; return it.t().dir ? it.rising : nk_key(n) != 0; } return nk_key(n) != 0; }
  std::pair<nk, nk> next(nk n) const {  // straight on, branching off (0: none)
    switch (nk_kind(n)) {
      case 1: {
        auto const& s = sec[nk_a(n)];
        bool const r = rising_of(n);
        auto const& o = r ? s.rise : s.fall;
        auto it = std::find(o.begin(), o.end(), nk_b(n)) + 1;
        if (it == o.end()) { return {arrive(nk_a(n), r), 0}; }
        return {nk_item(nk_a(n), *it, r, s.items[*it].t().dir), 0};
      }
      case 3: return {arrive(nk_a(n), nk_key(n) != 0), 0};
      default: break;
    }
    u32 const e = nk_a(n), k = nk_key(n);
    auto const& x = el[e];
    switch (x.k) {
      case LS: return {depart(e, k == 0 ? 1 : 0), 0};
      case SWITCH: return k == 0 ? std::pair{depart(e, 1), depart(e, 2)} : std::pair{depart(e, 0), nk{0}};
      case CROSS: {
        static u32 const straight[] = {1, 0, 3, 2}, arc[] = {3, 2, 1, 0};
        bool const has = (k == 0 || k == 3) ? x.a : x.b;
        return {depart(e, straight[k]), has ? depart(e, arc[k]) : nk{0}};
      }
      default: break;
    }
    if (k == 1) { return {depart(e, 0), 0}; }
    return {x.k == BORDER && x.mate != NONE ? nk_el(x.mate, 1) : 0, 0};
  }
  bool is_switch(nk n) const { return nk_kind(n) == 2 && (el[nk_a(n)].k == SWITCH || (el[nk_a(n)].k == CROSS && (el[nk_a(n)].a || el[nk_a(n)].b))); }
  T type_of(nk n) const {
    if (nk_kind(n) == 1) { return sec[nk_a(n)].items[nk_b(n)].t().t; }
    if (nk_kind(n) == 3) { return T::META; }
    static T const t[] = {T::BORDER, T::BUMPER, T::TRACK_END, T::LINE_SWITCH, T::SIMPLE_SWITCH, T::CROSS};
    return t[el[nk_a(n)].k];
  }
  item const* item_of(nk n) const { return nk_kind(n) == 1 ? &sec[nk_a(n)].items[nk_b(n)] : nullptr; }
  bool is_end(nk n) const { return nk_kind(n) == 2 && el[nk_a(n)].k <= TEND; }
  // metres between two consecutive nodes
  long step(nk a, nk b) const {
    auto const pos = [&](nk n, nk other, u32 s) -> long {
      (void)other;
      if (nk_kind(n) == 1) { return sec[s].items[nk_b(n)].m; }
      if (nk_kind(n) == 3) { return nk_key(n) ? sec[s].lo_m : sec[s].hi_m; }
      return -1;
    };
    if (nk_kind(a) == 2 && nk_kind(b) == 2) { return 0; }
    u32 const s = nk_kind(a) != 2 ? nk_a(a) : nk_a(b);
    bool const r = rising_of(nk_kind(a) != 2 ? a : b);
    long const pa = nk_kind(a) == 2 ? (r ? sec[s].lo_m : sec[s].hi_m) : pos(a, b, s);
    long const pb = nk_kind(b) == 2 ? (r ? sec[s].hi_m : sec[s].lo_m) : pos(b, a, s);
    return std::labs(pa - pb);
  }
};

struct track { u32 line; bool up; u32 m, e, port; u64 kin = 0; };
struct stub { u32 st, e, line; bool up; u32 m; };

inline u32 add_el(world& w, K k, u32 st) { w.el.push_back({}); auto& e = w.el.back(); e.k = k; e.st = st; for (auto& l : e.l) { l.rp = w.rp(); } return static_cast<u32>(w.el.size() - 1); }
inline track from(world& w, track const& t, u32 e, u32 port) { w.el[e].l[port].m = t.m; return {t.line, t.up, t.m, e, port, t.kin}; }
// ends the track in port of e: a section is complete
inline void close(world& w, track& t, u32 e, u32 port, u32 st, u32 item_max, u32 ms_bias) {
  u32 const len = choose(12) == 11 ? 0 : 1 + choose(choose(3) ? 900 : 5000);
  u32 const m2 = t.up ? t.m + len : t.m - len;
  sect s;
  s.st = st; s.line = t.line;
  s.lo_m = std::min(t.m, m2); s.hi_m = std::max(t.m, m2);
  u32 const id = static_cast<u32>(w.sec.size());
  w.el[t.e].l[t.port].sec = id; w.el[t.e].l[t.port].high = !t.up; w.el[t.e].l[t.port].m = t.m;
  w.el[e].l[port].sec = id; w.el[e].l[port].high = t.up; w.el[e].l[port].m = m2;
  if (t.up) { s.lo_el = t.e; s.lo_port = t.port; s.hi_el = e; s.hi_port = port; } else { s.hi_el = t.e; s.hi_port = t.port; s.lo_el = e; s.lo_port = port; }
  u32 const n = choose(item_max + 1);
  for (u32 i = 0; i < n; ++i) {
    item it;
    u32 const all = static_cast<u32>(itypes().size());
    it.ty = w.traffic ? (choose(3) ? choose(5) : choose(all - 1)) : choose(ms_bias) == 0 ? choose(4) : choose(8) ? choose(all - 1) : all - 1;
    it.rising = it.t().dir && choose(2) == 0;
    it.rp = w.rp();
    // often at the same kilometre as something else
    it.m = !s.items.empty() && choose(3) == 2 ? s.items[choose(static_cast<u32>(s.items.size()))].m : choose(8) == 7 ? (choose(2) ? s.lo_m : s.hi_m) : s.lo_m + choose(s.hi_m - s.lo_m + 1);
    it.name = "N" + std::to_string(it.rp);
    it.v1 = static_cast<int>(w.traffic ? 6 + choose(14) : choose(20)) * 10; it.v2 = static_cast<int>(choose(30)); it.eff = choose(3);
    if (it.t().t == T::ETCS_START) { w.etcs_seen = true; }
    s.items.push_back(it);
  }
  for (u32 i = 0; i < n; ++i) {
    if (!s.items[i].t().dir || s.items[i].rising) { s.rise.push_back(i); }
    if (!s.items[i].t().dir || !s.items[i].rising) { s.fall.push_back(i); }
  }
  auto const& I = s.items;
  std::sort(s.rise.begin(), s.rise.end(), [&](u32 a, u32 b) { return std::make_tuple(I[a].m, I[a].key(), I[a].rp) < std::make_tuple(I[b].m, I[b].key(), I[b].rp); });
  std::sort(s.fall.begin(), s.fall.end(), [&](u32 a, u32 b) { return std::make_tuple(-static_cast<long>(I[a].m), I[a].key(), I[a].rp) < std::make_tuple(-static_cast<long>(I[b].m), I[b].key(), I[b].rp); });
  w.sec.push_back(s);
  w.st[st].secs.push_back(id);
  t.m = m2; t.e = e; t.port = port;
}

inline void draw_routes(world& w, u32 st, u32 count) {
  std::vector<nk> ends, inner, halts;
  for (u32 e = 0; e < w.el.size(); ++e) { if (w.el[e].st == st && w.el[e].k <= TEND) { ends.push_back(nk_el(e, 1)); } }
  for (auto s : w.st[st].secs) {
    for (u32 i = 0; i < w.sec[s].items.size(); ++i) { auto const& it = w.sec[s].items[i]; if (it.t().dir) { (it.t().t == T::HALT ? halts : inner).push_back(nk_item(s, i, it.rising, true)); } }
  }
  if (w.traffic) { count = std::max(count, static_cast<u32>(ends.size())); }
  for (u32 c = 0; c < count; ++c) {
    route r;
    r.st = st;
    if (!(w.traffic && c < ends.size()) && !w.st[st].routes.empty() && choose(4) == 3) {  // same way as another route
      auto const& o = w.sr[w.st[st].routes[choose(static_cast<u32>(w.st[st].routes.size()))]];
      r.nodes = o.nodes; r.course = o.course;
    } else {
      u32 const how = choose(8);
      nk cur;
      if (w.traffic && c < ends.size()) { cur = ends[c]; }
      else if (w.traffic ? how == 7 && !halts.empty() : how >= 6 && !halts.empty()) { cur = halts[choose(static_cast<u32>(halts.size()))]; }
      else if (how == 5 && !inner.empty()) { cur = inner[choose(static_cast<u32>(inner.size()))]; }
      else { cur = ends[choose(static_cast<u32>(ends.size()))]; }
      bool const early = choose(w.traffic ? 8 : 3) == 2;
      for (;;) {
        r.nodes.push_back(cur);
        if (r.nodes.size() > 1 && w.is_end(cur)) { break; }
        if (early && r.nodes.size() > 1 && nk_kind(cur) == 1 && w.item_of(cur)->t().dir && choose(w.type_of(cur) == T::HALT ? 2 : 30) == 0) { break; }
        auto const [straight, arc] = w.next(cur);
        bool const off = w.is_switch(cur) && choose(2) == 1;
        if (w.is_switch(cur)) { r.course.push_back(off); }
        cur = off && arc != 0 ? arc : straight;
      }
    }
    auto const where = [&](nk n, std::string& xml) -> u64 {
      if (auto const* i = w.item_of(n)) { xml = i->xml(); return i->rp; }
      static char const* const names[] = {"Betriebsstellengrenze", "Prellbock", "Gleisende"};
      xml = names[w.el[nk_a(n)].k];
      return w.el[nk_a(n)].l[0].rp;
    };
    r.start_rp = where(r.nodes.front(), r.start_xml);
    r.end_rp = where(r.nodes.back(), r.end_xml);
    r.id = static_cast<u32>(w.sr.size());
    r.name = "R" + std::to_string(choose(3)) + "_" + std::to_string(r.id);
    bool const om = choose(3) == 2;
    std::vector<u32> hs, cp;
    for (u32 i = 0; i < r.nodes.size(); ++i) {
      auto const t = w.type_of(r.nodes[i]);
      auto const* it = w.item_of(r.nodes[i]);
      if (om && it && it->t().dir && !(w.traffic && t == T::HALT) && choose(4) == 3) { r.omitted.insert(i); }
      if (t == T::MAIN_SIGNAL && !r.omitted.count(i)) { r.ms.push_back(i); }
      if (t == T::HALT) { hs.push_back(i); }
      if (t == T::RUNTIME_CHECKPOINT || t == T::RUNTIME_CHECKPOINT_UNDIRECTED || (it && !(w.traffic && t == T::MAIN_SIGNAL) && choose(20) == 19)) { cp.push_back(i); }
      if (i > 0) { r.length += w.step(r.nodes[i - 1], r.nodes[i]); }
    }
    if (!hs.empty() && choose(w.traffic ? 8 : 3)) { r.pass = hs[choose(static_cast<u32>(hs.size()))]; }
    if (!hs.empty() && choose(w.traffic ? 8 : 3)) { r.freight = hs[choose(static_cast<u32>(hs.size()))]; }
    if (!cp.empty() && choose(3)) { r.rtcp = cp[choose(static_cast<u32>(cp.size()))]; }
    for (u32 i = 0, n = choose(4); i < n; ++i) { r.attrs.insert(choose(11)); }
    if (choose(3) == 2) {
      for (u32 i = 0; i < r.nodes.size(); ++i) {
        auto const* it = w.item_of(r.nodes[i]);
        auto const k = nk_kind(r.nodes[i]);
        if (!((it && it->t().dir) || (k == 2 && (w.el[nk_a(r.nodes[i])].k == SWITCH || w.el[nk_a(r.nodes[i])].k <= TEND))) || choose(3)) { continue; }
        std::string xml = "Weichenanfang";
        u64 const rp = it ? it->rp : w.el[nk_a(r.nodes[i])].l[0].rp;
        if (it) { xml = it->xml(); } else if (k == 2 && w.el[nk_a(r.nodes[i])].k <= TEND) { where(r.nodes[i], xml); }
        r.spls.push_back({i, static_cast<int>(1 + choose(16)) * 10, choose(3), rp, xml});
      }
    }
    auto const t0 = w.type_of(r.nodes.front()), t1 = w.type_of(r.nodes.back());
    r.through_start = t0 == T::BORDER || t0 == T::TRACK_END;
    r.through_end = t1 == T::BORDER || t1 == T::TRACK_END;
    w.st[st].routes.push_back(r.id);
    w.sr.push_back(r);
  }
}

// Key figures: whether a line of this kind has signals (besides ETCS)
inline bool art_signals(int a) { static std::set<int> const no{3, 13, 14, 24}; return a != 0 && !no.count(a); }
inline bool art_lzb(int a) { return a == 2 || a == 3; }
inline bool art_etcs(int a) { static std::set<int> const e{8, 9, 12, 13, 18, 23}; return e.count(a) > 0; }

struct size { u32 stations = 3, tracks = 3, ops = 4, items = 6, routes = 6, ir_cap = 400; bool traffic = false; };

inline world draw_world(size const& z) {
  world w;
  w.traffic = z.traffic;
  u32 const ns = 1 + choose(z.stations);
  u32 const ms_bias = 1 + choose(4);
  std::vector<stub> stubs;
  u32 next_line = 100 + choose(50), next_sign = 1, foreign = 0;
  auto const fresh_line = [&] { return choose(3) == 2 ? next_line++ : next_line; };
  auto const other_line = [&](track& t) {
    t.line = ++next_line;
    t.up = choose(3) == 2 ? !t.up : t.up;
    t.m = 30000 + choose(3) * 10000;
  };
  for (u32 s = 0; s < ns; ++s) {
    w.st.push_back({});
    w.st[s].name = "S" + std::to_string(s * 7 % 5) + "_" + std::to_string(s);
    std::vector<track> ts;
    for (u32 i = 0; i < stubs.size();) {
      if (choose(4) == 3) { ++i; continue; }
      auto const b = stubs[i];
      stubs.erase(stubs.begin() + i);
      u32 const e = add_el(w, BORDER, s);
      w.el[e].mate = b.e; w.el[b.e].mate = e;
      w.el[e].line = b.line;
      w.el[e].sign = w.el[b.e].sign;
      w.el[e].partner = w.st[b.st].name; w.el[b.e].partner = w.st[s].name;
      ts.push_back(from(w, {b.line, b.up, b.m, 0, 0}, e, 0));
      if (ts.size() >= z.tracks + 1) { break; }
    }
    u32 const extra = (ts.empty() ? 1 : 0) + choose(z.tracks);
    for (u32 i = 0; i < extra; ++i) {
      u32 const e = add_el(w, static_cast<K>(choose(3)), s);
      u32 const ln = ts.empty() || choose(2) ? fresh_line() : ts.front().line;
      bool up = choose(4) != 3;
      u32 m = 20000 + choose(4) * 10000 + choose(1000);
      for (auto const& t : ts) { if (t.line == ln && choose(3)) { up = t.up; m = t.m; } }
      w.el[e].line = ln;
      w.el[e].sign = next_sign++;
      w.el[e].partner = "X" + std::to_string(foreign++);
      ts.push_back(from(w, {ln, up, m, 0, 0}, e, 0));
    }
    for (u32 i = 0; i < ts.size(); ++i) { ts[i].kin = 1ULL << i; }
    u32 const ops = choose(z.ops + 1);
    for (u32 o = 0; o < ops; ++o) {
      if (ts.empty()) { break; }
      u32 const op = choose(6), i = choose(static_cast<u32>(ts.size()));
      if (op == 0 && ts.size() < z.tracks + 3) {  // split
        u32 const e = add_el(w, SWITCH, s);
        close(w, ts[i], e, 0, s, z.items, ms_bias);
        bool const br = choose(2) == 1;
        auto t1 = ts[i], t2 = ts[i];
        if (choose(4) == 3) { other_line(t1); }
        if (choose(4) == 3) { other_line(t2); }
        ts[i] = from(w, t1, e, br ? 2 : 1);
        ts.push_back(from(w, t2, e, br ? 1 : 2));
        w.el[e].branch_left = choose(2) == 1; w.el[e].name = "W" + std::to_string(e); w.el[e].ui = choose(2) ? "U" + std::to_string(e) : "";
      } else if (op == 1) {  // merge
        std::vector<u32> js;
        for (u32 j = 0; j < ts.size(); ++j) { if (j != i && (ts[j].up == ts[i].up || ts[j].line != ts[i].line)) { js.push_back(j); } }
        if (js.empty()) { continue; }
        u32 const j = js[choose(static_cast<u32>(js.size()))];
        u32 const e = add_el(w, SWITCH, s);
        w.el[e].branch_left = choose(2) == 1; w.el[e].name = "W" + std::to_string(e); w.el[e].ui = choose(2) ? "U" + std::to_string(e) : "";
        close(w, ts[i], e, 1, s, z.items, ms_bias);
        close(w, ts[j], e, 2, s, z.items, ms_bias);
        if (choose(4) == 3) { other_line(ts[i]); }
        ts[i] = from(w, ts[i], e, 0);
        ts[i].kin |= ts[j].kin;
        ts.erase(ts.begin() + j);
      } else if (op == 2 && ts.size() > 1) {  // cross
        u32 j = choose(static_cast<u32>(ts.size() - 1));
        if (j >= i) { ++j; }
        u32 const e = add_el(w, CROSS, s);
        w.el[e].a = choose(2) == 1; w.el[e].b = choose(2) == 1;
        bool const fi = choose(2) == 0, fj = choose(2) == 0;  // which way round the starts are
        close(w, ts[i], e, fi ? 0 : 1, s, z.items, ms_bias);
        close(w, ts[j], e, fi ? 2 : 3, s, z.items, ms_bias);
        (void)fj;
        if (choose(4) == 3) { other_line(ts[i]); }
        if (choose(4) == 3) { other_line(ts[j]); }
        ts[i] = from(w, ts[i], e, fi ? 1 : 0);
        ts[j] = from(w, ts[j], e, fi ? 3 : 2);
        ts[i].kin |= ts[j].kin; ts[j].kin = ts[i].kin;
      } else if (op == 3) {  // other line from here
        u32 const e = add_el(w, LS, s);
        bool const zero = choose(2) == 0;
        close(w, ts[i], e, zero ? 0 : 1, s, z.items, ms_bias);
        other_line(ts[i]);
        ts[i] = from(w, ts[i], e, zero ? 1 : 0);
      } else if (op == 5) {  // lead back: what comes by one track leaves by where another came from
        std::vector<u32> js;
        for (u32 j = 0; j < ts.size(); ++j) { if (ts[j].line != ts[i].line && (ts[j].kin & ts[i].kin) == 0) { js.push_back(j); } }
        if (js.empty()) { continue; }
        u32 const j = js[choose(static_cast<u32>(js.size()))];
        u32 const e = add_el(w, LS, s);
        bool const zero = choose(2) == 0;
        close(w, ts[i], e, zero ? 0 : 1, s, z.items, ms_bias);
        close(w, ts[j], e, zero ? 1 : 0, s, z.items, ms_bias);
        ts.erase(ts.begin() + std::max(i, j));
        ts.erase(ts.begin() + std::min(i, j));
      } else {  // dead end
        if (ts.size() < 2) { continue; }
        u32 const e = add_el(w, choose(2) ? BUMPER : TEND, s);
        close(w, ts[i], e, 0, s, z.items, ms_bias);
        ts.erase(ts.begin() + i);
      }
    }
    for (auto& t : ts) {
      u32 const k = choose(6);
      u32 const e = add_el(w, k < 4 ? BORDER : k == 4 ? TEND : BUMPER, s);
      close(w, t, e, 0, s, z.items, ms_bias);
      w.el[e].line = t.line; w.el[e].sign = next_sign++; w.el[e].partner = "X" + std::to_string(foreign++);
      if (k < 3) { stubs.push_back({s, e, t.line, t.up, t.m}); }
    }
    // sections in any order in the file
    for (u32 i = static_cast<u32>(w.st[s].secs.size()); i > 1; --i) { std::swap(w.st[s].secs[i - 1], w.st[s].secs[choose(3) ? i - 1 : choose(i)]); }
  }
  for (u32 s = 0; s < ns; ++s) { draw_routes(w, s, !z.traffic && choose(12) == 11 ? 0 : choose(z.routes) + 1); }
  // lines
  std::map<u32, std::vector<std::pair<u32, u32>>> spans;
  std::set<u32> ids;
  for (auto const& s : w.sec) { ids.insert(s.line); }
  if (w.etcs_seen || choose(3) == 2) {
    static int const arts[] = {1, 13, 2, 3, 8, 14, 24, 6, 0, 9, 12, 15, 18, 20, 21, 23};
    for (auto id : ids) {
      line_ l;
      l.id = id;
      u32 const n = 1 + choose(3);
      u32 m = choose(2) ? 0 : 25000;
      for (u32 i = 0; i < n; ++i) { u32 const to = m + 1000 + choose(20000); l.segs.push_back({m, to, arts[choose(16)]}); m = to; }
      w.lines.push_back(l);
    }
  }
  // which routes need ETCS
  for (auto& r : w.sr) {
    for (auto n : r.nodes) {
      if (w.type_of(n) != T::ETCS_START) { continue; }
      auto const* it = w.item_of(n);
      u32 const ln = w.sec[nk_a(n)].line;
      for (auto const& l : w.lines) {
        if (l.id != ln) { continue; }
        seg const* g = &l.segs.front();
        for (auto const& x : l.segs) { if (it->m >= x.from) { g = &x; } }
        r.etcs = !art_signals(g->art);
      }
    }
  }
  // connections between station routes
  for (auto& r : w.sr) {
    auto const last = r.nodes.back(), first = r.nodes.front();
    if (w.type_of(last) == T::BORDER && w.el[nk_a(last)].mate != NONE) {
      u32 const m = w.el[nk_a(last)].mate;
      r.to_st = w.el[m].st;
      for (auto& o : w.sr) { if (o.nodes.front() == nk_el(m, 1)) { r.succ.push_back(o.id); o.pred.push_back(r.id); } }
    }
    if (w.type_of(first) == T::BORDER && w.el[nk_a(first)].mate != NONE) { r.from_st = w.el[w.el[nk_a(first)].mate].st; }
  }
  // a way round without a signal has no end
  {
    std::vector<u32> state(w.sr.size(), 0);
    std::function<bool(u32)> const round = [&](u32 r) {
      if (!w.sr[r].ms.empty() || state[r] == 2) { return false; }
      if (state[r] == 1) { return true; }
      state[r] = 1;
      for (auto s : w.sr[r].succ) { if (round(s)) { return true; } }
      state[r] = 2;
      return false;
    };
    for (auto const& r : w.sr) { if (round(r.id)) { sim::discard("a way round without a signal"); } }
  }
  // interlocking routes
  for (auto const& r : w.sr) {
    auto const size = [&](u32 s) { return static_cast<u32>(w.sr[s].nodes.size()); };
    if ((!r.ms.empty() || r.pred.empty()) && !r.etcs) {
      std::vector<std::vector<u32>> todo;
      for (auto s : r.succ) { todo.push_back({r.id, s}); }
      while (!todo.empty() && w.irs.size() <= z.ir_cap) {
        auto const p = todo.back();
        todo.pop_back();
        auto const& l = w.sr[p.back()];
        if (l.etcs) { continue; }
        if (!l.ms.empty() || l.succ.empty()) { w.irs.push_back({p, r.ms.empty() ? 0 : r.ms.back(), l.ms.empty() ? size(l.id) : l.ms.front() + 1}); continue; }
        for (auto s : l.succ) { auto q = p; q.push_back(s); todo.push_back(q); }
      }
    }
    for (u32 i = 1; i < r.ms.size(); ++i) { w.irs.push_back({{r.id}, r.ms[i - 1], r.ms[i] + 1}); }
    if (!r.ms.empty() && r.pred.empty()) { w.irs.push_back({{r.id}, 0, r.ms.front() + 1}); }
    if (!r.ms.empty() && r.succ.empty()) { w.irs.push_back({{r.id}, r.ms.back(), size(r.id)}); }
  }
  w.too_many = w.irs.size() > z.ir_cap;
  return w;
}

// ------------------------------------------------------------------ files
inline std::string tag(std::string const& n, std::string const& v) { return "<" + n + ">" + v + "</" + n + ">"; }
inline std::string idref(std::string const& n, u64 id, std::string const& typ = "") { return "<" + n + (typ.empty() ? "" : " Typ=\"" + typ + "\"") + " ID=\"" + std::to_string(id) + "\"/>"; }

// where an element is drawn in its station's plan, in tenths
inline u32 drawn_x(world const& w, u32 e) { return w.el[e].l[0].m / 10; }
inline u32 drawn_y(u32 e) { return e % 7 * 10 + e % 3 * 5 + e % 2; }
inline std::string el_xml(world const& w, u32 e, u32 port) {
  auto const tenths = [](u32 v) { return std::to_string(v / 10) + (v % 10 ? "," + std::to_string(v % 10) : ""); };
  auto const& E = w.el[e];
  auto const& L = E.l[port];
  bool const cs = E.a || E.b;
  std::string n, in;
  u64 const main = E.l[0].rp;
  switch (E.k) {
    case BORDER: n = "Betriebsstellengrenze"; in = tag("PartnerBtrst", E.partner) + tag("Gleiskennzeichen", std::to_string(E.sign)); break;
    case BUMPER: n = "Prellbock"; break;
    case TEND: n = "Gleisende"; break;
    case LS: n = port == 0 ? "Streckenwechsel0" : "Streckenwechsel1"; in = idref("Partnerknoten", E.l[1 - port].rp); break;
    case SWITCH:
      if (port == 0) { n = "Weichenanfang"; in = tag("Name", E.name) + (E.ui.empty() ? "" : tag("Oberflaechenbezeichner", E.ui)); }
      else { n = port == 1 ? "Weichenstamm" : E.branch_left ? "WeichenabzweigLinks" : "WeichenabzweigRechts"; in = idref("Partner", main); }
      break;
    case CROSS: {
      static char const* const p[] = {"AnfangLinks", "EndeLinks", "AnfangRechts", "EndeRechts"};
      static u32 const straight[] = {1, 0, 3, 2}, arc[] = {3, 2, 1, 0};
      n = std::string(cs ? "Kreuzungsweiche" : "Kreuzung") + p[port];
      in = idref("NachbarGeradeaus", E.l[straight[port]].rp);
      if ((port == 0 || port == 3) ? E.a : E.b) { in += idref("NachbarAbzweig", E.l[arc[port]].rp); }
      in += idref("HauptknotenAnfang", main) + idref("HauptknotenEnde", E.l[1].rp);
      break;
    }
  }
  return "<" + n + ">" + tag("ID", std::to_string(L.rp)) + tag("Kilometrierung", world::km(L.m)) + "<Bildkoordinaten>" + tag("X", tenths(drawn_x(w, e))) + tag("Y", tenths(drawn_y(e))) + "</Bildkoordinaten>" + in + "</" + n + ">\n";
}
inline char const* const EFF[] = {"Alle", "Konventionell", "LZB"};
inline std::string item_xml(item const& i) {
  std::string in;
  switch (i.t().t) {
    case T::HALT: for (u32 k = 0; k < 3; ++k) { static char const* const n[] = {"Name", "BezeichnerBetrieb", "BezeichnerExtern"}; if (!i.called(k).empty() || i.eff) { in += tag(n[k], i.called(k)); } } break;
    case T::MAIN_SIGNAL: in = tag("Name", i.name); break;
    case T::SLOPE: in = tag("Steigend", std::to_string(i.v1) + ",5") + tag("Fallend", std::to_string(i.v2)); break;
    case T::SPEED_LIMIT: in = (i.v2 % 3 ? "<Laenge Einheit=\"" + std::string(i.v2 % 3 == 1 ? "km" : "m") + "\">" + std::to_string(i.v2) + "</Laenge>" : "") + (i.v1 ? tag("Geschw", std::to_string(i.v1)) : "") + (i.v2 % 2 ? "<Berechnet/>" : "") + tag("Wirkungsort", i.v2 % 5 ? "Hier" : "Signal") + tag("Zugbeeinflussung", EFF[i.eff]); break;
    default: break;
  }
  return "<" + i.xml() + ">" + tag("ID", std::to_string(i.rp)) + tag("Kilometrierung", world::km(i.m)) + in + "</" + i.xml() + ">\n";
}
inline char const* const ATTR[] = {"DurchfahrtOhneHaltMoeglich", "Elektrifiziert", "Falschfahrt", "Gleiswechselbetrieb", "Stumpfgleis", "AusDurchfahrt40", "HaltImmerMoeglich", "AutomatischErzeugt", "UmleitungStreckenwechsel", "HerausDurchgehendesHauptgleis", "HineinDurchgehendesHauptgleis"};

inline std::string station_xml(world& w, u32 s) {
  std::string o = "<Spurplanbetriebsstelle>" + tag("Betriebsstelle", w.st[s].name) + "<Spurplanabschnitte>\n";
  for (auto id : w.st[s].secs) {
    auto const& c = w.sec[id];
    o += "<Spurplanabschnitt>" + tag("Strecke", std::to_string(c.line)) + "<Spurplanknoten>\n";
    o += el_xml(w, c.lo_el, c.lo_port);
    // the file lists the items of a section in any order
    bool const rev = id % 3 == 1;
    for (u32 i = 0; i < c.items.size(); ++i) { o += item_xml(c.items[rev ? c.items.size() - 1 - i : i]); if (i % 4 == 3) { o += "<Bildpunkt>" + tag("ID", "9") + "<Bildkoordinaten>" + tag("X", "1") + tag("Y", "2") + "</Bildkoordinaten></Bildpunkt>"; } }
    o += el_xml(w, c.hi_el, c.hi_port);
    o += "</Spurplanknoten></Spurplanabschnitt>\n";
  }
  o += "</Spurplanabschnitte><Betriebsstellenfahrwege>\n";
  for (auto id : w.st[s].routes) {
    auto const& r = w.sr[id];
    if (id % 5 == 4) { o += "<Betriebsstellenfahrweg>" + tag("Name", "V" + r.name) + idref("Anfang", r.start_rp, r.start_xml) + idref("Ende", r.end_rp, r.end_xml) + "<nurVeroeffentlichung/></Betriebsstellenfahrweg>\n"; }
    o += "<Betriebsstellenfahrweg>" + tag("Name", r.name) + idref("Anfang", r.start_rp, r.start_xml) + idref("Ende", r.end_rp, r.end_xml);
    auto const at = [&](char const* n, u32 i) { if (i != NONE) { auto const* it = w.item_of(r.nodes[i]); o += idref(n, it->rp, it->xml()); } };
    at("Fahrzeitmesspunkt", r.rtcp); at("Reisezughalt", r.pass); at("Gueterzughalt", r.freight);
    if (!r.omitted.empty()) {
      o += "<EntfallendeKnoten>";
      std::vector<u32> v(r.omitted.begin(), r.omitted.end());
      if (id % 2) { std::reverse(v.begin(), v.end()); }
      for (auto i : v) { auto const* it = w.item_of(r.nodes[i]); o += idref("EntfallenderKnoten", it->rp, it->xml()); }
      o += "</EntfallendeKnoten>";
    }
    if (!r.attrs.empty()) { o += "<Attribute>"; for (auto a : r.attrs) { o += std::string("<") + ATTR[a] + "/>"; } o += "</Attribute>"; }
    if (!r.course.empty()) { o += "<Verlauf>"; for (bool b : r.course) { o += b ? "<Abzweig/>" : "<Stamm/>"; } o += "</Verlauf>"; }
    if (!r.spls.empty()) {
      o += "<GeschwBeschraenkungen>";
      auto v = r.spls;
      if (id % 2) { std::reverse(v.begin(), v.end()); }
      for (u32 i = 0; i < v.size(); ++i) {
        if (i == 1) { o += "<GeschwBeschraenkung><Knoten Typ=\"Warnfeld\" ID=\"1\"/>" + tag("Geschw", "5") + tag("Wirkungsort", "Hier") + tag("Zugbeeinflussung", "Alle") + "</GeschwBeschraenkung>"; }
        o += "<GeschwBeschraenkung>" + idref("Knoten", v[i].rp, v[i].xml) + tag("Geschw", std::to_string(v[i].limit)) + tag("Wirkungsort", "Signal") + tag("Zugbeeinflussung", EFF[v[i].eff]) + "</GeschwBeschraenkung>";
      }
      o += "</GeschwBeschraenkungen>";
    }
    o += "</Betriebsstellenfahrweg>\n";
  }
  return o + "</Betriebsstellenfahrwege></Spurplanbetriebsstelle>\n";
}

inline void write_files(world& w) {
  auto const doc = [](std::string const& in) { return "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n<XmlIssDaten>\n" + in + "</XmlIssDaten>\n"; };
  std::vector<std::string> index;
  u32 const ns = static_cast<u32>(w.st.size());
  u32 const nf = 1 + choose(std::min(ns, 3U));
  for (u32 f = 0, s = 0; f < nf; ++f) {
    std::string in = "<Spurplanbetriebsstellen>\n";
    u32 const until = f + 1 == nf ? ns : (f + 1) * ns / nf;
    for (; s < until; ++s) { in += station_xml(w, s); }
    auto const n = "Spurplanbetriebsstellen_" + std::to_string(9 - f) + ".xml";
    w.files[n] = doc(in + "</Spurplanbetriebsstellen>\n");
    index.push_back(n);
  }
  // core data in one or two files
  w.defaults = choose(8) != 7 || w.traffic;
  w.form_time = 1 + static_cast<int>(choose(30)); w.brake = 100 * (1 + static_cast<int>(choose(12))); w.limit = 10 * (1 + static_cast<int>(choose(25)));
  for (u32 i = 0, n = w.traffic ? 2 : choose(3); i < n; ++i) {
    series_ s;
    s.nr = std::to_string(42 + i / 2); s.company = i % 2 ? "U" : "80" + std::to_string(i);
    for (u32 v = 0, m = 1 + choose(2); v < m; ++v) { s.vs.push_back({v + 1, "V" + std::to_string(v), 50 + choose(100), 60 + choose(150), 200 + static_cast<int>(choose(100)), static_cast<int>(choose(3)), w.traffic || choose(5) != 4}); }
    w.series.push_back(s);
  }
  auto const series_xml = [&](u32 from, u32 to) {
    std::string o = "<Triebfahrzeugbaureihen>";
    for (u32 i = from; i < to; ++i) {
      o += "<Triebfahrzeugbaureihe>" + tag("Nr", w.series[i].nr) + "<Eisenbahnunternehmen Typ=\"U\" Nr=\"" + w.series[i].company + "\">DB</Eisenbahnunternehmen><Triebfahrzeugbaureihenvarianten>";
      for (auto const& v : w.series[i].vs) {
        o += "<Triebfahrzeugbaureihenvariante>" + tag("Variante", std::to_string(v.id)) + tag("Bezeichnung", v.name) + tag("EigenGewicht", std::to_string(v.weight)) + tag("ZulaessigeGeschwindigkeit", std::to_string(v.speed)) + tag("Laufwiderstandsfaktor1", "3,00") + tag("Laufwiderstandsfaktor2", "0,01") + tag("Laufwiderstandsfaktor3", "0,03") + "<Stromartausruestungen><Stromartausruestung><Zugkraftfaktoren>";
        for (u32 k = 0; k < 2; ++k) { o += "<Zugkraftfaktor>" + tag("Faktor1", std::to_string(v.f1) + ",00") + tag("Faktor2", "-" + std::to_string(v.f2) + ",50") + tag("Faktor3", "0,015") + tag("GeschwindigkeitVon", k == 0 ? "0" : v.ok ? "40" : "50") + tag("GeschwindigkeitBis", k == 0 ? "40" : "140") + "</Zugkraftfaktor>"; }
        o += "</Zugkraftfaktoren></Stromartausruestung></Stromartausruestungen></Triebfahrzeugbaureihenvariante>";
      }
      o += "</Triebfahrzeugbaureihenvarianten></Triebfahrzeugbaureihe>";
    }
    return o + "</Triebfahrzeugbaureihen>";
  };
  u32 const nser = static_cast<u32>(w.series.size()), cut = choose(2) ? nser / 2 : nser;
  std::string const def = w.defaults ? "<Standardwerte>" + tag("Fahrstrassenbildezeit", std::to_string(w.form_time)) + tag("Streckenklasse", "D4") + tag("BremswegArt", std::to_string(w.brake) + ",0") + tag("ZulaessigeOrtsfesteGeschwindigkeit", std::to_string(w.limit)) + "</Standardwerte>" : "";
  w.files["Stammdaten_A.xml"] = doc("<Stammdaten>" + def + series_xml(0, cut) + "</Stammdaten>");
  index.push_back("Stammdaten_A.xml");
  if (cut < nser) { w.files["Stammdaten_B.xml"] = doc("<Stammdaten>" + series_xml(cut, nser) + "</Stammdaten>"); index.push_back("Stammdaten_B.xml"); }
  if (choose(2)) {
    std::string in = "<Ordnungsrahmen><Betriebsstellen>";
    for (auto& s : w.st) { if (choose(3)) { s.has_full = true; s.full = choose(3) ? "Bahnhof " + s.name : choose(2) ? "T" + s.name.substr(1) : w.st[choose(static_cast<u32>(w.st.size()))].name; in += "<Betriebsstelle>" + tag("DS100", s.name) + tag("Name", s.full) + "</Betriebsstelle>"; } }
    in += "<Betriebsstelle>" + tag("DS100", "NOWHERE") + tag("Name", "Nirgends") + "</Betriebsstelle>";
    w.files["Ordnungsrahmen_ORBtrst_1.xml"] = doc(in + "</Betriebsstellen></Ordnungsrahmen>");
    index.push_back("Ordnungsrahmen_ORBtrst_1.xml");
  }
  if (!w.lines.empty()) {
    std::string in = "<Ordnungsrahmen><Strecken>";
    for (auto const& l : w.lines) {
      in += "<Strecke>" + tag("Nr", std::to_string(l.id)) + "<Streckenabschnitte>";
      for (auto const& g : l.segs) { in += "<Streckenabschnitt>" + tag("KilometrierungVon", world::km(g.from)) + tag("KilometrierungBis", world::km(g.to)) + (g.art ? "<Art Schluessel=\"" + std::to_string(g.art) + "\"/>" : "") + "</Streckenabschnitt>"; }
      in += "</Streckenabschnitte></Strecke>";
    }
    w.files["Ordnungsrahmen_ORStr_1.xml"] = doc(in + "</Strecken></Ordnungsrahmen>");
    index.push_back("Ordnungsrahmen_ORStr_1.xml");
  }
  if (choose(4) == 3) { w.files["BaubetrieblicheMassnahmen_1.xml"] = "<x/>"; index.push_back("BaubetrieblicheMassnahmen_1.xml"); }
  if (choose(4) == 3) { w.files["Liesmich.txt"] = "hello"; index.push_back("Liesmich.txt"); }
  // the parts may be listed in any order, station files keep theirs
  if (choose(2)) { std::rotate(index.begin(), index.begin() + nf, index.end()); }
  w.version = "V" + std::to_string(choose(100)); w.number = choose(1000);
  std::string ix = "<?xml version=\"1.0\"?><XmlIssIndex><StammdatenVersion><Name>other</Name><Nummer>7</Nummer></StammdatenVersion><SpurplandatenVersion>" + tag("Name", w.version) + tag("Nummer", std::to_string(w.number)) + "</SpurplandatenVersion><Dateien>";
  for (auto const& n : index) { ix += "<Datei>" + tag("Name", n) + "</Datei>"; }
  w.files["Index.xml"] = ix + "</Dateien></XmlIssIndex>\n";
  // coordinates
  w.csv_there = choose(6) != 5;
  w.csv = "ds100,lat,lon\nNOWHERE,1.5,2.5\n";
  std::vector<u32> order;
  for (u32 s = 0; s < ns; ++s) { order.push_back(s); }
  if (choose(2)) { std::reverse(order.begin(), order.end()); }
  for (auto s : order) {
    auto& x = w.st[s];
    x.lat = 47000 + static_cast<int>(choose(7000)); x.lon = 7000 + static_cast<int>(choose(7000));
    u32 const c = choose(6);
    if (c < 3) { x.coords = w.csv_there; w.csv += x.name + "," + std::to_string(x.lat / 1000) + "." + std::to_string(1000 + x.lat % 1000).substr(1) + "," + std::to_string(x.lon / 1000) + "." + std::to_string(1000 + x.lon % 1000).substr(1) + "\n"; }
    else if (c == 3) { x.half = true; w.csv += x.name + ",,\n"; }
  }
  // exclusion sets
  w.sets_there = choose(4) != 3;
  std::string f;
  if (w.sets_there && !w.irs.empty()) {
    for (u32 i = 0, n = choose(8); i < n; ++i) {
      std::set<u32> in;
      for (u32 k = 0, m = 1 + choose(5); k < m; ++k) { in.insert(choose(static_cast<u32>(w.irs.size()))); }
      std::vector<u32> v(in.begin(), in.end());
      std::string ln;
      for (u32 k = 0; k < v.size(); ++k) { ln += (k ? " " : "") + std::to_string(v[i % 2 ? v.size() - 1 - k : k]); }
      f += ln + "\n";
      w.sets.push_back(v);
    }
    std::sort(w.sets.begin(), w.sets.end());
  }
  if (w.sets_there) { w.files["exclusion_sets"] = f; }
  // a replay can leave the files on the real disk
  if (char const* d = getenv("SIM_DUMP"); d != nullptr && sim::G_note()) {
    for (auto const& [name, text] : w.files) {
      std::string const path = std::string(d) + "/" + name;
      for (auto p = path.find('/', 1); p != std::string::npos; p = path.find('/', p + 1)) { ::mkdir(path.substr(0, p).c_str(), 0755); }
      if (FILE* o = fopen(path.c_str(), "wb")) { fwrite(text.data(), 1, text.size(), o); fclose(o); }
    }
  }
}
}  // namespace gen
