// Timetable files for the infrastructure in use (rail::base), described train
// by train.
#pragma once
#include "rail.h"

namespace kss {
using namespace sim;
using namespace rail;
struct engine { std::string nr, owner; u32 variant; };
inline std::vector<engine> engines{{"42", "8000", 1}, {"1337", "8000", 1}};
inline std::string version_name = "TU_SMALL_2023", version_number = "1";

// A way through the network: connected station routes from a halt to a halt,
// and the interlocking routes following them if there is exactly one choice.
struct way {
  std::vector<u32> srs;
  rs::FreightTrain freight;
  std::vector<u32> path;      // empty: not unique
  bool first_unique;
};
inline std::vector<way> ways;
inline std::vector<u32> unique_ways, ambiguous_ways;

inline bool halt_of(u32 sr, rs::FreightTrain f, u32& idx) {
  auto const h = (*base)->station_routes_[sr]->get_halt_idx(f);
  if (h.has_value()) { idx = *h; }
  return h.has_value();
}

// Ways through the network that one choice of interlocking routes follows, and
// ways that several follow.
inline void find_ways(int max_tries, u32 max_unique, u32 max_ambiguous, lcg rnd) {
  ways.clear(); unique_ways.clear(); ambiguous_ways.clear();
  auto const& infra = *base;
  auto const& il = infra->interlocking_;
  u32 const nsr = static_cast<u32>(infra->station_routes_.size());
  std::vector<std::vector<u32>> rn(il.routes_.size()), sn(nsr);
  std::map<u32, std::set<u32>> next;
  for (auto const& r : il.routes_) {
    for (auto const& x : r.iterate(infra)) { rn[r.id_].push_back(x.node_->id_); }
    for (u32 i = 1; i < r.station_routes_.size(); ++i) { next[r.station_routes_[i - 1]].insert(r.station_routes_[i]); }
  }
  for (auto const& s : infra->station_routes_) { for (auto n : s->nodes()) { sn[s->id_].push_back(n->id_); } }
  for (int tries = 0; tries < max_tries && (unique_ways.size() < max_unique || ambiguous_ways.size() < max_ambiguous); ++tries) {
    way w;
    w.freight = rnd(4) == 0 ? rs::FreightTrain::YES : rs::FreightTrain::NO;
    auto& T = w.srs;
    T.push_back(rnd(nsr));
    u32 h0 = 0, h1 = 0;
    if (!halt_of(T[0], w.freight, h0)) { continue; }
    u32 const len = 2 + rnd(1 + rnd(8));
    while (T.size() < 20) {
      auto const& n = next[T.back()];
      if (n.empty()) { break; }
      auto it = n.begin();
      std::advance(it, rnd(static_cast<u32>(n.size())));
      T.push_back(*it);
      if (T.size() >= len && halt_of(T.back(), w.freight, h1)) { break; }
    }
    if (T.size() < 2 || !halt_of(T.back(), w.freight, h1) || std::set<u32>(T.begin(), T.end()).size() != T.size()) { continue; }
    std::vector<u32> N;
    for (auto s : T) { N.insert(N.end(), sn[s].begin(), sn[s].end()); }
    if (std::set<u32>(N.begin(), N.end()).size() != N.size()) { continue; }
    long const first = h0, last = static_cast<long>(N.size() - sn[T.back()].size() + h1);
    auto const names_match = [&](u32 r) {
      auto const& L = il.routes_[r].station_routes_;
      for (long o = -static_cast<long>(L.size()) + 1; o < static_cast<long>(T.size()); ++o) {
        bool m = true;
        for (long k = 0; m && k < static_cast<long>(L.size()); ++k) { long const p = o + k; if (p >= 0 && p < static_cast<long>(T.size())) { m = T[static_cast<u32>(p)] == L[static_cast<u32>(k)]; } }
        if (m) { return true; }
      }
      return false;
    };
    auto const fits = [&](std::vector<u32> const& x, long at) {
      for (long k = 0; k < static_cast<long>(x.size()); ++k) { long const p = at + k; if (p >= 0 && p < static_cast<long>(N.size()) && N[static_cast<u32>(p)] != x[static_cast<u32>(k)]) { return false; } }
      return true;
    };
    std::vector<std::vector<u32>> found;
    std::function<void(std::vector<u32>&, long)> const dfs = [&](std::vector<u32>& c, long at) {
      if (found.size() > 8) { return; }
      if (at >= last) { found.push_back(c); return; }
      for (auto n : il.starting_at_[N[static_cast<u32>(at)]]) {
        auto const& x = rn[n];
        if (x.size() < 2 || !fits(x, at) || !names_match(n)) { continue; }
        c.push_back(n);
        dfs(c, at + static_cast<long>(x.size()) - 1);
        c.pop_back();
      }
    };
    for (u32 r = 0; r < rn.size(); ++r) {
      auto const& x = rn[r];
      auto const it = std::find(x.begin(), x.end(), N[static_cast<u32>(first)]);
      if (it == x.end() || !names_match(r)) { continue; }
      long const at = first - (it - x.begin());
      long const end = at + static_cast<long>(x.size()) - 1;
      if (end < first || !fits(x, at)) { continue; }
      std::vector<u32> c{r};
      dfs(c, end);
    }
    if (found.empty()) { continue; }
    if (found.size() == 1) { if (unique_ways.size() < max_unique) { w.path = found[0]; unique_ways.push_back(static_cast<u32>(ways.size())); ways.push_back(w); } }
    else if (ambiguous_ways.size() < max_ambiguous) { ambiguous_ways.push_back(static_cast<u32>(ways.size())); ways.push_back(w); }
  }
}

struct want_point { u32 sr; u32 type; u32 arr, dep, stop; };
struct want_train {
  u32 main, sub;
  std::set<u32> days;              // service days since 1970
  std::vector<u32> path, srs;      // its interlocking routes, the station routes it follows
  std::vector<want_point> points;
  rs::FreightTrain freight;
  double length, weight, speed;
  std::vector<u32> series;
};
struct want_file { std::string name, xml; std::vector<want_train> trains; bool broken = false; };
struct want_all {
  std::vector<want_file> files;
  std::map<std::string, u32> errors;
  std::vector<std::string> decoys;
  bool other_version = false, dir_missing = false;
};

inline std::string pad(u32 v, int n = 2) { auto s = std::to_string(v); return std::string(s.size() < static_cast<std::size_t>(n) ? static_cast<std::size_t>(n) - s.size() : 0, '0') + s; }
inline std::string date_str(u32 day) {
  date::year_month_day const d{date::sys_days{date::days{static_cast<int>(day)}}};
  return pad(static_cast<u32>(static_cast<int>(d.year())), 4) + "-" + pad(static_cast<unsigned>(d.month())) + "-" + pad(static_cast<unsigned>(d.day()));
}
inline std::string time_xml(char const* tag, u32 t) {
  u32 const c = t % 86400;
  return std::string{"<"} + tag + "><time>" + pad(c / 3600) + ":" + pad(c / 60 % 60) + ":" + pad(c % 60) + ".00</time>" + (t >= 86400 ? "<nightLeap>1</nightLeap>" : "") + "</" + tag + ">";
}
inline std::string dur_xml(u32 s) {
  std::string r = "PT";
  if (s >= 3600) { r += std::to_string(s / 3600) + "H"; s %= 3600; }
  if (s >= 60 && choose(4) != 3) { r += std::to_string(s / 60) + "M"; s %= 60; }
  if (s != 0) {
    switch (choose(4)) {
      case 1: r += std::to_string(s) + ".0S"; break;
      case 2: r += std::to_string(s - 1) + ".99S"; break;
      case 3: r += std::to_string(s) + ".31S"; break;
      default: r += std::to_string(s) + "S";
    }
  }
  return r;
}
inline std::string err_msg(std::error_code const& e) { return e.message(); }

enum defect : u32 { NONE, NO_STATION, NO_SR, NO_SERIES, NO_OWNER, NO_VARIANT, WITH_CTC, SINGLE, BREAK_IN, BREAK_OUT, FIRST_TRANSIT, LAST_TRANSIT, HALT_WITHOUT_HALT, AMBIGUOUS, DEFECTS };
inline char const* message_of(defect const d) {
  switch (d) {
    case NO_STATION: return "could not find station from timetable in infrastructure";
    case NO_SR: return "could not find station route used in timetable in infrastructure";
    case NO_SERIES: case NO_OWNER: case NO_VARIANT: return "vehicle";
    case WITH_CTC: return "CTC is not supported";
    case SINGLE: return "single stop train is not supported";
    case BREAK_IN: return "break in not supported";
    case BREAK_OUT: return "break out not supported";
    case FIRST_TRANSIT: return "first stop has no halt is not supported";
    case LAST_TRANSIT: return "last stop has no halt is not supported";
    case HALT_WITHOUT_HALT: return "stop is marked halt but station route does not have halt";
    case AMBIGUOUS: return "unique";
    default: return "";
  }
}
// one of the reasons below stands for several wordings
inline std::string canonical(std::string const& m) {
  if (m.find("could not find unique") != std::string::npos) { return "unique"; }
  if (m.find("vehicle") != std::string::npos) { return "vehicle"; }
  return m;
}

inline u32 const D0 = 19297;
inline bool light_trains = false;  // trains most engines can move
inline bool few_days = false;     // trains run on one or two days
inline bool long_services = true;  // services of up to all the days that can be represented
inline u32 const LAST_DAY = D0 - 20 + 511;  // all days lie in D0 - 20 ... LAST_DAY, as many as can be represented
// services that say nothing a train could run by
inline std::string bad_services() {
  auto const mask = [](u32 n) { std::string m; for (u32 k = 0; k < n; ++k) { m += choose(2) ? '1' : '0'; } return m; };
  auto const regular = [](std::string const& a, std::string const& b, std::string const& m) { return "<service startDate=\"" + a + "\" endDate=\"" + b + "\" bitMask=\"" + m + "\"/>"; };
  auto const special = [](std::string const& d) { return "<service startDate=\"" + d + "\" endDate=\"" + d + "\"><special type=\"" + (choose(2) ? "include" : "exclude") + "\" date=\"" + d + "\"/></service>"; };
  u32 const from = D0 + choose(40), n = 1 + choose(12), far = 512 + choose(choose(2) ? 3 : 1000);
  auto const good = regular(date_str(from), date_str(from + n - 1), mask(n));
  switch (choose(7)) {
    case 0: return regular(date_str(from), date_str(from + n - 1), mask(choose(2) ? n + 1 + choose(30) : choose(n)));
    case 1: return regular(date_str(from), date_str(from + far), mask(far + 1));
    case 2: { u32 const k = choose(2) ? choose(300) : 0; auto const other = regular(date_str(from + far - k), date_str(from + far), mask(k) + "1"); return choose(2) ? good + other : other + good; }
    case 3: return good + special(date_str(choose(2) ? from + far : from + n - 1 - far));
    case 4: return special(date_str(from)) + (choose(2) ? good : "");
    case 5: return regular(date_str(from + n), date_str(from + n - 1 - choose(12)), mask(choose(3)));
    default: {
      static char const* const dates[] = {"2022-13-01", "2022-02-30", "2022-00-10", "2022-10-00", "22-10-01", "", "2022-10-011", "2022-11-31"};
      std::string const d = dates[choose(8)];
      return choose(3) == 0 ? good + special(d) : choose(2) ? regular(d, date_str(from), mask(n)) : regular(date_str(from), d, mask(n));
    }
  }
}
inline std::string construction(u32 main, defect d, want_train& t, bool& lost, bool wrecked = false) {
  auto const& infra = *base;
  if (d == AMBIGUOUS && ambiguous_ways.empty()) { d = NONE; }
  way const& w = ways[d == AMBIGUOUS ? pick(ambiguous_ways) : pick(unique_ways)];
  if (G_note()) {
    std::string a, b;
    for (auto v : w.srs) { u32 i = 0; bool const h = halt_of(v, w.freight, i); a += std::to_string(v) + (h ? "[halt " + std::to_string(i) + "]" : "") + "(" + std::to_string(infra->station_routes_[v]->size()) + ") "; }
    for (auto r : w.path) { auto const& x = infra->interlocking_.routes_[r]; b += std::to_string(r) + ":"; for (auto v : x.station_routes_) { b += std::to_string(v) + " "; } b += "(from " + std::to_string(x.start_offset_) + " to " + std::to_string(x.end_offset_) + ") "; }
    note("train %u: station routes %sinterlocking routes %s", main, a.c_str(), b.c_str());
  }
  std::string nl = choose(2) ? "\n  " : "";
  t.main = main;
  t.sub = choose(3) == 2 ? choose(60000) : choose(4);
  t.freight = w.freight;
  t.srs = w.srs;
  std::string x = "<constructionTrain>" + nl + "<trainNumber><mainNumber>" + std::to_string(t.main) + "</mainNumber><subNumber>" + std::to_string(t.sub) + "</subNumber><userAbbreviation>tu</userAbbreviation></trainNumber>" + nl + "<status>Ok</status>";
  // rolling stock
  static char const* const lens[] = {"0.0", "100", "350.5", "740"};
  static char const* const wts[] = {"100.0", "50", "1200.25", "0"};
  static char const* const spd[] = {"100", "60", "300", "87.5"};
  u32 const a = choose(4), b = light_trains ? choose(2) : choose(4), c = choose(4);
  t.length = std::stod(lens[a]); t.weight = std::stod(wts[b]); t.speed = std::stod(spd[c]);
  std::string units;
  u32 const nu = 1 + (choose(4) == 3 ? 1 + choose(4) : 0);
  for (u32 i = 0; i < nu; ++i) {
    u32 const s = choose(static_cast<u32>(engines.size()));
    t.series.push_back(s);
    bool const bad = i + 1 == nu;
    units += "<tractionUnit><isStandardTractionUnit>true</isStandardTractionUnit><tractionUnitDesignSeries><designSeries Typ=\"L\" Nr=\"" + (bad && d == NO_OWNER ? "8001" : engines[s].owner) + "\">" +
             (bad && d == NO_SERIES ? "4711" : engines[s].nr) + "</designSeries><variante>" + (bad && d == NO_VARIANT ? "9" : std::to_string(engines[s].variant)) + "</variante></tractionUnitDesignSeries></tractionUnit>";
  }
  x += nl + "<characteristic><onDemand>false</onDemand><tractionUnits>" + units + "</tractionUnits><maxVelocity>" + spd[c] + "</maxVelocity><relevantStopPositionMode>" + (w.freight == rs::FreightTrain::YES ? "G" : "R") +
       "</relevantStopPositionMode><trainProtection>" + (d == WITH_CTC ? "true" : "false") + "</trainProtection><totalLength>" + lens[a] + "</totalLength><totalWeight>" + wts[b] + "</totalWeight></characteristic>" + nl;
  // service days
  std::string sv;
  u32 const ns = few_days ? 1 : 1 + choose(3);
  u32 lo = ~0U, hi = 0;
  for (u32 i = 0; i < ns; ++i) {
    u32 const from = D0 + choose(40), many = choose(4) == 3 ? choose(long_services ? 6 : 5) : 6,
              n = few_days ? 1 + choose(2) : many == 6 || !long_services ? 1 + choose(8) : many != 5 ? 1 + choose(60) : choose(2) ? 1 + choose(440) : LAST_DAY - from + 1;
    std::string mask;
    for (u32 k = 0; k < n; ++k) { bool const on = choose(3) != 1; mask += on ? '1' : '0'; if (on) { t.days.insert(from + k); } }
    lo = std::min(lo, from); hi = std::max(hi, from + n - 1);
    sv += "<service startDate=\"" + date_str(from) + "\" endDate=\"" + date_str(from + n - 1) + "\" bitMask=\"" + mask + "\"><operatingDay operatingCode=\"1\" dayType=\"regularday\"/></service>";
  }
  u32 const nx = few_days ? 0 : choose(4);
  for (u32 i = 0; i < nx; ++i) {
    u32 const day = choose(2) ? lo + choose(hi - lo + 1) : D0 - 20 + choose(130);
    bool const on = t.days.count(day) == 0;  // days are neither added nor removed twice
    if (on) { t.days.insert(day); } else { t.days.erase(day); }
    sv += "<service startDate=\"" + date_str(lo) + "\" endDate=\"" + date_str(hi) + "\"><special type=\"" + (on ? "include" : "exclude") + "\" date=\"" + date_str(day) + "\"/></service>";
  }
  if (t.days.empty()) {  // such a train never runs, which is no reason to fail
    if (choose(4) != 3) { t.days.insert(lo); sv += "<service startDate=\"" + date_str(lo) + "\" endDate=\"" + date_str(lo) + "\"><special type=\"include\" date=\"" + date_str(lo) + "\"/></service>"; }
  }
  x += "<services>" + (wrecked ? bad_services() : sv) + "</services>" + nl;
  // sequence
  x += std::string{"<sequence><breakin>"} + (d == BREAK_IN ? "true" : "false") + "</breakin><breakout>" + (d == BREAK_OUT ? "true" : "false") + "</breakout><sequenceServicePoints>";
  u32 const n = d == SINGLE ? choose(2) : static_cast<u32>(w.srs.size());
  u32 const bad_at = n ? choose(n) : 0;
  u32 without = ~0U;
  if (d == HALT_WITHOUT_HALT) { u32 idx; for (u32 i = 1; i + 1 < n; ++i) { if (!halt_of(w.srs[i], w.freight, idx)) { without = i; } } }
  if (d == HALT_WITHOUT_HALT && without == ~0U) { d = NONE; }
  u32 tm = choose(3) == 2 ? 80000 + choose(6000) : choose(60000);
  for (u32 i = 0; i < n; ++i) {
    auto const sr = infra->station_routes_[w.srs[i]];
    u32 idx = 0;
    bool const edge = i == 0 || i + 1 == n;
    bool halt = edge || (halt_of(w.srs[i], w.freight, idx) && choose(3) == 2);
    if (i == 0 && d == FIRST_TRANSIT) { halt = false; }
    if (i + 1 == n && d == LAST_TRANSIT) { halt = false; }
    if (i == without) { halt = true; }
    x += nl + "<sequenceServicePoint><servicePoint>" + std::string{d == NO_STATION && i == bad_at ? "XNOWHERE" : sr->station_->ds100_.data()} + "</servicePoint><trackSystem>" +
         (d == NO_SR && i == bad_at ? std::string{"no such route"} : std::string{sr->name_.data(), sr->name_.size()}) + "</trackSystem>";
    if (halt) {
      want_point p{w.srs[i], 0, ~0U, ~0U, 0};
      if (i != 0 || choose(2)) { p.arr = tm; x += time_xml("arrival", tm); if (choose(2)) { x += time_xml("publishedArrival", tm + 60); } }
      tm += choose(4) * 60 + choose(3);
      if (i + 1 != n || choose(2)) { p.dep = tm; x += time_xml("departure", tm); if (choose(2)) { x += time_xml("publishedDeparture", tm); } }
      u32 const ty = 1 + choose(3);
      p.type = ty;
      x += std::string{"<stopMode Typ=\"HALT-ART\" Schluessel=\""} + (ty == 1 ? "2" : ty == 2 ? "4" : "3") + "\">H</stopMode>";
      if (choose(4) != 3) { p.stop = choose(3) ? choose(7) * 60 + choose(60) : choose(8000); x += "<minStopTime>" + dur_xml(p.stop) + "</minStopTime>"; }
      t.points.push_back(p);
    } else if (sr->runtime_checkpoint_.has_value() && choose(3) == 2) {
      t.points.push_back({w.srs[i], 0, ~0U, tm, 0});
      x += time_xml("departure", tm);
    }
    tm += 60 + choose(400) + (choose(12) == 11 && tm < 110000 ? choose(30000) : 0);
    x += "</sequenceServicePoint>";
  }
  x += "</sequenceServicePoints></sequence></constructionTrain>" + nl;
  t.path = w.path;
  if (t.points.size() && t.points.front().dep == ~0U) { t.points.front().dep = t.points.front().arr; }
  lost = d != NONE;
  return x;
}

inline char const* const other_status[] = {"inBearb", "", "frei", "Freig", "freigabe", "nicht freig"};
inline want_all draw_timetable(u32 max_files = 5, u32 max_trains = 5) {
  want_all w;
  u32 const nf = choose(12) == 11 ? 0 : 1 + choose(max_files);
  w.other_version = choose(12) == 11;
  std::string const vname = w.other_version && choose(2) ? version_name + "X" : version_name, vnum = w.other_version && vname == version_name ? version_number + "2" : version_number;
  u32 number = 100 + choose(50);
  for (u32 f = 0; f < nf; ++f) {
    want_file wf;
    u32 const first = number;
    std::string body;
    u32 const nt = choose(max_trains);
    for (u32 i = 0; i < nt; ++i) {
      bool const worked_on = choose(10) == 9;
      u32 const nc = 1 + (choose(4) == 3 ? 1 + choose(2) : 0);
      std::vector<want_train> ts;
      defect why = NONE;
      std::string x;
      for (u32 k = 0; k < nc; ++k) {
        want_train t;
        bool lost = false;
        defect const d = choose(5) == 4 ? static_cast<defect>(1 + choose(DEFECTS - 1)) : NONE;
        bool const wrecked = k == 0 && !worked_on && choose(max_trains > 5 ? 2000 : 48) == 47;
        if (wrecked) { wf.broken = true; fault(F_TRUNCATED_INPUT); }
        x += construction(++number, d, t, lost, wrecked);
        if (lost && why == NONE) { why = d; }
        ts.push_back(t);
      }
      body += "<train trainID=\"" + std::to_string(i) + "\" trainStatus=\"" + (worked_on ? other_status[choose(6)] : "freig") + "\"><fineConstruction>" + x + "</fineConstruction></train>\n";
      if (worked_on) { ++w.errors["worked on train skipped"]; }
      else if (why != NONE) { ++w.errors[message_of(why)]; }
      else { wf.trains.insert(wf.trains.end(), ts.begin(), ts.end()); }
    }
    wf.name = "KSS-" + std::to_string((first * 37) % 1000) + "_0-" + std::to_string(number) + "_" + std::to_string(f) + ".xml";
    wf.xml = "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?><KSS version=\"1.0\"><header><spurplanVersionDescription><mode>Studie</mode><name>" + vname + "</name><number>" + vnum +
             "</number></spurplanVersionDescription></header>\n<railml><timetable version=\"1.00\">" + body + "</timetable></railml></KSS>\n";
    if (choose(max_trains > 5 ? 120 : 24) == 23) {
      wf.xml.resize(choose(static_cast<u32>(wf.xml.size()) - 8));
      wf.broken = true;
      fault(F_TRUNCATED_INPUT);
    }
    w.files.push_back(wf);
  }
  static char const* const dec[] = {"README.txt", "KSS-notes.txt", "notes.xml", "AAA.xml", ".hidden", "KSS-dir.xml/", "kss-100.xml", "zzz"};
  u32 const nd = choose(3);
  for (u32 i = 0; i < nd; ++i) { w.decoys.push_back(dec[choose(8)]); }
  return w;
}

inline void put_all(want_all const& w, std::string const& dir = "/simfs/tt/plan") {
  disk::mkdirs(dir);
  for (auto const& d : w.decoys) {
    if (d.back() == '/') { disk::mkdirs(dir + "/" + d.substr(0, d.size() - 1)); }
    else { disk::put(dir + "/" + d, "this is <no> timetable"); }
  }
  for (auto const& f : w.files) { disk::put(dir + "/" + f.name, f.xml); }
}

// the engines and the version of a generated infrastructure
inline void use_world(gen::world const& w) {
  engines.clear();
  for (auto const& s : w.series) { for (auto const& v : s.vs) { if (v.ok) { engines.push_back({s.nr, s.company, v.id}); } } }
  version_name = w.version; version_number = std::to_string(w.number);
}
}  // namespace kss
