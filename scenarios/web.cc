// The server: what it answers, to whom, and after which restarts.
#include "kssgen.h"

#include <iostream>
#include <atomic>
#include <cmath>
#include <fstream>
#include <mutex>
#include <sstream>

#include "pugi_mem.h"

#include "net/web_server/web_server.h"
#include "tiles/db/feature_inserter_mt.h"
#include "tiles/db/feature_pack.h"
#include "tiles/db/prepare_tiles.h"
#include "tiles/osm/feature_handler.h"
#include "tiles/osm/load_osm.h"

#include "soro/server/modules/tiles/osm_export/osm_export.h"
#include "soro/server/soro_server.h"
#include "soro/simulation/ordering/ordering_graph.h"
#include "soro/timetable/timetable.h"

namespace utl { void shim_log_sink(int, std::string const&) {} }

// ---------------------------------------------------------------- tiles stub
// The database is a file of lines, the pack file another. Every write is
// checked, every failure thrown.
namespace tiles {
std::string shim_pack_name(std::string const& db) { return db.substr(0, db.size() - 4) + ".pck"; }
std::string shim_read(std::string const& p) {
  std::ifstream f{p, std::ios::binary};
  if (!f) { throw std::runtime_error("tiles: cannot read " + p); }
  return {std::istreambuf_iterator<char>{f}, {}};  // throws when a read fails
}
void shim_create(std::string const& p, bool const truncate) {
  std::ofstream f{p, truncate ? std::ios::trunc : std::ios::app};
  f.close();
  if (!f) { throw std::runtime_error("tiles: cannot create " + p); }
}
void shim_append(std::string const& p, std::string const& l) {
  std::ofstream f{p, std::ios::app};
  f << l << "\n";
  f.close();
  if (!f) { throw std::runtime_error("tiles: cannot write " + p); }
}
std::string hex(sim::u64 v) { char b[24]; snprintf(b, sizeof b, "%016lx", static_cast<unsigned long>(v)); return b; }
bool empty_tile(geo::tile const& t) { return t.z_ > 20 || (t.x_ + t.y_ * 3 + t.z_) % 4 == 0; }
std::string render(std::string const& db, std::string const& pack, geo::tile const& t) {
  return hex(sim::mix(sim::mix(sim::hash_str(db), sim::hash_str(pack)), sim::mix(t.x_, sim::mix(t.y_, t.z_))));
}
std::optional<std::string> get_tile(tile_db_handle& h, pack_handle const& p, render_ctx const& r, geo::tile const& t, perf_counter&) {
  auto const db = shim_read(h.env_.path_);
  if (db.empty() || !r.any_ || empty_tile(t)) { return std::nullopt; }
  return render(db, shim_read(p.path_), t);
}
std::pair<std::string, std::string> complete(std::string const& osm) {
  auto const h = hex(sim::hash_str(osm));
  return {"half " + h + "\nfeatures " + h + "\npacked\nprepared\n", "pack " + h + "\nprepared\n"};
}
void check_profile(std::string const& p) { if (shim_read(p).empty()) { throw std::runtime_error("tiles: empty profile"); } }
void load_osm(tile_db_handle& h, feature_inserter_mt& i, std::string const& osm, std::string const& profile, std::string const& tmp) {
  check_profile(profile);
  if (!std::filesystem::is_directory(tmp)) { throw std::runtime_error("tiles: no directory for temporary files"); }
  auto const c = shim_read(osm);
  pugi::xml_document d;
  if (!d.load_string(c.c_str()) || !d.child("osm")) { throw std::runtime_error("tiles: malformed osm"); }
  shim_append(h.env_.path_, "half " + hex(sim::hash_str(c)));
  shim_append(i.p_.path_, "pack " + hex(sim::hash_str(c)));
  shim_append(h.env_.path_, "features " + hex(sim::hash_str(c)));
}
void pack_features(tile_db_handle& h, pack_handle&) { shim_append(h.env_.path_, "packed"); }
void prepare_tiles(tile_db_handle& h, pack_handle& p, std::uint32_t) { shim_append(p.path_, "prepared"); shim_append(h.env_.path_, "prepared"); }
}  // namespace tiles

using namespace sim;
using namespace rail;
using namespace kss;
namespace http = boost::beast::http;
namespace srv = soro::server;

extern "C" int webmain(int, char const**);

namespace {
// ---------------------------------------------------------------- JSON
struct json {
  enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL;
  bool b = false;
  double n = 0;
  std::string s;
  std::vector<json> a;
  std::vector<std::pair<std::string, json>> o;
};
struct bad_json : std::runtime_error { using std::runtime_error::runtime_error; };
struct reader {
  std::string const& t;
  std::size_t p = 0;
  [[noreturn]] void bad(char const* w) const { throw bad_json(std::string(w) + " at " + std::to_string(p)); }
  void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) { ++p; } }
  char at() const { return p < t.size() ? t[p] : '\0'; }
  void lit(char const* l) { for (; *l; ++l, ++p) { if (at() != *l) { bad("unknown word"); } } }
  std::string str() {
    std::string r;
    if (at() != '"') { bad("no string"); }
    for (++p; at() != '"'; ++p) {
      if (p >= t.size() || static_cast<unsigned char>(at()) < 0x20) { bad("bad string"); }
      if (at() != '\\') { r += at(); continue; }
      ++p;
      switch (at()) {
        case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break;
        case '"': case '\\': case '/': r += at(); break;
        case 'u': { if (p + 4 >= t.size()) { bad("bad escape"); } auto const c = std::stoul(t.substr(p + 1, 4), nullptr, 16); if (c > 127) { bad("unexpected escape"); } r += static_cast<char>(c); p += 4; break; }
        default: bad("bad escape");
      }
    }
    ++p;
    return r;
  }
  json value() {
    json v;
    ws();
    switch (at()) {
      case 'n': lit("null"); break;
      case 't': lit("true"); v.k = json::BOOL; v.b = true; break;
      case 'f': lit("false"); v.k = json::BOOL; break;
      case '"': v.k = json::STR; v.s = str(); break;
      case '[':
        v.k = json::ARR; ++p; ws();
        if (at() == ']') { ++p; break; }
        for (;;) { v.a.push_back(value()); ws(); if (at() == ',') { ++p; continue; } if (at() == ']') { ++p; break; } bad("bad array"); }
        break;
      case '{':
        v.k = json::OBJ; ++p; ws();
        if (at() == '}') { ++p; break; }
        for (;;) {
          ws(); auto key = str(); ws();
          if (at() != ':') { bad("no colon"); }
          ++p;
          auto x = value();
          v.o.emplace_back(std::move(key), std::move(x));
          ws();
          if (at() == ',') { ++p; continue; }
          if (at() == '}') { ++p; break; }
          bad("bad object");
        }
        break;
      default: {
        v.k = json::NUM;
        std::size_t const b = p;
        if (at() == '-') { ++p; }
        if (!isdigit(at())) { bad("no value"); }
        while (isdigit(at()) || at() == '.' || at() == 'e' || at() == 'E' || at() == '+' || at() == '-') { ++p; }
        char* end = nullptr;
        auto const x = t.substr(b, p - b);
        v.n = strtod(x.c_str(), &end);
        if (*end != '\0') { bad("bad number"); }
      }
    }
    return v;
  }
};
json parse(std::string const& t) { reader r{t}; auto v = r.value(); r.ws(); if (r.p != t.size()) { r.bad("trailing text"); } return v; }
// a document as canonical text: keys sorted, numbers rounded
std::string num(double const d) { char b[40]; snprintf(b, sizeof b, "%.9g", d == 0 ? 0.0 : d); return b; }
std::string text(json const& v) {
  switch (v.k) {
    case json::NUL: return "null";
    case json::BOOL: return v.b ? "true" : "false";
    case json::NUM: return num(v.n);
    case json::STR: return "'" + v.s + "'";
    case json::ARR: { std::string r = "["; for (auto const& x : v.a) { r += text(x) + ","; } return r + "]"; }
    case json::OBJ: { std::vector<std::string> e; for (auto const& [n, x] : v.o) { e.push_back(n + ":" + text(x)); } std::sort(e.begin(), e.end()); std::string r = "{"; for (auto const& x : e) { r += x + ","; } return r + "}"; }
  }
  return {};
}
// building the expectation
json N(double d) { json v; v.k = json::NUM; v.n = d; return v; }
json S(std::string_view s) { json v; v.k = json::STR; v.s = std::string{s}; return v; }
json B(bool b) { json v; v.k = json::BOOL; v.b = b; return v; }
json A(std::vector<json> a = {}) { json v; v.k = json::ARR; v.a = std::move(a); return v; }
using members = std::vector<std::pair<std::string, json>>;
json O(members o) { json v; v.k = json::OBJ; v.o = std::move(o); return v; }
void sort_arr(json& v) { std::sort(v.a.begin(), v.a.end(), [](auto const& x, auto const& y) { return text(x) < text(y); }); }
json& member(json& v, std::string const& n) { for (auto& [k, x] : v.o) { if (k == n) { return x; } } static json none; none = {}; return none; }

// ---------------------------------------------------------------- deployment
struct plan { std::string name; want_all w; };
struct net_ {
  std::string name;
  gen::world w;
  infrastructure* inf = nullptr;
  std::map<std::string, tt::timetable*> tts;
  std::vector<plan> plans;
};
struct deployment { std::vector<net_> nets; srv::server_settings s; bool broken = false; };

std::string const ROOT = "/simfs/srv";
std::string sv(soro::string const& s) { return std::string(std::string_view{s}); }

// mostly few trains, sometimes more than fit a byte
want_all draw_some() { u32 const c = choose(60); few_days = c == 59; return c == 59 ? draw_timetable(8, 120) : c > 48 ? draw_timetable(5, 14) : draw_timetable(3, 5); }
deployment draw_deployment(u32 max_nets, bool traffic) {
  deployment d;
  static char const* const names[] = {"small", "small2", "n_2", "n", "42"};
  static char const* const tnames[] = {"follow", "p-1", "p", "x_2", "7"};
  u32 const nn = 1 + choose(max_nets), shift = choose(5);
  std::string csv;
  std::set<std::pair<std::string, u32>> versions;
  u32 tcount = 0;
  for (u32 i = 0; i < nn; ++i) {
    static gen::size const sizes[] = {{4, 3, 4, 8, 10, 150, true}, {3, 2, 3, 8, 12, 150, true}, {1, 2, 2, 4, 4, 40, false}, {3, 3, 4, 6, 6, 80, false}};
    net_ n;
    n.name = names[(shift + i) % 5];
    // cannot be asked for (not in any route's alphabet), but must not disturb its namesake
    if (i != 0 && choose(3) == 2) { n.name = d.nets.front().name + ".v" + std::to_string(i); }
    bool const big = i == 0 && choose(60) == 59;  // numbers of more than three digits
    n.w = gen::draw_world(big ? gen::size{6, 8, 10, 60, 2, 1500, traffic} : sizes[traffic ? choose(2) : choose(4)]);
    if (n.w.too_many) { discard("too many interlocking routes"); }
    gen::write_files(n.w);
    // every route is in a set
    std::string sets;
    std::set<u32> in;
    for (auto const& s : n.w.sets) { in.insert(s.begin(), s.end()); }
    if (!n.w.irs.empty()) { sets = n.w.files["exclusion_sets"]; for (u32 r = 0; r < n.w.irs.size(); ++r) { if (!in.count(r)) { sets += std::to_string(r) + "\n"; } } }
    n.w.files["exclusion_sets"] = sets;
    if (n.w.irs.empty()) { n.w.files.erase("exclusion_sets"); }
    while (!versions.emplace(n.w.version, n.w.number).second) {
      auto& ix = n.w.files["Index.xml"];
      auto const tail = [&] { return "<Nummer>" + std::to_string(n.w.number) + "</Nummer></SpurplandatenVersion>"; };
      auto const at = ix.find(tail()), len = tail().size();
      ++n.w.number;
      ix.replace(at, len, tail());
    }
    for (auto const& [f, c] : n.w.files) { disk::put(ROOT + "/infra/" + n.name + "/" + f, c); }
    csv += n.w.csv;
    d.nets.push_back(std::move(n));
  }
  disk::mkdirs(ROOT + "/tt");
  disk::mkdirs(ROOT + "/infra");
  for (auto const* x : {"infrastructure", "timetable", "tiles", "osm", "tmp"}) { disk::mkdirs(ROOT + "/res/" + x); }
  disk::put(ROOT + "/res/misc/btrs_geo.csv", csv);
  disk::put(ROOT + "/res/profile/profile.lua", "profile");
  if (choose(3) == 2) { disk::put(ROOT + "/infra/README", "x"); }
  if (choose(3) == 2) { disk::put(ROOT + "/tt/notes.xml", "x"); }
  for (auto& n : d.nets) {
    auto const o = make_infra_opts(ROOT + "/infra/" + n.name, ROOT + "/res/misc/btrs_geo.csv");
    n.inf = new infrastructure(o);
    base = n.inf;
    if (!n.w.traffic) { continue; }
    use_world(n.w);
    long_services = false;  // keeps the ordering graphs small
    light_trains = choose(4) != 3;
    if (engines.empty() || (*n.inf)->interlocking_.routes_.empty()) { continue; }
    find_ways(600, 6, 3, {});
    if (unique_ways.empty() || ambiguous_ways.empty()) { ambiguous_ways = unique_ways; }
    if (unique_ways.empty()) { continue; }
    for (u32 k = 0, m = 1 + choose(2); k < m; ++k) {
      plan p{std::string(tnames[(shift + tcount) % 5]) + (tcount >= 5 ? "b" : ""), draw_some()};
      ++tcount;
      put_all(p.w, ROOT + "/tt/" + p.name);
      n.plans.push_back(std::move(p));
    }
  }
  d.s.server_resource_dir_.val() = ROOT + "/res";
  d.s.infrastructure_sources_.val() = ROOT + "/infra";
  d.s.timetable_sources_.val() = ROOT + "/tt";
  d.s.test_.val() = true;
  return d;
}
// what the server should hold: every timetable with every infrastructure
void load_timetables(deployment& d) {
  for (auto& n : d.nets) {
    for (auto const& m : d.nets) {
      for (auto const& p : m.plans) {
        // a damaged timetable keeps the server from starting, or is left out
        if (std::any_of(p.w.files.begin(), p.w.files.end(), [](auto const& f) { return f.broken; })) { d.broken = true; continue; }
        auto r = tt::try_parsing_timetable(tt::make_timetable_opts(ROOT + "/tt/" + p.name), *n.inf);
        if (r) { n.tts[p.name] = new tt::timetable(std::move(*r)); }
      }
    }
  }
}

// ---------------------------------------------------------------- asking
struct answer { unsigned status = 0; std::string body, type, encoding; bool length_ok = true; };
using request_cb = net::web_server::http_req_cb_t;
answer ask(request_cb const& cb, std::string const& target, bool const deflate = false, http::verb const v = http::verb::get) {
  net::web_server::http_req_t rq{v, target, 11};
  if (deflate) { rq.set(http::field::accept_encoding, "gzip, deflate"); }
  answer a;
  u32 count = 0;
  cb(rq, [&](net::web_server::http_res_t&& res) {
    ++count;
    std::visit([&](auto&& r) {
      a.status = r.result_int();
      a.type = std::string{r[http::field::content_type]};
      a.encoding = std::string{r[http::field::content_encoding]};
      auto const l = r[http::field::content_length];
      if constexpr (std::is_same_v<std::decay_t<decltype(r)>, net::web_server::string_res_t>) { a.body = r.body(); a.length_ok = l.empty() || std::string{l} == std::to_string(a.body.size()); }
    }, res);
  }, false);
  if (count != 1) { violation("answers", "the request %s was answered %u times", target.c_str(), count); }
  event(mix(hash_str(target), mix(a.status, hash_str(a.body))));
  if (!a.length_ok) { violation("length", "the length of the answer to %s is wrong", target.c_str()); }
  return a;
}
std::string cut(std::string const& s) { return s.size() > 400 ? s.substr(0, 400) + "..." : s; }
json parsed(std::string const& target, answer const& a) {
  if (a.status != 200) { violation("refused", "%s: status %u, expected an answer", target.c_str(), a.status); }
  if (a.type != "application/json") { violation("type", "%s: the answer has type '%s'", target.c_str(), a.type.c_str()); }
  try { return parse(a.body); } catch (bad_json const& e) { violation("no-json", "%s: no valid JSON (%s): %s", target.c_str(), e.what(), cut(a.body).c_str()); }
}
void same(std::string const& target, json const& got, json const& want) {
  auto const g = text(got), w = text(want);
  if (g == w) { return; }
  std::size_t i = 0;
  while (i < g.size() && i < w.size() && g[i] == w[i]) { ++i; }
  std::size_t const b = i > 60 ? i - 60 : 0;
  violation("answer", "%s: answered ...%s, expected ...%s", target.c_str(), g.substr(b, 200).c_str(), w.substr(b, 200).c_str());
}

json pos(utls::gps const& g) { return O({{"lon", N(g.lon_)}, {"lat", N(g.lat_)}}); }
template <typename Ids> json bbox(infrastructure const& inf, Ids const& ids) {
  double w = 361, s = 361, e = -361, n = -361;
  for (auto i : ids) { auto const& g = inf->element_positions_[i]; w = std::min(w, g.lon_); s = std::min(s, g.lat_); e = std::max(e, g.lon_); n = std::max(n, g.lat_); }
  return A({O({{"lon", N(w)}, {"lat", N(s)}}), O({{"lon", N(e)}, {"lat", N(n)}})});
}
std::vector<u32> elements_of(station_route const& r, u32 from, u32 to) { std::vector<u32> v; for (u32 i = from; i < to; ++i) { v.push_back(r.nodes()[i]->element_->id()); } return v; }
std::vector<u32> elements_of(infrastructure const& inf, interlocking_route const& r) {
  std::vector<u32> v;
  for (u32 i = 0; i < r.station_routes_.size(); ++i) {
    auto const& sr = *inf->station_routes_[r.station_routes_[i]];
    auto const x = elements_of(sr, i == 0 ? r.start_offset_ : 0, i + 1 == r.station_routes_.size() ? r.end_offset_ : static_cast<u32>(sr.nodes().size()));
    v.insert(v.end(), x.begin(), x.end());
  }
  return v;
}
template <typename V> json ids_of(V const& v) { json a = A(); for (auto x : v) { a.a.push_back(N(static_cast<double>(x))); } return a; }

// ---- what the search knows
struct hit { std::string type, name; u64 id; json box; std::string etype; };
std::string padded(u64 i) { auto s = std::to_string(i); return std::string(s.size() < 3 ? 3 - s.size() : 0, '0') + s; }
std::vector<hit> things(net_ const& n) {
  std::vector<hit> r;
  auto const& inf = *n.inf;
  for (u32 s = 0; s < inf->stations_.size(); ++s) {
    std::vector<u32> ids;
    for (auto e : inf->stations_[s]->elements_) { ids.push_back(e->id()); }
    auto const b = bbox(inf, ids);
    auto const ds = sv(inf->stations_[s]->ds100_);
    r.push_back({"station", ds, s, b, ""});
    for (auto const& x : n.w.st) { if (x.name == ds && x.has_full && x.full != ds) { r.push_back({"station", x.full, s, b, ""}); } }
  }
  for (auto const& e : inf->graph_.elements_) {
    auto const b = bbox(inf, std::vector<u32>{e->id()});
    auto const t = std::string(e->get_type_str());
    auto const& d = inf->graph_.element_data_[e->id()];
    r.push_back({"element", padded(e->id()), e->id(), b, t});
    auto const add = [&](std::string const& s) { if (!s.empty()) { r.push_back({"element", s, e->id(), b, t}); } };
    if (e->is(type::MAIN_SIGNAL)) { add(sv(d.as<main_signal>().name_)); }
    if (e->is(type::SIMPLE_SWITCH)) { add(sv(d.as<switch_data>().name_)); }
    if (e->is(type::HALT)) { auto const& h = d.as<halt>(); add(sv(h.name_)); add(sv(h.identifier_operational_)); add(sv(h.identifier_extern_)); }
  }
  for (auto const& s : inf->station_routes_) { r.push_back({"stationRoute", sv(s->name_), s->id_, bbox(inf, elements_of(*s, 0, static_cast<u32>(s->nodes().size()))), ""}); }
  for (auto const& i : inf->interlocking_.routes_) { r.push_back({"interlockingRoute", padded(i.id_), i.id_, bbox(inf, elements_of(inf, i)), ""}); }
  return r;
}
json of_hit(hit const& h) { return O({{"type", S(h.type)}, {"name", S(h.name)}, {"id", N(static_cast<double>(h.id))}, {"boundingBox", h.box}, {"elementType", S(h.etype)}}); }
void check_search(net_ const& n, request_cb const& cb) {
  auto const all = things(n);
  std::string q = pick(all).name;
  std::string c;
  for (char x : q) { if (isalnum(x) || x == '-' || x == '_') { c += x; } else { break; } }
  q = c;
  if (q.size() > 3 && choose(3) == 2) { auto const b = choose(static_cast<u32>(q.size()) - 2); q = q.substr(b, 3 + choose(3)); }
  if (choose(12) == 11) { q = "no-such-thing"; }
  if (q.size() < 3) { q = "001"; }
  std::string const t = "/infrastructure/" + n.name + "/search/" + q;
  auto got = parsed(t, ask(cb, t));
  json want = A();
  for (auto const& h : all) { if (h.name.find(q) != std::string::npos) { want.a.push_back(of_hit(h)); } }
  if (got.k != json::ARR) { violation("answer", "%s: the answer is no list", t.c_str()); }
  auto const uniq = [](json& v) { sort_arr(v); v.a.erase(std::unique(v.a.begin(), v.a.end(), [](auto const& x, auto const& y) { return text(x) == text(y); }), v.a.end()); };
  uniq(want); uniq(got);
  same(t, got, want);
  if (!want.a.empty()) { probe(sim::P1); }
}

void check_names(deployment const& d, request_cb const& cb) {
  std::string const t = choose(2) ? "/infrastructures/" : "/infrastructures";
  auto got = parsed(t, ask(cb, t));
  json want = A();
  for (auto const& n : d.nets) { want.a.push_back(S(n.name)); }
  sort_arr(want); sort_arr(member(got, "infrastructures"));
  same(t, got, O({{"infrastructures", want}}));
}
void check_box(net_ const& n, request_cb const& cb) {
  std::string const t = "/infrastructure/" + n.name + "/bounding_box" + (choose(2) ? "/" : "");
  std::vector<u32> ids;
  for (auto const& e : (*n.inf)->graph_.elements_) { ids.push_back(e->id()); }
  same(t, parsed(t, ask(cb, t)), O({{"boundingBox", bbox(*n.inf, ids)}}));
}
void check_stations(net_ const& n, request_cb const& cb) {
  std::string const t = "/infrastructure/" + n.name + "/stations/";
  auto got = parsed(t, ask(cb, t));
  json want = A();
  for (auto const& s : (*n.inf)->stations_) { want.a.push_back(O({{"ds100", S(sv(s->ds100_))}, {"id", N(s->id_)}})); }
  sort_arr(want); sort_arr(member(got, "stations"));
  same(t, got, O({{"stations", want}}));
}
void check_station(net_ const& n, request_cb const& cb) {
  auto const& inf = *n.inf;
  u32 const i = choose(static_cast<u32>(inf->stations_.size()));
  std::string const t = "/infrastructure/" + n.name + "/station/" + std::string(choose(8) == 7 ? "0" : "") + std::to_string(i);
  auto got = parsed(t, ask(cb, t));
  json srs = A(), irs = A();
  for (auto const& r : inf->station_routes_) {
    if (r->station_->id_ != i) { continue; }
    srs.a.push_back(O({{"id", N(r->id_)}, {"name", S(sv(r->name_))}, {"from_element", N(r->nodes().front()->element_->id())}, {"to_element", N(r->nodes().back()->element_->id())}}));
  }
  for (auto const& r : inf->interlocking_.routes_) {
    bool in = false;
    for (auto s : r.station_routes_) { in = in || inf->station_routes_[s]->station_->id_ == i; }
    if (in) { irs.a.push_back(N(r.id_)); }
  }
  sort_arr(srs); sort_arr(irs); sort_arr(member(got, "stationRoutes")); sort_arr(member(got, "interlockingRouteIds"));
  same(t, got, O({{"id", N(i)}, {"ds100", S(sv(inf->stations_[i]->ds100_))}, {"stationRoutes", srs}, {"interlockingRouteIds", irs}}));
}
json path_of(infrastructure const& inf, std::vector<u32> const& ids) { json a = A(); for (auto i : ids) { a.a.push_back(pos(inf->element_positions_[i])); } return a; }
void check_station_route(net_ const& n, request_cb const& cb) {
  auto const& inf = *n.inf;
  if (inf->station_routes_.empty()) { return; }
  u32 const i = choose(static_cast<u32>(inf->station_routes_.size()));
  std::string const t = "/infrastructure/" + n.name + "/station_route/" + std::to_string(i);
  auto const& r = *inf->station_routes_[i];
  same(t, parsed(t, ask(cb, t)), O({{"id", N(i)}, {"name", S(sv(r.name_))}, {"ds100", S(sv(r.station_->ds100_))}, {"path", path_of(inf, elements_of(r, 0, static_cast<u32>(r.nodes().size())))}}));
}
void check_interlocking_route(net_ const& n, request_cb const& cb) {
  auto const& inf = *n.inf;
  if (inf->interlocking_.routes_.empty()) { return; }
  u32 const i = choose(static_cast<u32>(inf->interlocking_.routes_.size()));
  std::string const t = "/infrastructure/" + n.name + "/interlocking_route/" + std::to_string(i);
  same(t, parsed(t, ask(cb, t)), O({{"id", N(i)}, {"path", path_of(inf, elements_of(inf, inf->interlocking_.routes_[i]))}}));
}
void check_set(net_ const& n, request_cb const& cb) {
  auto const& x = (*n.inf)->exclusion_.exclusion_sets_;
  if (x.empty()) { return; }
  u32 const i = choose(static_cast<u32>(x.size()));
  std::string const t = "/infrastructure/" + n.name + "/exclusion_sets/" + std::to_string(i);
  auto got = parsed(t, ask(cb, t));
  auto want = ids_of(x[i]);
  sort_arr(want); sort_arr(member(got, "interlocking_routes"));
  same(t, got, O({{"id", N(i)}, {"size", N(static_cast<double>(x[i].size()))}, {"interlocking_routes", want}}));
}
void check_element(net_ const& n, request_cb const& cb) {
  auto const& inf = *n.inf;
  u32 const i = choose(static_cast<u32>(inf->graph_.elements_.size()));
  auto const& e = *inf->graph_.elements_[i];
  std::string const t = "/infrastructure/" + n.name + "/element/" + std::to_string(i);
  members m{{"id", N(i)}};
  if (e.is_directed_track_element()) {
    auto const& x = e.as<track_element>();
    m.push_back({"kilometrage", N(si::as_m(x.km_))}); m.push_back({"rising", B(x.rising_)}); m.push_back({"line", N(static_cast<double>(x.line_))});
  }
  auto const& d = inf->graph_.element_data_[i];
  if (cista::holds_alternative<eotd>(d)) { m.push_back({"signal", B(d.as<eotd>().signal_)}); }
  if (cista::holds_alternative<slope>(d)) { m.push_back({"rising", N(si::as_precision(d.as<slope>().rising_))}); m.push_back({"falling", N(si::as_precision(d.as<slope>().falling_))}); }
  if (cista::holds_alternative<halt>(d)) { auto const& h = d.as<halt>(); m.push_back({"name", S(sv(h.name_))}); m.push_back({"passenger", B(h.is_passenger_)}); m.push_back({"id_extern", S(sv(h.identifier_extern_))}); m.push_back({"id_op", S(sv(h.identifier_operational_))}); }
  if (cista::holds_alternative<speed_limit>(d)) { auto const& l = d.as<speed_limit>(); m.push_back({"limit", si::valid(l.limit_) ? N(si::as_km_h(l.limit_)) : json{}}); m.push_back({"point_of_activation", B(l.poa_ == speed_limit::poa::LAST_SIGNAL)}); }
  if (cista::holds_alternative<main_signal>(d)) { m.push_back({"name", S(sv(d.as<main_signal>().name_))}); }
  if (cista::holds_alternative<switch_data>(d)) { m.push_back({"name", S(sv(d.as<switch_data>().name_))}); }
  auto got = parsed(t, ask(cb, t));
  for (auto& [k, v] : got.o) { if (k == "point_of_activation" && v.k == json::NUM) { v = B(v.n != 0); } }
  same(t, got, O(m));
}
void check_timetables(net_ const& n, request_cb const& cb) {
  std::string const t = "/infrastructure/" + n.name + "/timetables" + (choose(2) ? "/" : "");
  auto got = parsed(t, ask(cb, t));
  json want = A();
  for (auto const& [k, v] : n.tts) { want.a.push_back(S(k)); }
  sort_arr(want); sort_arr(member(got, "timetables"));
  same(t, got, O({{"timetables", want}}));
}
u64 rep(soro::absolute_time const t) { return static_cast<u64>(absolute_time_to_rep(t)); }
bool check_timetable(net_ const& n, request_cb const& cb) {
  if (n.tts.empty()) { return false; }
  auto it = n.tts.begin();
  std::advance(it, choose(static_cast<u32>(n.tts.size())));
  std::string const t = "/infrastructure/" + n.name + "/timetable/" + it->first + (choose(2) ? "/" : "");
  auto const& iv = (*it->second)->interval_;
  same(t, parsed(t, ask(cb, t)), O({{"timetable", O({{"source", S(it->first)}, {"interval", O({{"start", N(static_cast<double>(rep(iv.start_)))}, {"end", N(static_cast<double>(rep(iv.end_)))}})}})}}));
  return true;
}
bool check_ordering(net_ const& n, request_cb const& cb) {
  if (n.tts.empty()) { return false; }
  auto it = n.tts.begin();
  std::advance(it, choose(static_cast<u32>(n.tts.size())));
  auto const& t = *it->second;
  simulation::ordering_graph::filter f;
  u64 lo = rep(t->interval_.start_), hi = rep(t->interval_.end_);
  if (t->trains_.empty() || hi < lo) { lo = 19297ULL * 86400; hi = lo + 86400; }
  u64 const span = hi - lo + 1;
  u64 const from = choose(3) == 2 ? 0 : lo - std::min<u64>(lo, 90000) + choose(static_cast<u32>(std::min<u64>(span + 90000, 3000000)));
  u64 const to = choose(3) == 2 ? 4000000000ULL : from + choose(4) * choose(200000);
  std::string tr;
  for (u32 k = 0, m = t->trains_.size() > 40 ? 1 + choose(24) : choose(4) * choose(2); k < m; ++k) {
    u32 const all = static_cast<u32>(t->trains_.size());
    u32 const id = all > 100 && choose(2) ? all - 1 - choose(30) : choose(all + (all > 40 ? 0 : 2));
    tr += (k ? "," : "") + std::to_string(id);
    f.trains_.push_back(id);
  }
  f.interval_.start_ = soro::rep_to_absolute_time(static_cast<soro::absolute_time::rep>(from));
  f.interval_.end_ = soro::rep_to_absolute_time(static_cast<soro::absolute_time::rep>(to));
  std::string const target = "/infrastructure/" + n.name + "/timetable/" + it->first + "/ordering?from=" + std::to_string(from) + "&to=" + std::to_string(to) + "&trainIds=" + tr;
  std::optional<simulation::ordering_graph> og;
  try { og.emplace(*n.inf, t, f); } catch (std::exception const&) {}
  auto const a = ask(cb, target);
  if (!og) { if (a.status == 200) { violation("answer", "%s: an ordering of trains that cannot be ordered", target.c_str()); } return true; }
  auto got = parsed(target, a);
  // the trips, by departure
  struct trip_ { u64 dep; u32 train, first, last; };
  std::map<u32, trip_> by_first;
  u32 longest = 0;
  for (auto const& [tp, ns] : og->trip_to_nodes_) {
    by_first[ns.first] = {rep(soro::relative_to_absolute(tp.anchor_, t->trains_[tp.train_id_].first_departure())), static_cast<u32>(tp.train_id_), ns.first, ns.second};
    longest = std::max(longest, static_cast<u32>(ns.second - ns.first));
  }
  json edges = A();
  std::map<u32, std::string> nodes;
  for (auto const& x : og->nodes_) { for (auto o : x.out_) { edges.a.push_back(O({{"source", N(x.id_)}, {"target", N(o)}})); } }
  auto& ge = member(got, "edges");
  sort_arr(edges); sort_arr(ge);
  same(target + " edges", ge, edges);
  same(target + " attributes", member(got, "attributes"), O({{"totalTrains", N(static_cast<double>(by_first.size()))}, {"maxTrainLength", N(longest)}}));
  std::map<u32, u64> dep_of;  // by relative id
  std::set<u32> keys;
  for (auto& x : member(got, "nodes").a) {
    auto const key = static_cast<u32>(member(x, "key").n);
    if (!keys.insert(key).second || key >= og->nodes_.size()) { violation("answer", "%s: node %u twice or unknown", target.c_str(), key); }
    auto const& tp = std::prev(by_first.upper_bound(key))->second;
    auto& at = member(x, "attributes");
    auto const rel = static_cast<u32>(member(at, "relativeTrainId").n);
    same(target + " node", x, O({{"key", N(key)}, {"attributes", O({{"train", N(tp.train)}, {"offset", N(key - tp.first)}, {"relativeTrainId", N(rel)}, {"route", N(og->nodes_[key].ir_id_)}})}}));
    if (dep_of.count(rel) && dep_of[rel] != (tp.dep << 20 | tp.first)) { violation("answer", "%s: relative train id %u given to two trips", target.c_str(), rel); }
    dep_of[rel] = tp.dep << 20 | tp.first;
  }
  if (keys.size() != og->nodes_.size()) { violation("answer", "%s: %zu of %zu nodes", target.c_str(), keys.size(), og->nodes_.size()); }
  u64 last = 0;
  u32 rel = 0;
  for (auto const& [r, d] : dep_of) { if (r != rel++ || (d >> 20) < last) { violation("answer", "%s: the trips are not numbered by departure", target.c_str()); } last = d >> 20; }
  if (og->nodes_.size() > 3) { probe(sim::P2); }
  return true;
}
std::string osm_of(std::string const& name) { return ROOT + "/res/osm/" + name + ".osm"; }
void check_tile(net_ const& n, request_cb const& cb) {
  u32 const z = choose(18), x = choose(1U << std::min(z, 12U)), y = choose(1U << std::min(z, 12U));
  std::string const t = "/infrastructure/" + n.name + "/tiles/" + std::to_string(z) + "/" + std::to_string(x) + "/" + std::to_string(y) + ".mvt";
  bool const d = choose(8) != 7;
  auto const a = ask(cb, t, d);
  if (!d) { if (a.status == 200 || a.status == 204) { violation("encoding", "%s: a compressed tile for a client that did not ask for it", t.c_str()); } return; }
  geo::tile const tl{x, y, z};
  std::string osm;
  if (!disk::get(osm_of(n.name), osm)) { violation("no-osm", "there is no OSM file of %s", n.name.c_str()); }
  auto const [db, pack] = tiles::complete(osm);
  if (tiles::empty_tile(tl)) { if (a.status != 204) { violation("tile", "%s: status %u for an empty tile", t.c_str(), a.status); } return; }
  if (a.status != 200 || a.body != tiles::render(db, pack, tl) || a.encoding != "deflate") { violation("tile", "%s: not the tile of the exported infrastructure (status %u)", t.c_str(), a.status); }
  probe(sim::P3);
}

bool askable(net_ const& n) { return n.name.find('.') == std::string::npos; }
net_ const& pick_net(deployment const& d) { auto const& n = pick(d.nets); return askable(n) ? n : d.nets.front(); }

// any good request
void good(deployment const& d, request_cb const& cb) {
  auto const& n = pick_net(d);
  switch (choose(16)) {
    case 0: check_names(d, cb); break;
    case 1: check_box(n, cb); break;
    case 2: check_stations(n, cb); break;
    case 3: check_station(n, cb); break;
    case 4: check_station_route(n, cb); break;
    case 5: check_interlocking_route(n, cb); break;
    case 6: check_set(n, cb); break;
    case 7: case 8: check_element(n, cb); break;
    case 9: check_timetables(n, cb); break;
    case 10: if (check_timetable(n, cb)) { break; } [[fallthrough]];
    case 11: case 12: case 14: {
      bool asked = check_ordering(n, cb);
      bool many = false;
      for (auto const& [name, t] : n.tts) { many = many || (*t)->trains_.size() > 100; }
      for (u32 k = 0; asked && many && k < 6; ++k) { check_ordering(n, cb); }
      if (asked) { break; }
      [[fallthrough]];
    }
    case 13: check_tile(n, cb); break;
    default: check_search(n, cb); break;
  }
}

// requests for what there is not
std::string some_name(std::vector<std::string> const& taken) {
  static char const* const n[] = {"nothing", "SMALL", "smal", "small1", "_", "-", "0", "infrastructure", "none-at_all", "small22", "n_", "p-", "p-11", "follo", "4"};
  for (;;) { std::string const s = n[choose(15)]; if (std::find(taken.begin(), taken.end(), s) == taken.end()) { return s; } }
}
std::string past(u64 size) {
  switch (choose(8)) {
    case 0: return std::to_string(size);
    case 1: return std::to_string(size + 1 + choose(1000));
    case 2: return "4294967295";
    case 3: return std::to_string(4294967296ULL + choose(static_cast<u32>(size) + 1));
    case 4: return "18446744073709551616";
    case 5: return std::to_string(2147483648ULL + choose(1000000));
    case 6: return std::string(1 + choose(300), '9') + "999999999999";
    default: return std::to_string(65536ULL * (1 + size / 65536 + choose(60000)) + choose(static_cast<u32>(size) + 1));
  }
}
void bad(deployment const& d, request_cb const& cb) {
  auto const& n = pick_net(d);
  auto const& inf = *n.inf;
  std::vector<std::string> infras, plans;
  for (auto const& x : d.nets) { infras.push_back(x.name); }
  for (auto const& [k, v] : n.tts) { plans.push_back(k); }
  std::string const I = "/infrastructure/";
  std::string t;
  http::verb v = http::verb::get;
  static char const* const kinds[] = {"bounding_box", "stations/", "station/0", "station_route/0", "interlocking_route/0", "exclusion_sets/0", "element/0", "search/abcd", "timetables", "timetable/x", "timetable/x/ordering?from=0&to=1&trainIds=", "tiles/1/0/1.mvt"};
  std::string const some_tt = plans.empty() ? "x" : pick(plans);
  switch (choose(11)) {
    case 0: t = I + some_name(infras) + "/" + kinds[choose(12)]; break;
    case 1: t = I + n.name + "/station/" + past(inf->stations_.size()); break;
    case 2: t = I + n.name + "/station_route/" + past(inf->station_routes_.size()); break;
    case 3: t = I + n.name + "/interlocking_route/" + past(inf->interlocking_.routes_.size()); break;
    case 4: t = I + n.name + "/exclusion_sets/" + past(inf->exclusion_.exclusion_sets_.size()); break;
    case 5: t = I + n.name + "/element/" + past(inf->graph_.elements_.size()); break;
    case 6: t = I + n.name + "/timetable/" + some_name(plans) + (choose(2) ? "" : "/ordering?from=0&to=4000000000&trainIds="); break;
    case 7: { static char const* const q[] = {"a", "S1", "00"}; t = I + n.name + "/search/" + q[choose(3)]; break; }
    case 8: {
      static char const* const q[] = {"from=100&to=99&trainIds=", "from=4000000000&to=0&trainIds=0", "from=99999999999999999999999&to=1&trainIds=", "from=0&to=99999999999999999999999&trainIds=", "from=0&to=10&trainIds=99999999999999999999999",
                                      "from=0&to=10&trainIds=0,99999999999999999999999,1", "from=-1&to=10&trainIds=", "from=&to=10&trainIds=", "from=0&to=10", "from=0&to=10&trainIds=,", "from=0&to=10&trainIds=1,"};
      t = I + n.name + "/timetable/" + some_tt + "/ordering?" + q[choose(11)];
      break;
    }
    case 9: { static char const* const q[] = {"", "/", "/station/x", "/station/", "/station/-1", "/station/1.5", "/element/0x1", "/timetable/", "/search/", "/stations/1", "/tiles/1/1.mvt",
                                                    "/element/0a", "/element/0/1", "/station/0x", "/station/0/0", "/station_route/0a", "/interlocking_route/0.0", "/exclusion_sets/0-1", "/element/0-", "/bounding_boxes", "/timetables2", "/stations//", "/element/+0"}; t = I + n.name + q[choose(23)]; break; }
    default: { static char const* const q[] = {"/", "", "/favicon.ico", "/infrastructure", "/infrastructure/", "/../../etc/passwd", "/infrastructuresx", "/infrastructures//"}; t = q[choose(8)]; break; }
  }
  fault(F_MALFORMED_INPUT);
  auto const a = ask(cb, t, true, v);
  if (a.status != 404 && a.status != 400) { violation("status", "%s: status %u for something there is not: %s", t.c_str(), a.status, cut(a.body).c_str()); }
}

// ---------------------------------------------------------------- the OSM file
void check_osm(infrastructure const& inf, std::string const& content) {
  pugi::xml_document doc;
  if (!doc.load_string(content.c_str()) || std::string(doc.first_child().name()) != "osm") { violation("osm-unreadable", "the OSM file is no XML document: %s", cut(content).c_str()); }
  auto const osm = doc.child("osm");
  if (std::string(osm.attribute("version").value()) != "0.6") { violation("osm-version", "not the version of the format"); }
  struct nd { double lon, lat; std::map<std::string, std::string> tags; };
  std::map<u64, nd> nodes;
  std::map<u64, std::vector<u64>> ways;
  auto const number = [](char const* s) -> u64 { char* e = nullptr; auto const v = strtoull(s, &e, 10); if (!*s || *e || *s == '-') { violation("osm-number", "'%s' is no id", s); } return v; };
  for (auto const& x : osm) {
    std::map<std::string, std::string> tags;
    for (auto const& t : x.children("tag")) { if (!tags.emplace(t.attribute("k").value(), t.attribute("v").value()).second) { violation("osm-tag", "tag %s twice", t.attribute("k").value()); } }
    auto const id = number(x.attribute("id").value());
    if (std::string(x.name()) == "node") {
      nd n{};
      char *e1 = nullptr, *e2 = nullptr;
      auto const *a = x.attribute("lon").value(), *b = x.attribute("lat").value();
      n.lon = strtod(a, &e1); n.lat = strtod(b, &e2);
      if (!*a || !*b || *e1 || *e2 || !std::isfinite(n.lon) || !std::isfinite(n.lat)) { violation("osm-coordinates", "node %lu is at '%s' '%s'", static_cast<unsigned long>(id), a, b); }
      n.tags = std::move(tags);
      if (!nodes.emplace(id, std::move(n)).second) { violation("osm-node-id", "two nodes have id %lu", static_cast<unsigned long>(id)); }
    } else if (std::string(x.name()) == "way") {
      std::vector<u64> refs;
      for (auto const& r : x.children("nd")) { refs.push_back(number(r.attribute("ref").value())); }
      if (tags["railway"] != "rail") { violation("osm-way-tag", "way %lu is no railway", static_cast<unsigned long>(id)); }
      if (refs.size() < 2) { violation("osm-way", "way %lu has less than two nodes", static_cast<unsigned long>(id)); }
      if (!ways.emplace(id, refs).second) { violation("osm-way-id", "two ways have id %lu", static_cast<unsigned long>(id)); }
    } else { violation("osm-kind", "unexpected <%s>", x.name()); }
  }
  auto const near = [](double a, double b) { return std::fabs(a - b) < 1e-7; };
  std::set<u64> element_at, station_at, inter;
  for (auto const& [id, n] : nodes) {
    auto const& ty = n.tags.count("type") ? n.tags.at("type") : "";
    auto const tag = [&](char const* k) { return n.tags.count(k) ? n.tags.at(k) : std::string{}; };
    if (ty == "element") {
      if (id >= inf->graph_.elements_.size() || tag("id") != std::to_string(id)) { violation("osm-element", "node %lu claims to be element %s", static_cast<unsigned long>(id), tag("id").c_str()); }
      auto const& e = *inf->graph_.elements_[id];
      auto const& p = inf->element_positions_[static_cast<u32>(id)];
      if (!near(n.lon, p.lon_) || !near(n.lat, p.lat_)) { violation("osm-element-place", "element %lu is exported at %g %g, not at %g %g", static_cast<unsigned long>(id), n.lon, n.lat, p.lon_, p.lat_); }
      if (tag("subtype") != std::string(e.get_type_str()) || tag("direction") != (e.rising() ? "rising" : "falling")) { violation("osm-element-tags", "element %lu has other tags", static_cast<unsigned long>(id)); }
      element_at.insert(id);
    } else if (ty == "station") {
      auto const s = number(tag("id").c_str());
      if (s >= inf->stations_.size() || !station_at.insert(s).second) { violation("osm-station", "station %lu unknown or twice", static_cast<unsigned long>(s)); }
      auto const& p = inf->station_positions_[static_cast<u32>(s)];
      if (tag("name") != sv(inf->stations_[static_cast<u32>(s)]->ds100_) || !near(n.lon, p.lon_) || !near(n.lat, p.lat_)) { violation("osm-station-data", "station %lu has another name or place", static_cast<unsigned long>(s)); }
    } else if (ty == "interpolation") { inter.insert(id); }
    else { violation("osm-type", "a node of type '%s'", ty.c_str()); }
  }
  if (element_at.size() != inf->graph_.elements_.size()) { violation("osm-elements", "%zu of %zu elements are exported", element_at.size(), static_cast<std::size_t>(inf->graph_.elements_.size())); }
  if (station_at.size() != inf->stations_.size()) { violation("osm-stations", "%zu of %zu stations are exported", station_at.size(), static_cast<std::size_t>(inf->stations_.size())); }
  // the ways: neighbours and nothing else, interpolated between stations
  std::map<u64, std::vector<u64>> adj;
  std::set<std::pair<u64, u64>> got;
  for (auto const& [id, r] : ways) {
    for (std::size_t i = 1; i < r.size(); ++i) {
      auto const a = r[i - 1], b = r[i];
      if (!nodes.count(a) || !nodes.count(b)) { violation("osm-way-ref", "way %lu refers to a node there is not", static_cast<unsigned long>(id)); }
      adj[a].push_back(b); adj[b].push_back(a);
      if (!inter.count(a) && !inter.count(b) && !got.emplace(std::min(a, b), std::max(a, b)).second) { violation("osm-way-twice", "%lu and %lu are connected twice", static_cast<unsigned long>(a), static_cast<unsigned long>(b)); }
    }
  }
  std::set<u64> seen;
  for (auto const s : element_at) {
    for (auto const b : adj[s]) {
      if (!inter.count(b) || seen.count(b)) { continue; }
      u64 prev = s, cur = b;
      u32 len = 0;
      auto const *p = &nodes[s];
      double const sx = p->lon, sy = p->lat;
      double worst = 0;
      while (inter.count(cur)) {
        if (!seen.insert(cur).second || adj[cur].size() != 2) { violation("osm-interpolation", "the interpolation from element %lu is no line", static_cast<unsigned long>(s)); }
        ++len;
        worst = std::max(worst, std::hypot(nodes[cur].lon - sx, nodes[cur].lat - sy));
        auto const nx = adj[cur][0] == prev ? adj[cur][1] : adj[cur][0];
        prev = cur; cur = nx;
      }
      if (len < 2) { violation("osm-interpolation", "the interpolation from element %lu has no points", static_cast<unsigned long>(s)); }
      if (!got.emplace(std::min(s, cur), std::max(s, cur)).second) { violation("osm-way-twice", "%lu and %lu are connected twice", static_cast<unsigned long>(s), static_cast<unsigned long>(cur)); }
      if (inf->element_to_station_.at(static_cast<u32>(s)) == inf->element_to_station_.at(static_cast<u32>(cur))) { violation("osm-interpolation", "an interpolation within a station"); }
      // it begins at one element, ends at the other
      auto const d = std::hypot(nodes[cur].lon - sx, nodes[cur].lat - sy);
      if (worst > 4 * d + 1e-3) { violation("osm-interpolation-place", "the interpolation from element %lu strays", static_cast<unsigned long>(s)); }
    }
  }
  if (seen.size() != inter.size()) { violation("osm-interpolation", "interpolation points on no way"); }
  std::set<std::pair<u64, u64>> want;
  for (auto const& e : inf->graph_.elements_) {
    for (auto const nb : e->neighbours()) {
      if (nb == nullptr) { continue; }
      want.emplace(std::min(e->id(), nb->id()), std::max(e->id(), nb->id()));
    }
  }
  for (auto const& w : want) { if (!got.count(w)) { violation("osm-way-missing", "the elements %lu and %lu are not connected", static_cast<unsigned long>(w.first), static_cast<unsigned long>(w.second)); } }
  if (got != want) { violation("osm-way-extra", "elements are connected that are no neighbours"); }
  if (!inter.empty()) { probe(sim::P0); }
}

// ---------------------------------------------------------------- running it
// Starts a server and lets clients at it. Returns what went wrong at startup.
std::string serve(deployment& d, SchedCfg const& c, std::function<void(request_cb const&)> const& clients, bool* served = nullptr, bool const by_main = false) {
  std::string what;
  with_sched(c, [&] {
    net::web_server::clients() = clients;
    struct quiet : std::streambuf {
      quiet() : old{std::cout.rdbuf(this)} {}
      ~quiet() override { std::cout.rdbuf(old); }
      int overflow(int c) override { return c; }
      std::streamsize xsputn(char const*, std::streamsize n) override { return n; }
      std::streambuf* old;
    } const q;
    try {
      if (by_main) {
        std::vector<std::string> a{"soro-server", "--server_resource_dir", d.s.server_resource_dir_.val(), "--infrastructure_sources=" + d.s.infrastructure_sources_.val().string(), "--timetable_sources", d.s.timetable_sources_.val(), "-t"};
        if (d.s.regenerate_.val()) { a.push_back("--regenerate"); }
        std::vector<char const*> v;
        for (auto const& x : a) { v.push_back(x.c_str()); }
        if (auto const rc = webmain(static_cast<int>(v.size()), v.data()); rc != 0) { what = "ended with " + std::to_string(rc); }
      } else {
        srv::soro_server server{d.s};
        if (served) { *served = true; }
        server.run(d.s);
      }
    } catch (std::exception const& e) { no_alloc_fail const n; what = std::string("threw: ") + e.what(); }
  });
  return what;
}
u64 shape(deployment const& d) { u64 h = 0; for (auto const& n : d.nets) { h = mix(h, mix((*n.inf)->graph_.elements_.size(), n.tts.size())); } return h; }

void answers(bool const with_bad) {
  draw_heap();
  auto d = draw_deployment(2, choose(3) != 2);
  load_timetables(d);
  disk::Cfg dc;
  dc.dir_order = true;
  dc.read_short = choose(2) * 30;
  disk::arm(dc);
  u32 const count = 10 + choose(30);
  u32 done = 0;
  auto const what = serve(d, draw_sched(false, true), [&](request_cb const& cb) {
    disk::disarm();
    for (; done < count; ++done) { if (with_bad && choose(3)) { bad(d, cb); } else { good(d, cb); } }
  });
  disk::disarm();
  if (d.broken && !what.empty()) { return; }
  if (!what.empty() || done != count) { violation("start", "the server did not serve: %s", what.c_str()); }
  nontrivial();
  state(shape(d));
}
Reg r_w01("W01", "answers", nullptr, [] { answers(false); }, 1);
Reg r_w02("W02", "unknown", nullptr, [] { answers(true); }, 1);

// ---- the export alone
void export_run() {
  draw_heap();
  auto d = draw_deployment(1, false);
  auto const& inf = *d.nets.front().inf;
  std::string const out = "/simfs/out.osm";
  bool const fail = choose(3) == 2;
  std::string const before = choose(3) == 2 ? "an older export" : "";
  if (!before.empty()) { disk::put(out, before); }
  std::string what;
  auto const c = draw_sched(choose(4) == 3, true);
  disk::Cfg dc;
  if (fail) {
    static unsigned const p[] = {8, 64, 2};
    unsigned const q = p[choose(3)];
    switch (choose(5)) { case 0: dc.write_enospc = q; break; case 1: dc.open_err = q; break; case 2: dc.close_err = q; break; case 3: dc.rename_err = q; break; default: dc.write_err = q; break; }
    dc.skip = choose(4);
  }
  u64 refuse = 0;
  switch (choose(6)) {
    case 4: refuse = 1 + choose(choose(2) ? 60 : 3000); break;
    case 5: refuse = IN_PUGI + 1 + choose(choose(2) ? 4 : 24); break;
    default: break;
  }
  dc.write_short = choose(2) * 30;
  disk::arm(dc);
  bool oom = false;
  allow_failstop(refuse > 0);
  with_sched(c, [&] {
    arm_refusal(refuse);
    try { srv::osm_export::export_and_write(*inf, out); } catch (std::exception const& e) { no_alloc_fail const n; what = std::string("threw: ") + e.what(); }
    oom = alloc_fail_fired();
    arm_refusal(0);
  });
  bool const hit = disk::injected() > 0 || oom;
  disk::disarm();
  std::string content;
  bool const there = disk::get(out, content);
  nontrivial();
  event(hash_str(content));
  state(mix(mix(inf->graph_.elements_.size(), inf->stations_.size()), content.size()));
  if (!what.empty()) {
    if (!hit) { violation("export-failed", "the export failed: %s", what.c_str()); }
    // what is found under the name later is used as it is
    if (there && content != before) { check_osm(inf, content); }
    return;
  }
  if (!there) { violation("export-missing", "the export returned without a file"); }
  check_osm(inf, content);
}
Reg r_x04("X04", "export", nullptr, export_run, 1);

// ---- kills, faults and restarts
void restart_run() {
  draw_heap();
  auto d = draw_deployment(2, choose(3) == 2);
  load_timetables(d);
  if (d.broken) { discard("a damaged timetable"); }
  // the server's own main makes its directories
  if (choose(2)) { for (auto const* x : {"infrastructure", "timetable", "tiles", "osm", "tmp"}) { std::filesystem::remove(ROOT + "/res/" + x); } }
  u32 const lives = 1 + choose(3);
  nontrivial();
  state(shape(d));
  // what the server made of an older network of the same name is not to be seen any more: either the new one is
  // announced (regenerate), or the old export was taken away
  bool always = false;
  if (d.nets.size() == 1 && choose(3) == 2) {
    auto const& n = d.nets.front();
    auto old = gen::draw_world({1, 2, 2, 4, 4, 40, false});
    if (!old.too_many) {
      gen::write_files(old);
      std::string csv;
      disk::get(ROOT + "/res/misc/btrs_geo.csv", csv);
      for (auto const& [f, x] : n.w.files) { disk::remove(ROOT + "/infra/" + n.name + "/" + f); }
      old.files.erase("exclusion_sets");
      for (auto const& [f, x] : old.files) { disk::put(ROOT + "/infra/" + n.name + "/" + f, x); }
      disk::put(ROOT + "/res/misc/btrs_geo.csv", old.csv);
      auto const c = draw_sched(false, true);
      auto const e = incarnation([&] { auto const w = serve(d, c, [&](request_cb const&) {}, nullptr, true); return w.empty() ? std::string("served") : w; });
      note("an older network: %s", e.out.c_str());
      if (e.out != "served") { discard("the older network is not served"); }
      for (auto const& [f, x] : old.files) { disk::remove(ROOT + "/infra/" + n.name + "/" + f); }
      for (auto const& [f, x] : n.w.files) { disk::put(ROOT + "/infra/" + n.name + "/" + f, x); }
      disk::put(ROOT + "/res/misc/btrs_geo.csv", csv);
      if (choose(2)) { always = true; } else { disk::remove(osm_of(n.name)); }
      probe(sim::P1);
    }
  }
  for (u32 i = 0; i <= lives; ++i) {
    bool const last = i == lives;
    disk::Cfg dc;
    dc.dir_order = true;
    u64 kill = 0, refuse = 0;
    if (!last) {
      static unsigned const p[] = {4, 16, 64};
      unsigned const q = p[choose(3)];
      switch (choose(8)) {
        case 6: refuse = 1 + choose(choose(2) ? 60 : choose(2) ? 6000 : 60000); break;
        case 7: refuse = IN_PUGI + 1 + choose(choose(2) ? 24 : 60); break;
        case 0: case 1: case 2: kill = 1 + choose(choose(2) ? 12 : 60); break;
        case 3: dc.write_err = q; break;
        case 4: dc.write_enospc = q; break;
        default: dc.write_err = dc.open_err = dc.read_err = dc.rename_err = dc.close_err = dc.stat_err = q; break;
      }
      dc.skip = choose(6) * choose(12);
    }
    if (i > 0 && choose(6) == 5) {  // somebody cleans up what the server can make again
      auto const& n = pick(d.nets);
      static char const* const kinds[] = {"osm/%.osm", "tiles/%.mdb", "tiles/%.done"};
      std::string f = kinds[choose(3)];
      f.replace(f.find('%'), 1, n.name);
      if (disk::exists(ROOT + "/res/" + f)) { disk::remove(ROOT + "/res/" + f); note("%s is removed", f.c_str()); }
    }
    auto const c = draw_sched(!last && choose(6) == 5, true);
    d.s.regenerate_.val() = choose(5) == 4 || always;
    allow_failstop(!last);
    auto const e = incarnation([&] {
      disk::arm(dc);
      disk::crash_at(kill);
      arm_refusal(refuse);
      u32 asked = 0;
      auto const what = serve(d, c, [&](request_cb const& cb) {
        disk::disarm();
        arm_refusal(0);
        if (!last) {
          // a server that came up despite a fault may lack a timetable, but
          // what it shows of the infrastructures is right
          for (u32 k = 0; k < 4; ++k, ++asked) { auto const& n = pick_net(d); check_tile(n, cb); check_station(n, cb); }
          return;
        }
        for (auto const& n : d.nets) {
          std::string osm, db, pk;
          disk::get(osm_of(n.name), osm);
          check_osm(*n.inf, osm);
          if (!askable(n)) { continue; }
          check_timetables(n, cb);
          check_tile(n, cb);
        }
        for (u32 k = 0; k < 6; ++k, ++asked) { good(d, cb); }
      }, nullptr, true);
      disk::disarm();
      arm_refusal(0);
      if (last && (!what.empty() || asked == 0)) { violation("no-restart", "the server does not start any more: %s", what.c_str()); }
      return what.empty() ? std::string("served") : what;
    });
    event(mix(static_cast<u64>(e.kind), hash_str(e.out)));
    if (!last) { fault(F_RESTART); note("life %u: %s", i, e.kind == Exit::CRASHED ? "killed" : e.kind == Exit::FAILSTOP ? "ended itself" : e.out.c_str()); state(mix(kill, static_cast<u64>(e.kind))); }
  }
}
Reg r_s01("S01", "restarts", nullptr, restart_run, 1);
}  // namespace
