#pragma once
// Stand-in for the tiles library: the database is a file of lines on the
// (simulated) disk, each import step appends one, durable when the call returns.
#include <cstddef>
#include <cstdint>
#include <optional>
#include <string>
namespace lmdb {
struct env { std::string path_; };
}  // namespace lmdb
namespace geo { struct tile { std::uint32_t x_, y_, z_; }; }
namespace tiles {
constexpr auto const kDefaultSize = std::size_t{1024} * 1024 * 1024;
std::string shim_read(std::string const& path);
void shim_create(std::string const& path, bool truncate);
void shim_append(std::string const& path, std::string const& line);
std::string shim_pack_name(std::string const& db);
inline lmdb::env make_tile_database(char const* path, std::size_t) { shim_create(path, false); return {path}; }
struct tile_db_handle {
  explicit tile_db_handle(lmdb::env& e) : env_{e} {}
  struct opener {};
  opener features_dbi_opener() const { return {}; }
  lmdb::env& env_;
};
struct dbi_handle { dbi_handle(tile_db_handle& h, tile_db_handle::opener) : h_{h} {} tile_db_handle& h_; };
struct pack_handle {
  explicit pack_handle(char const* db) : path_{shim_pack_name(db)} { shim_create(path_, false); }
  std::string path_;
};
struct render_ctx { bool any_ = false; };
inline render_ctx make_render_ctx(tile_db_handle& h) { return {!shim_read(h.env_.path_).empty()}; }
struct perf_counter {};
std::optional<std::string> get_tile(tile_db_handle&, pack_handle const&, render_ctx const&, geo::tile const&, perf_counter&);
}  // namespace tiles
