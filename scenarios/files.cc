// Whole-file reading and writing on a failing disk.
#include <filesystem>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include "soro/utls/file/binary_buffer_to_file.h"
#include "soro/utls/file/file_to_binary_buffer.h"
#include "soro/utls/file/loaded_file.h"

#include "core.h"

using namespace sim;

namespace utl { void shim_log_sink(int, std::string const&) {} }

namespace {
u32 draw_size() {
  static u32 const edge[] = {0, 1, 2, 511, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 70001};
  switch (choose(3)) {
    case 0: return choose(64);
    case 1: return edge[choose(14)];
    default: return choose(40000);
  }
}
std::string draw_content(u32 n) {
  std::string s(n, 0);
  u32 x = choose(1U << 16) * 2654435761U + 1;
  u32 const kind = choose(3);
  for (auto& c : s) {
    x = x * 1664525U + 1013904223U;
    c = kind == 0 ? static_cast<char>(x >> 24) : kind == 1 ? "\n\r\x1a\0abc \xff"[(x >> 24) % 9] : static_cast<char>('a' + (x >> 24) % 26);
  }
  return s;
}
std::string draw_path(u32 i) {
  static char const* const n[] = {"/simfs/data/file", "/simfs/data/with space.bin", "/simfs/data/sub/x.xml", "/simfs/data/\xc3\xa4.dat"};
  return std::string{n[choose(4)]} + std::to_string(i);
}
disk::Cfg draw_faults(bool write) {
  disk::Cfg c;
  u32 const kind = choose(8);
  static unsigned const p[] = {4, 16, 64, 1};
  unsigned const q = p[choose(4)];
  if (write) {
    switch (kind) {
      case 1: c.open_err = q; break;
      case 2: c.write_err = q; break;
      case 3: case 4: c.write_enospc = q; break;
      case 5: c.close_err = q; break;
      default: break;
    }
    c.write_short = choose(2) * choose(40);
    c.write_eintr = choose(2) * choose(20);
  } else {
    switch (kind) {
      case 1: c.open_err = q; break;
      case 2: case 3: c.read_err = q; break;
      case 4: c.stat_err = q; break;
      case 5: c.mmap_err = q; break;
      case 6: c.read_eintr = q > 24 ? 24 : q; break;
      default: break;
    }
    c.read_short = choose(2) * choose(40);
  }
  c.skip = choose(4) * choose(4);
  return c;
}
struct one { std::string path, want; bool failed = false; std::string what; };

void write_run() {
  draw_heap();
  u32 const n = 1 + choose(3);
  std::vector<one> fs(n);
  for (u32 i = 0; i < n; ++i) {
    fs[i].path = draw_path(i);
    fs[i].want = draw_content(draw_size());
    disk::mkdirs("/simfs/data/sub");
    if (choose(2) == 1) { disk::put(fs[i].path, draw_content(draw_size())); }  // an older version is there
    note("write %zu bytes to %s", fs[i].want.size(), fs[i].path.c_str());
  }
  auto const c = draw_faults(true);
  bool const threads = n > 1 && choose(3) == 2;
  disk::arm(c);
  auto const go = [](one& f) {
    std::vector<unsigned char> const buf(f.want.begin(), f.want.end());
    try { soro::utls::write_binary_buffer_to_file(f.path, buf); }
    catch (std::exception const& e) { f.failed = true; f.what = e.what(); }
  };
  if (threads) {
    auto const s = draw_sched(false, false);
    with_sched(s, [&] { std::vector<std::thread> ts; for (auto& f : fs) { ts.emplace_back([&] { go(f); }); } for (auto& t : ts) { t.join(); } });
  } else {
    for (auto& f : fs) { go(f); }
  }
  bool const hit = disk::injected() > 0;
  disk::disarm();
  for (auto& f : fs) {
    std::string got;
    bool const there = disk::get(f.path, got);
    event(f.failed);
    if (!f.failed && (!there || got != f.want)) { violation("incomplete-write-not-reported", "writing %zu bytes to %s returned normally, but the file has %s%zu bytes%s", f.want.size(), f.path.c_str(), there ? "" : "(missing) ", got.size(), got.size() == f.want.size() ? " with other contents" : ""); }
    if (f.failed && !hit) { violation("write-refused", "writing %zu bytes to %s failed although the disk worked: %s", f.want.size(), f.path.c_str(), f.what.c_str()); }
    if (!got.empty() || f.failed) { nontrivial(); }
    // once the disk works again, writing succeeds
    one again{f.path, f.want};
    go(again);
    there ? void() : void();
    disk::get(f.path, got);
    if (again.failed || got != f.want) { violation("write-does-not-recover", "writing %s again on a working disk: %s, %zu of %zu bytes", f.path.c_str(), again.failed ? again.what.c_str() : "no error", got.size(), f.want.size()); }
    state(mix(f.want.size(), f.failed));
  }
}

enum reader { BUFFER, STRING, MAPPED };
void read_one(one& f, reader r, std::string& got) {
  try {
    if (r == BUFFER) { auto const b = soro::utls::read_file_to_binary_buffer(f.path); got.assign(b.begin(), b.end()); }
    else if (r == STRING) { got = soro::utls::read_file_to_string(f.path); }
    else { auto const l = soro::utls::load_file(f.path); if (l.size() != static_cast<std::size_t>(l.end() - l.begin())) { violation("read-size", "size() is %zu for %ld bytes", l.size(), static_cast<long>(l.end() - l.begin())); } got.assign(reinterpret_cast<char const*>(l.data()), l.size()); }
  } catch (std::exception const& e) { f.failed = true; f.what = e.what(); }
}
void read_run() {
  draw_heap();
  u32 const n = 1 + choose(3);
  std::vector<one> fs(n);
  std::vector<reader> rd(n);
  std::vector<std::string> got(n);
  std::vector<bool> missing(n);
  for (u32 i = 0; i < n; ++i) {
    rd[i] = static_cast<reader>(choose(3));
    fs[i].path = draw_path(i);
    fs[i].want = draw_content(draw_size());
    if (rd[i] == MAPPED && fs[i].want.empty()) { fs[i].want = "x"; }
    disk::mkdirs("/simfs/data/sub");
    missing[i] = choose(12) == 11;
    if (!missing[i]) { disk::put(fs[i].path, fs[i].want); } else { fault(F_MISSING_FILE); }
    note("read %s with reader %d, %s%zu bytes", fs[i].path.c_str(), rd[i], missing[i] ? "missing, " : "", fs[i].want.size());
  }
  auto const c = draw_faults(false);
  bool const threads = n > 1 && choose(3) == 2;
  disk::arm(c);
  if (threads) {
    auto const s = draw_sched(false, false);
    with_sched(s, [&] { std::vector<std::thread> ts; for (u32 i = 0; i < n; ++i) { ts.emplace_back([&, i] { read_one(fs[i], rd[i], got[i]); }); } for (auto& t : ts) { t.join(); } });
  } else {
    for (u32 i = 0; i < n; ++i) { read_one(fs[i], rd[i], got[i]); }
  }
  bool const hit = disk::injected() > 0 || fault_count(F_READ_EINTR) > 0;
  disk::disarm();
  for (u32 i = 0; i < n; ++i) {
    auto& f = fs[i];
    event(f.failed);
    if (missing[i]) { if (!f.failed) { violation("missing-file-not-reported", "reading the missing file %s returned %zu bytes", f.path.c_str(), got[i].size()); } nontrivial(); continue; }
    if (!f.failed && got[i] != f.want) { violation("incomplete-read-not-reported", "reader %d on %s returned %zu bytes normally, but the file has %zu", rd[i], f.path.c_str(), got[i].size(), f.want.size()); }
    if (f.failed && !hit) { violation("read-refused", "reader %d on %s failed although the disk worked: %s", rd[i], f.path.c_str(), f.what.c_str()); }
    if (!f.want.empty()) { nontrivial(); }
    one again{f.path, f.want};
    std::string g;
    read_one(again, rd[i], g);
    if (again.failed || g != f.want) { violation("read-does-not-recover", "reading %s again on a working disk: %s, %zu of %zu bytes", f.path.c_str(), again.failed ? again.what.c_str() : "no error", g.size(), f.want.size()); }
    state(mix(mix(f.want.size(), static_cast<u64>(rd[i])), f.failed));
  }
}
Reg r1{"F01", "write", nullptr, write_run}, r2{"F02", "read", nullptr, read_run};
}  // namespace
