// In-memory disk below /simfs, with failures. Its contents live in memory that
// survives simulated process crashes. Other paths reach the real system.
#include "internal.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/uio.h>
#include <unistd.h>
#undef stat64
#undef fstat64

namespace sim {
template <typename F>
static F real(char const* n) { Core c; return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

constexpr int FD0 = 1 << 20;
constexpr int NFD = 512;
struct DirEnt { char name[120]; bool dir; u32 ino; };
struct Open { bool used, is_dir; int node; u64 off; int flags; DirEnt* ents; u32 nents, pos; bool dirty; u64 lo, hi; };
static Open O[NFD];
struct Map { void* p; u64 len; int node; u64 off; bool shared_w; };
static Map M[64];
struct DirStream { u64 magic; int fd; dirent64 de; };
static DirStream* D[64];
struct CookieFile { int fd; FILE* f; };
static CookieFile C[256];

static disk::Cfg cfg;
static bool armed = false;
static u64 n_injected = 0, n_ops = 0, n_seen = 0;

static bool is_sim(char const* p) { return p && strncmp(p, "/simfs", 6) == 0 && (p[6] == 0 || p[6] == '/'); }
static bool is_fd(int fd) { return fd >= FD0 && fd < FD0 + NFD && O[fd - FD0].used; }

static bool norm(char const* in, char* out, bool* trailing = nullptr) {
  // collapses //, /./ and /../; false if too long
  u64 n = 0;
  out[0] = 0;
  u64 const len = strlen(in);
  if (trailing) { *trailing = len > 1 && in[len - 1] == '/'; }
  for (u64 i = 0; i < len;) {
    while (i < len && in[i] == '/') { ++i; }
    u64 j = i;
    while (j < len && in[j] != '/') { ++j; }
    if (j == i) { break; }
    if (j - i == 1 && in[i] == '.') { i = j; continue; }
    if (j - i == 2 && in[i] == '.' && in[i + 1] == '.') { while (n > 0 && out[--n] != '/') {} out[n] = 0; i = j; continue; }
    if (n + 1 + (j - i) >= sizeof(Node::path)) { return false; }
    out[n++] = '/';
    for (; i < j; ++i) { out[n++] = in[i]; }
    out[n] = 0;
  }
  return true;
}
static int find(char const* p) {
  u64 const h = hash_bytes(p, strlen(p));
  for (u32 i = 0; i < G->nnodes; ++i) { if (G->nodes[i].used && G->nodes[i].hash == h && strcmp(G->nodes[i].path, p) == 0) { return static_cast<int>(i); } }
  return -1;
}
static u64 tick() { return ++G->fs_clock * 1000000ULL + 1700000000ULL * 1000000000ULL; }
static int make(char const* p, bool dir) {
  u32 i = 0;
  while (i < G->nnodes && G->nodes[i].path[0] != 0) { ++i; }
  if (i == G->nnodes) { if (i >= MAX_NODES) { G->status = S_ERROR; _exit(2); } ++G->nnodes; }
  Node& n = G->nodes[i];
  n = Node{};
  n.used = true;
  n.dir = dir;
  snprintf(n.path, sizeof(n.path), "%s", p);
  n.hash = hash_bytes(n.path, strlen(n.path));
  n.mtime = tick();
  return static_cast<int>(i);
}
static void parent_of(char const* p, char* out) {
  snprintf(out, sizeof(Node::path), "%s", p);
  char* s = strrchr(out, '/');
  if (s) { *s = 0; }
}
static bool parent_ok(char const* p) {
  char b[sizeof(Node::path)];
  parent_of(p, b);
  if (b[0] == 0) { return true; }
  int const i = find(b);
  return i >= 0 && G->nodes[i].dir;
}
static void grow(Node& n, u64 size) {
  if (size > n.cap) {
    u64 cap = n.cap ? n.cap * 2 : 4096;
    while (cap < size) { cap *= 2; }
    if (G->fs_bump + cap > FS_BYTES) { G->status = S_ERROR; _exit(2); }
    if (n.size) { memcpy(G->fs + G->fs_bump, G->fs + n.off, n.size); }
    n.off = G->fs_bump;
    n.cap = cap;
    G->fs_bump += cap;
  }
}
static void set_size(Node& n, u64 size) {
  grow(n, size);
  if (size > n.size) { memset(G->fs + n.off + n.size, 0, size - n.size); }
  n.size = size;
}

static void writeback(Map& m) {
  if (!m.p || !m.shared_w) { return; }
  Node& n = G->nodes[m.node];
  u64 const len = m.off + m.len <= n.size ? m.len : (m.off < n.size ? n.size - m.off : 0);
  if (len) { memcpy(G->fs + n.off + m.off, m.p, len); n.mtime = tick(); }
}
static void writeback_all() { for (auto& m : M) { writeback(m); } }

static void op() { add_steps(20); ++n_ops; ++G->disk_ops; clock_advance(20000); }
// A mutating operation is a crash point: the process dies before it happens,
// or, for data, after a prefix of it.
static bool crash_now() { ++G->fs_mut; return G->fs_crash_at != 0 && G->fs_mut == G->fs_crash_at; }
static void die() {
  writeback_all();
  fault(F_CRASH);
  note("process killed at mutating disk operation %lu", static_cast<unsigned long>(G->fs_mut));
  G->fs_crash_at = 0;
  finish(S_CRASHSIM);
}
static bool inject(unsigned p, Fault f) {
  if (!armed || p == 0 || n_injected >= cfg.max_faults) { return false; }
  if (n_seen++ < cfg.skip) { return false; }
  if (!chance(p, 64)) { return false; }
  ++n_injected;
  fault(f);
  note("disk: %s injected at operation %lu", FAULT_NAME[f], static_cast<unsigned long>(n_ops));
  return true;
}
static bool inject_soft(unsigned p, Fault f) {
  if (!armed || p == 0 || !chance(p, 64)) { return false; }
  fault(f);
  return true;
}

static int new_fd(int node, int flags, bool dir) {
  for (int i = 0; i < NFD; ++i) { if (!O[i].used) { O[i] = Open{}; O[i].used = true; O[i].node = node; O[i].flags = flags; O[i].is_dir = dir; return FD0 + i; } }
  errno = EMFILE;
  return -1;
}
static int fs_open(char const* path, int flags) {
  Core c;
  op();
  char p[sizeof(Node::path)];
  if (!norm(path, p)) { errno = ENAMETOOLONG; return -1; }
  bool const wr = (flags & O_ACCMODE) != O_RDONLY;
  if (inject(cfg.open_err, F_OPEN_ERR)) { static int const e[] = {EIO, EACCES, EMFILE, ENFILE}; errno = wr && choose(2) ? ENOSPC : e[choose(4)]; return -1; }
  int i = find(p);
  if (i < 0) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (!parent_ok(p)) { errno = ENOENT; return -1; }
    if (crash_now()) { die(); }
    i = make(p, false);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (G->nodes[i].dir && wr) { errno = EISDIR; return -1; }
    if (!G->nodes[i].dir && (flags & O_DIRECTORY)) { errno = ENOTDIR; return -1; }
    if ((flags & O_TRUNC) && wr) { if (crash_now()) { die(); } set_size(G->nodes[i], 0); G->nodes[i].mtime = tick(); }
  }
  return new_fd(i, flags, G->nodes[i].dir);
}
static ssize_t fs_pread(int fd, void* buf, u64 n, u64 off) {
  op();
  Open& o = O[fd - FD0];
  if (o.is_dir) { errno = EISDIR; return -1; }
  if ((o.flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (inject(cfg.read_err, F_READ_ERR)) { errno = EIO; return -1; }
  if (inject_soft(cfg.read_eintr, F_READ_EINTR)) { errno = EINTR; return -1; }
  Node& f = G->nodes[o.node];
  if (off >= f.size) { return 0; }
  if (n > f.size - off) { n = f.size - off; }
  if (n > 1 && inject_soft(cfg.read_short, F_READ_SHORT)) { n = 1 + choose(static_cast<u32>(n - 1 < 1000000 ? n - 1 : 1000000)); }
  memcpy(buf, G->fs + f.off + off, n);
  return static_cast<ssize_t>(n);
}
static ssize_t fs_read(int fd, void* buf, u64 n) {
  Core c;
  Open& o = O[fd - FD0];
  ssize_t const r = fs_pread(fd, buf, n, o.off);
  if (r > 0) { o.off += static_cast<u64>(r); }
  return r;
}
static ssize_t fs_pwrite(int fd, void const* buf, u64 n, u64 off) {
  op();
  Open& o = O[fd - FD0];
  if ((o.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  Node& f = G->nodes[o.node];
  if (n == 0) { return 0; }
  bool const crash = crash_now();
  if (crash) {
    u64 const k = choose(static_cast<u32>(n < 1000000 ? n + 1 : 1000001));
    if (k) { if (k < n) { fault(F_TORN_WRITE); } if (off + k > f.size) { set_size(f, off + k); } memcpy(G->fs + f.off + off, buf, k); f.mtime = tick(); }
    die();
  }
  if (inject(cfg.write_err, F_WRITE_ERR)) { errno = EIO; return -1; }
  if (inject(cfg.write_enospc, F_WRITE_ENOSPC)) {
    // a full disk takes what still fits, then fails until the run ends
    u64 const k = choose(2) ? choose(static_cast<u32>(n)) : 0;
    cfg.write_enospc = 64;
    cfg.skip = 0;
    cfg.max_faults = 1000000;
    cfg.read_err = cfg.write_err = cfg.open_err = cfg.close_err = cfg.stat_err = cfg.mmap_err = cfg.readdir_err = cfg.rename_err = 0;
    if (k == 0) { errno = ENOSPC; return -1; }
    n = k;
  } else if (inject_soft(cfg.write_eintr, F_WRITE_EINTR)) { errno = EINTR; return -1; }
  else if (n > 1 && inject_soft(cfg.write_short, F_WRITE_SHORT)) { n = 1 + choose(static_cast<u32>(n - 1 < 1000000 ? n - 1 : 1000000)); }
  if (off + n > f.size) { set_size(f, off + n); }
  memcpy(G->fs + f.off + off, buf, n);
  f.mtime = tick();
  if (o.hi == 0 || off < o.lo) { o.lo = off; }
  if (off + n > o.hi) { o.hi = off + n; }
  return static_cast<ssize_t>(n);
}
static ssize_t fs_write(int fd, void const* buf, u64 n) {
  Core c;
  Open& o = O[fd - FD0];
  if (o.flags & O_APPEND) { o.off = G->nodes[o.node].size; }
  ssize_t const r = fs_pwrite(fd, buf, n, o.off);
  if (r > 0) { o.off += static_cast<u64>(r); }
  return r;
}
static off_t fs_lseek(int fd, off_t off, int wh) {
  Core c;
  Open& o = O[fd - FD0];
  off_t const base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? static_cast<off_t>(o.off) : static_cast<off_t>(G->nodes[o.node].size);
  if (base + off < 0) { errno = EINVAL; return -1; }
  o.off = static_cast<u64>(base + off);
  return base + off;
}
static int fs_close(int fd) {
  Core c;
  op();
  Open& o = O[fd - FD0];
  bool const wr = !o.is_dir && (o.flags & O_ACCMODE) != O_RDONLY;
  o.used = false;
  free(o.ents);
  o.ents = nullptr;
  if (wr && inject(cfg.close_err, F_CLOSE_ERR)) {
    // what was written may turn out not to be stored only now
    if (o.hi > o.lo && choose(2)) {
      Node& f = G->nodes[o.node];
      u64 const span = o.hi - o.lo, k = o.lo + choose(static_cast<u32>(span < 1000000 ? span : 1000000));
      if (o.hi >= f.size) { if (k < f.size) { set_size(f, k); } } else { memset(G->fs + f.off + k, 0, o.hi - k); }
    }
    errno = EIO;
    return -1;
  }
  return 0;
}
static int fill_stat(int node, struct stat* st) {
  memset(st, 0, sizeof(*st));
  Node const& n = G->nodes[node];
  st->st_dev = 77;
  st->st_ino = static_cast<ino_t>(node) + 1;
  st->st_mode = n.dir ? S_IFDIR | 0755 : S_IFREG | 0644;
  st->st_nlink = 1;
  st->st_size = n.dir ? 4096 : static_cast<off_t>(n.size);
  st->st_blksize = 4096;
  st->st_blocks = (st->st_size + 511) / 512;
  st->st_mtim.tv_sec = static_cast<time_t>(n.mtime / 1000000000ULL);
  st->st_mtim.tv_nsec = static_cast<long>(n.mtime % 1000000000ULL);
  st->st_ctim = st->st_atim = st->st_mtim;
  return 0;
}
static int fs_stat(char const* path, struct stat* st) {
  Core c;
  op();
  char p[sizeof(Node::path)];
  bool tr;
  if (!norm(path, p, &tr)) { errno = ENAMETOOLONG; return -1; }
  int const i = find(p);
  if (i < 0) { errno = ENOENT; return -1; }
  if (tr && !G->nodes[i].dir) { errno = ENOTDIR; return -1; }
  if (inject(cfg.stat_err, F_STAT_ERR)) { errno = EIO; return -1; }
  return fill_stat(i, st);
}
static int fs_fstat(int fd, struct stat* st) {
  Core c;
  op();
  if (inject(cfg.stat_err, F_STAT_ERR)) { errno = EIO; return -1; }
  return fill_stat(O[fd - FD0].node, st);
}
static int fs_truncate(int node, u64 n) {
  op();
  if (crash_now()) { die(); }
  if (n > G->nodes[node].size && inject(cfg.write_enospc, F_WRITE_ENOSPC)) { errno = ENOSPC; return -1; }
  set_size(G->nodes[node], n);
  G->nodes[node].mtime = tick();
  return 0;
}
static bool has_children(char const* p) {
  u64 const n = strlen(p);
  for (u32 i = 0; i < G->nnodes; ++i) { if (G->nodes[i].used && strncmp(G->nodes[i].path, p, n) == 0 && G->nodes[i].path[n] == '/') { return true; } }
  return false;
}
static int fs_unlink(char const* path, int want) {  // want: 0 file, 1 dir, 2 either
  Core c;
  op();
  char p[sizeof(Node::path)];
  if (!norm(path, p)) { errno = ENAMETOOLONG; return -1; }
  int const i = find(p);
  if (i < 0) { errno = ENOENT; return -1; }
  bool const d = G->nodes[i].dir;
  if (d && want == 0) { errno = EISDIR; return -1; }
  if (!d && want == 1) { errno = ENOTDIR; return -1; }
  if (d && has_children(p)) { errno = ENOTEMPTY; return -1; }
  if (crash_now()) { die(); }
  G->nodes[i].used = false;  // open descriptors keep the node
  return 0;
}
static int fs_rename(char const* a, char const* b) {
  Core c;
  op();
  char pa[sizeof(Node::path)], pb[sizeof(Node::path)];
  if (!norm(a, pa) || !norm(b, pb)) { errno = ENAMETOOLONG; return -1; }
  int const i = find(pa);
  if (i < 0 || !parent_ok(pb)) { errno = ENOENT; return -1; }
  int const j = find(pb);
  if (j >= 0 && G->nodes[j].dir && !G->nodes[i].dir) { errno = EISDIR; return -1; }
  if (crash_now()) { die(); }
  if (inject(cfg.rename_err, F_RENAME_ERR)) { errno = EIO; return -1; }
  if (i == j) { return 0; }
  if (j >= 0) { if (G->nodes[j].dir && has_children(pb)) { errno = ENOTEMPTY; return -1; } G->nodes[j].used = false; }
  if (G->nodes[i].dir) {
    u64 const n = strlen(pa);
    for (u32 k = 0; k < G->nnodes; ++k) {
      Node& q = G->nodes[k];
      if (q.used && strncmp(q.path, pa, n) == 0 && q.path[n] == '/') { char t[sizeof(Node::path) * 2]; snprintf(t, sizeof(t), "%s%s", pb, q.path + n); snprintf(q.path, sizeof(q.path), "%.199s", t); q.hash = hash_bytes(q.path, strlen(q.path)); }
    }
  }
  snprintf(G->nodes[i].path, sizeof(Node::path), "%s", pb);
  G->nodes[i].hash = hash_bytes(pb, strlen(pb));
  return 0;
}
static int fs_mkdir(char const* path) {
  Core c;
  op();
  char p[sizeof(Node::path)];
  if (!norm(path, p)) { errno = ENAMETOOLONG; return -1; }
  if (find(p) >= 0) { errno = EEXIST; return -1; }
  if (!parent_ok(p)) { errno = ENOENT; return -1; }
  if (crash_now()) { die(); }
  if (inject(cfg.write_enospc, F_WRITE_ENOSPC)) { errno = ENOSPC; return -1; }
  make(p, true);
  return 0;
}
static bool load_dir(Open& o) {
  char const* p = G->nodes[o.node].path;
  u64 const n = strlen(p);
  o.ents = static_cast<DirEnt*>(calloc(G->nnodes + 3, sizeof(DirEnt)));
  o.nents = 0;
  auto add = [&](char const* name, bool dir, u32 ino) { snprintf(o.ents[o.nents].name, sizeof(DirEnt::name), "%s", name); o.ents[o.nents].dir = dir; o.ents[o.nents++].ino = ino; };
  add(".", true, 1);
  add("..", true, 1);
  for (u32 i = 0; i < G->nnodes; ++i) {
    Node const& q = G->nodes[i];
    if (q.used && strncmp(q.path, p, n) == 0 && q.path[n] == '/' && !strchr(q.path + n + 1, '/')) { add(q.path + n + 1, q.dir, i + 1); }
  }
  // listing order is up to the file system: by name, or any
  for (u32 i = 1; i < o.nents; ++i) { for (u32 k = i; k > 0 && strcmp(o.ents[k].name, o.ents[k - 1].name) < 0; --k) { auto t = o.ents[k]; o.ents[k] = o.ents[k - 1]; o.ents[k - 1] = t; } }
  if (armed && cfg.dir_order && o.nents > 3) {
    u32 seed = choose(1U << 14);
    if (seed) {
      fault(F_DIR_ORDER);
      for (u32 i = o.nents - 1; i > 0; --i) { seed = seed * 1664525U + 1013904223U; u32 const k = (seed >> 8) % (i + 1); auto t = o.ents[k]; o.ents[k] = o.ents[i]; o.ents[i] = t; }
    }
  }
  return true;
}

void disk_reset() {
  G->fs_bump = 0; G->fs_clock = 0; G->fs_mut = 0; G->fs_crash_at = 0; G->nnodes = 0;
  memset(O, 0, sizeof(O)); memset(M, 0, sizeof(M)); memset(D, 0, sizeof(D)); memset(C, 0, sizeof(C));
  armed = false; n_ops = n_injected = n_seen = 0;
  make("/simfs", true);
}

namespace disk {
void arm(Cfg const& c) { cfg = c; armed = true; n_injected = 0; n_seen = 0; }
void disarm() { armed = false; }
u64 ops() { return n_ops; }
u64 injected() { return n_injected; }
void mkdirs(std::string const& path) {
  Core c;
  char p[sizeof(Node::path)];
  norm(path.c_str(), p);
  for (char* s = p + 1;; ++s) {
    if (*s == '/' || *s == 0) { char const k = *s; *s = 0; if (find(p) < 0) { make(p, true); } *s = k; if (k == 0) { break; } }
  }
}
void put(std::string const& path, std::string const& content, u64 mtime) {
  Core c;
  char p[sizeof(Node::path)], d[sizeof(Node::path)];
  norm(path.c_str(), p);
  parent_of(p, d);
  mkdirs(d);
  int i = find(p);
  if (i < 0) { i = make(p, false); }
  set_size(G->nodes[i], content.size());
  if (!content.empty()) { memcpy(G->fs + G->nodes[i].off, content.data(), content.size()); }
  G->nodes[i].mtime = mtime ? mtime : tick();
}
bool exists(std::string const& path) { Core c; char p[sizeof(Node::path)]; return norm(path.c_str(), p) && find(p) >= 0; }
bool get(std::string const& path, std::string& out) {
  Core c;
  char p[sizeof(Node::path)];
  norm(path.c_str(), p);
  int const i = find(p);
  if (i < 0 || G->nodes[i].dir) { return false; }
  out.assign(G->fs + G->nodes[i].off, G->nodes[i].size);
  return true;
}
void remove(std::string const& path) { Core c; char p[sizeof(Node::path)]; norm(path.c_str(), p); int const i = find(p); if (i >= 0) { G->nodes[i].used = false; } }
std::vector<std::string> list(std::string const& prefix) {
  Core c;
  std::vector<std::string> v;
  for (u32 i = 0; i < G->nnodes; ++i) { if (G->nodes[i].used && !G->nodes[i].dir && strncmp(G->nodes[i].path, prefix.c_str(), prefix.size()) == 0) { v.emplace_back(G->nodes[i].path); } }
  return v;
}
struct CachedFile { std::string rel; std::string data; bool dir; };
static std::vector<std::pair<std::string, std::vector<CachedFile>>>& cache() { static std::vector<std::pair<std::string, std::vector<CachedFile>>> c; return c; }
static void scan(std::string const& root, std::string const& rel, std::vector<CachedFile>& out) {
  std::string const full = rel.empty() ? root : root + "/" + rel;
  struct stat st {};
  if (::stat(full.c_str(), &st) != 0) { return; }
  if (S_ISDIR(st.st_mode)) {
    if (!rel.empty()) { out.push_back({rel, "", true}); }
    std::vector<std::string> names;
    if (DIR* d = opendir(full.c_str())) { while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") { names.push_back(n); } } closedir(d); }
    for (std::size_t i = 1; i < names.size(); ++i) { for (std::size_t k = i; k > 0 && names[k] < names[k - 1]; --k) { std::swap(names[k], names[k - 1]); } }
    for (auto const& n : names) { scan(root, rel.empty() ? n : rel + "/" + n, out); }
    return;
  }
  FILE* f = fopen(full.c_str(), "r");
  if (!f) { return; }
  std::string s(static_cast<std::size_t>(st.st_size), 0);
  s.resize(fread(s.data(), 1, s.size(), f));
  fclose(f);
  out.push_back({rel, s, false});
}
void cache_tree(std::string const& real_dir) {
  Core c;
  for (auto const& e : cache()) { if (e.first == real_dir) { return; } }
  std::vector<CachedFile> v;
  scan(real_dir, "", v);
  cache().push_back({real_dir, v});
}
u32 load_tree(std::string const& real_dir, std::string const& sim_dir) {
  Core c;
  cache_tree(real_dir);
  u32 n = 0;
  for (auto const& e : cache()) {
    if (e.first != real_dir) { continue; }
    mkdirs(sim_dir);
    for (auto const& f : e.second) {
      if (f.dir) { mkdirs(sim_dir + "/" + f.rel); }
      else { put(f.rel.empty() ? sim_dir : sim_dir + "/" + f.rel, f.data); ++n; }
    }
  }
  return n;
}
void crash_at(u64 n) { G->fs_crash_at = n == 0 ? 0 : G->fs_mut + n; }
u64 mutating_ops() { return G->fs_mut; }
}  // namespace disk
}  // namespace sim

using namespace sim;
static CookieFile* cookie_of(FILE* f) { for (auto& c : C) { if (c.f == f && f) { return &c; } } return nullptr; }
static ssize_t ck_read(void* k, char* b, size_t n) { return fs_read(static_cast<CookieFile*>(k)->fd, b, n); }
static ssize_t ck_write(void* k, char const* b, size_t n) { ssize_t const r = fs_write(static_cast<CookieFile*>(k)->fd, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void* k, off64_t* off, int wh) { off_t const r = fs_lseek(static_cast<CookieFile*>(k)->fd, *off, wh); if (r < 0) { return -1; } *off = r; return 0; }
static int ck_close(void* k) { auto* c = static_cast<CookieFile*>(k); int const r = fs_close(c->fd); c->f = nullptr; return r; }
static FILE* fs_fdopen(int fd, char const* mode) {
  Core c;
  for (auto& k : C) {
    if (k.f == nullptr) {
      k.fd = fd;
      k.f = fopencookie(&k, mode, {ck_read, ck_write, ck_seek, ck_close});
      return k.f;
    }
  }
  errno = EMFILE;
  return nullptr;
}
static FILE* fs_fopen(char const* path, char const* mode) {
  bool const plus = strchr(mode, '+') != nullptr;
  int fl = 0;
  switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return nullptr;
  }
  if (strchr(mode, 'x')) { fl |= O_EXCL; }
  int const fd = fs_open(path, fl);
  if (fd < 0) { return nullptr; }
  return fs_fdopen(fd, mode);
}
static char const* at_path(int dfd, char const* p, char* buf) {
  if (p && p[0] != '/' && is_fd(dfd)) { snprintf(buf, 512, "%s/%s", G->nodes[O[dfd - FD0].node].path, p); return buf; }
  return p;
}
#define REALF(ret, name, ...) static auto f = real<ret (*)(__VA_ARGS__)>(#name)

extern "C" {
static int do_open(char const* p, int fl, mode_t m) { if (G && is_sim(p)) { return fs_open(p, fl); } REALF(int, open64, char const*, int, ...); return f(p, fl, m); }
int open(char const* p, int fl, ...) { va_list a; va_start(a, fl); mode_t const m = va_arg(a, mode_t); va_end(a); return do_open(p, fl, m); }
int open64(char const* p, int fl, ...) { va_list a; va_start(a, fl); mode_t const m = va_arg(a, mode_t); va_end(a); return do_open(p, fl, m); }
int creat(char const* p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static int do_openat(int d, char const* p, int fl, mode_t m) { char b[512]; p = at_path(d, p, b); if (G && is_sim(p)) { return fs_open(p, fl); } REALF(int, openat64, int, char const*, int, ...); return f(d, p, fl, m); }
int openat(int d, char const* p, int fl, ...) { va_list a; va_start(a, fl); mode_t const m = va_arg(a, mode_t); va_end(a); return do_openat(d, p, fl, m); }
int openat64(int d, char const* p, int fl, ...) { va_list a; va_start(a, fl); mode_t const m = va_arg(a, mode_t); va_end(a); return do_openat(d, p, fl, m); }
int __openat_2(int d, char const* p, int fl) { return do_openat(d, p, fl, 0); }
int __openat64_2(int d, char const* p, int fl) { return do_openat(d, p, fl, 0); }
int __open_2(char const* p, int fl) { return do_open(p, fl, 0); }
int __open64_2(char const* p, int fl) { return do_open(p, fl, 0); }
ssize_t read(int fd, void* b, size_t n) { if (is_fd(fd)) { return fs_read(fd, b, n); } REALF(ssize_t, read, int, void*, size_t); return f(fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { if (is_fd(fd)) { Core c; return fs_pread(fd, b, n, static_cast<u64>(o)); } REALF(ssize_t, pread, int, void*, size_t, off_t); return f(fd, b, n, o); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t __pread_chk(int fd, void* b, size_t n, off_t o, size_t) { return pread(fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t readv(int fd, iovec const* v, int n) {
  if (!is_fd(fd)) { REALF(ssize_t, readv, int, iovec const*, int); return f(fd, v, n); }
  ssize_t t = 0;
  for (int i = 0; i < n; ++i) { if (v[i].iov_len == 0) { continue; } ssize_t const r = fs_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) { return t ? t : r; } t += r; if (static_cast<size_t>(r) < v[i].iov_len) { break; } }
  return t;
}
ssize_t write(int fd, void const* b, size_t n) { if (is_fd(fd)) { return fs_write(fd, b, n); } REALF(ssize_t, write, int, void const*, size_t); return f(fd, b, n); }
ssize_t pwrite(int fd, void const* b, size_t n, off_t o) { if (is_fd(fd)) { Core c; return fs_pwrite(fd, b, n, static_cast<u64>(o)); } REALF(ssize_t, pwrite, int, void const*, size_t, off_t); return f(fd, b, n, o); }
ssize_t pwrite64(int fd, void const* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, iovec const* v, int n) {
  if (!is_fd(fd)) { REALF(ssize_t, writev, int, iovec const*, int); return f(fd, v, n); }
  ssize_t t = 0;
  for (int i = 0; i < n; ++i) { if (v[i].iov_len == 0) { continue; } ssize_t const r = fs_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) { return t ? t : r; } t += r; if (static_cast<size_t>(r) < v[i].iov_len) { break; } }
  return t;
}
off_t lseek(int fd, off_t o, int w) noexcept { if (is_fd(fd)) { return fs_lseek(fd, o, w); } REALF(off_t, lseek, int, off_t, int); return f(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int close(int fd) { if (is_fd(fd)) { return fs_close(fd); } REALF(int, close, int); return f(fd); }
int fsync(int fd) { if (is_fd(fd)) { Core c; op(); writeback_all(); return 0; } REALF(int, fsync, int); return f(fd); }
int fdatasync(int fd) { if (is_fd(fd)) { Core c; op(); writeback_all(); return 0; } REALF(int, fdatasync, int); return f(fd); }
int ftruncate(int fd, off_t n) noexcept { if (is_fd(fd)) { Core c; return fs_truncate(O[fd - FD0].node, static_cast<u64>(n)); } REALF(int, ftruncate, int, off_t); return f(fd, n); }
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
int truncate(char const* p, off_t n) noexcept {
  if (G && is_sim(p)) { Core c; char b[sizeof(Node::path)]; norm(p, b); int const i = find(b); if (i < 0) { errno = ENOENT; return -1; } return fs_truncate(i, static_cast<u64>(n)); }
  REALF(int, truncate, char const*, off_t);
  return f(p, n);
}
int truncate64(char const* p, off64_t n) noexcept { return truncate(p, n); }
int posix_fallocate(int fd, off_t o, off_t n) { if (is_fd(fd)) { Core c; if (static_cast<u64>(o + n) > G->nodes[O[fd - FD0].node].size && fs_truncate(O[fd - FD0].node, static_cast<u64>(o + n)) != 0) { return errno; } return 0; } REALF(int, posix_fallocate, int, off_t, off_t); return f(fd, o, n); }
int posix_fadvise(int fd, off_t o, off_t n, int a) noexcept { if (is_fd(fd)) { return 0; } REALF(int, posix_fadvise, int, off_t, off_t, int); return f(fd, o, n, a); }

int stat(char const* p, struct stat* st) noexcept { if (G && is_sim(p)) { return fs_stat(p, st); } REALF(int, stat, char const*, struct stat*); return f(p, st); }
int stat64(char const* p, struct stat64* st) noexcept { return stat(p, reinterpret_cast<struct stat*>(st)); }
int lstat(char const* p, struct stat* st) noexcept { if (G && is_sim(p)) { return fs_stat(p, st); } REALF(int, lstat, char const*, struct stat*); return f(p, st); }
int lstat64(char const* p, struct stat64* st) noexcept { return lstat(p, reinterpret_cast<struct stat*>(st)); }
int fstat(int fd, struct stat* st) noexcept { if (is_fd(fd)) { return fs_fstat(fd, st); } REALF(int, fstat, int, struct stat*); return f(fd, st); }
int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int fstatat(int d, char const* p, struct stat* st, int fl) noexcept {
  char b[512];
  if (is_fd(d) && p[0] == 0) { return fs_fstat(d, st); }
  p = at_path(d, p, b);
  if (G && is_sim(p)) { return fs_stat(p, st); }
  REALF(int, fstatat, int, char const*, struct stat*, int);
  return f(d, p, st, fl);
}
int fstatat64(int d, char const* p, struct stat64* st, int fl) noexcept { return fstatat(d, p, reinterpret_cast<struct stat*>(st), fl); }
int access(char const* p, int m) noexcept { if (G && is_sim(p)) { struct stat st; return fs_stat(p, &st); } REALF(int, access, char const*, int); return f(p, m); }
int faccessat(int d, char const* p, int m, int fl) noexcept { char b[512]; p = at_path(d, p, b); if (G && is_sim(p)) { struct stat st; return fs_stat(p, &st); } REALF(int, faccessat, int, char const*, int, int); return f(d, p, m, fl); }
int statx(int d, char const* p, int fl, unsigned mask, struct statx* sx) noexcept {
  struct stat st;
  char b[512];
  char const* q = at_path(d, p, b);
  if ((is_fd(d) && p[0] == 0) || (G && is_sim(q))) {
    int const r = is_fd(d) && p[0] == 0 ? fs_fstat(d, &st) : fs_stat(q, &st);
    if (r != 0) { return r; }
    memset(sx, 0, sizeof(*sx));
    sx->stx_mask = STATX_BASIC_STATS; sx->stx_mode = static_cast<unsigned short>(st.st_mode); sx->stx_size = static_cast<u64>(st.st_size); sx->stx_nlink = 1; sx->stx_ino = st.st_ino; sx->stx_blksize = 4096;
    sx->stx_mtime.tv_sec = st.st_mtim.tv_sec; sx->stx_mtime.tv_nsec = static_cast<u32>(st.st_mtim.tv_nsec);
    return 0;
  }
  REALF(int, statx, int, char const*, int, unsigned, struct statx*);
  return f(d, p, fl, mask, sx);
}
int statfs(char const* p, struct statfs* s) noexcept { if (G && is_sim(p)) { memset(s, 0, sizeof(*s)); s->f_bsize = 4096; s->f_blocks = s->f_bfree = s->f_bavail = 1 << 20; return 0; } REALF(int, statfs, char const*, struct statfs*); return f(p, s); }
int statvfs(char const* p, struct statvfs* s) noexcept { if (G && is_sim(p)) { memset(s, 0, sizeof(*s)); s->f_bsize = s->f_frsize = 4096; s->f_blocks = s->f_bfree = s->f_bavail = 1 << 20; return 0; } REALF(int, statvfs, char const*, struct statvfs*); return f(p, s); }
int utimensat(int d, char const* p, timespec const ts[2], int fl) noexcept {
  char b[512];
  char const* q = at_path(d, p, b);
  if (G && is_sim(q)) { Core c; char n[sizeof(Node::path)]; norm(q, n); int const i = find(n); if (i < 0) { errno = ENOENT; return -1; } if (ts && ts[1].tv_nsec != UTIME_OMIT) { G->nodes[i].mtime = static_cast<u64>(ts[1].tv_sec) * 1000000000ULL + static_cast<u64>(ts[1].tv_nsec); } else if (!ts) { G->nodes[i].mtime = tick(); } return 0; }
  REALF(int, utimensat, int, char const*, timespec const*, int);
  return f(d, p, ts, fl);
}
int chmod(char const* p, mode_t m) noexcept { if (G && is_sim(p)) { return 0; } REALF(int, chmod, char const*, mode_t); return f(p, m); }
int fchmod(int fd, mode_t m) noexcept { if (is_fd(fd)) { return 0; } REALF(int, fchmod, int, mode_t); return f(fd, m); }
int fchmodat(int d, char const* p, mode_t m, int fl) noexcept { char b[512]; p = at_path(d, p, b); if (G && is_sim(p)) { return 0; } REALF(int, fchmodat, int, char const*, mode_t, int); return f(d, p, m, fl); }
ssize_t readlink(char const* p, char* b, size_t n) noexcept { if (G && is_sim(p)) { errno = EINVAL; return -1; } REALF(ssize_t, readlink, char const*, char*, size_t); return f(p, b, n); }
char* realpath(char const* p, char* out) noexcept {
  if (G && is_sim(p)) { Core c; char b[sizeof(Node::path)]; norm(p, b); if (find(b) < 0) { errno = ENOENT; return nullptr; } if (!out) { out = static_cast<char*>(malloc(4096)); } strcpy(out, b); return out; }
  REALF(char*, realpath, char const*, char*);
  return f(p, out);
}
int rename(char const* a, char const* b) noexcept { if (G && (is_sim(a) || is_sim(b))) { if (!is_sim(a) || !is_sim(b)) { errno = EXDEV; return -1; } return fs_rename(a, b); } REALF(int, rename, char const*, char const*); return f(a, b); }
int renameat(int da, char const* a, int db, char const* b) noexcept { char x[512], y[512]; a = at_path(da, a, x); b = at_path(db, b, y); if (G && is_sim(a) && is_sim(b)) { return fs_rename(a, b); } REALF(int, renameat, int, char const*, int, char const*); return f(da, a, db, b); }
int unlink(char const* p) noexcept { if (G && is_sim(p)) { return fs_unlink(p, 0); } REALF(int, unlink, char const*); return f(p); }
int rmdir(char const* p) noexcept { if (G && is_sim(p)) { return fs_unlink(p, 1); } REALF(int, rmdir, char const*); return f(p); }
int remove(char const* p) noexcept { if (G && is_sim(p)) { return fs_unlink(p, 2); } REALF(int, remove, char const*); return f(p); }
int unlinkat(int d, char const* p, int fl) noexcept { char b[512]; p = at_path(d, p, b); if (G && is_sim(p)) { return fs_unlink(p, fl & AT_REMOVEDIR ? 1 : 0); } REALF(int, unlinkat, int, char const*, int); return f(d, p, fl); }
int mkdir(char const* p, mode_t m) noexcept { if (G && is_sim(p)) { return fs_mkdir(p); } REALF(int, mkdir, char const*, mode_t); return f(p, m); }
int mkdirat(int d, char const* p, mode_t m) noexcept { char b[512]; p = at_path(d, p, b); if (G && is_sim(p)) { return fs_mkdir(p); } REALF(int, mkdirat, int, char const*, mode_t); return f(d, p, m); }

static bool is_dirstream(DIR* d) { for (auto* p : D) { if (p && reinterpret_cast<DIR*>(p) == d) { return true; } } return false; }
DIR* fdopendir(int fd) {
  if (!is_fd(fd)) { REALF(DIR*, fdopendir, int); return f(fd); }
  Core c;
  Open& o = O[fd - FD0];
  if (!o.is_dir) { errno = ENOTDIR; return nullptr; }
  for (auto& p : D) { if (!p) { p = static_cast<DirStream*>(calloc(1, sizeof(DirStream))); p->fd = fd; load_dir(o); return reinterpret_cast<DIR*>(p); } }
  errno = EMFILE;
  return nullptr;
}
DIR* opendir(char const* p) {
  if (!(G && is_sim(p))) { REALF(DIR*, opendir, char const*); return f(p); }
  int const fd = fs_open(p, O_RDONLY | O_DIRECTORY);
  if (fd < 0) { return nullptr; }
  return fdopendir(fd);
}
dirent* readdir(DIR* d) {
  if (!is_dirstream(d)) { REALF(dirent*, readdir, DIR*); return f(d); }
  Core c;
  op();
  auto* s = reinterpret_cast<DirStream*>(d);
  Open& o = O[s->fd - FD0];
  if (o.pos > 1 && inject(cfg.readdir_err, F_READDIR_ERR)) { errno = EIO; return nullptr; }
  if (o.pos >= o.nents) { return nullptr; }
  DirEnt const& e = o.ents[o.pos++];
  memset(&s->de, 0, sizeof(s->de));
  s->de.d_ino = e.ino;
  s->de.d_type = e.dir ? DT_DIR : DT_REG;
  snprintf(s->de.d_name, sizeof(s->de.d_name), "%s", e.name);
  return reinterpret_cast<dirent*>(&s->de);
}
dirent64* readdir64(DIR* d) { return reinterpret_cast<dirent64*>(readdir(d)); }
int closedir(DIR* d) {
  if (!is_dirstream(d)) { REALF(int, closedir, DIR*); return f(d); }
  auto* s = reinterpret_cast<DirStream*>(d);
  int const r = fs_close(s->fd);
  for (auto& p : D) { if (p == s) { p = nullptr; } }
  free(s);
  return r;
}
int dirfd(DIR* d) noexcept { if (is_dirstream(d)) { return reinterpret_cast<DirStream*>(d)->fd; } REALF(int, dirfd, DIR*); return f(d); }

FILE* fopen(char const* p, char const* m) { if (G && is_sim(p)) { return fs_fopen(p, m); } REALF(FILE*, fopen64, char const*, char const*); return f(p, m); }
FILE* fopen64(char const* p, char const* m) { return fopen(p, m); }
FILE* fdopen(int fd, char const* m) noexcept { if (is_fd(fd)) { return fs_fdopen(fd, m); } REALF(FILE*, fdopen, int, char const*); return f(fd, m); }
int fileno(FILE* s) noexcept { if (auto* c = cookie_of(s)) { return c->fd; } REALF(int, fileno, FILE*); return f(s); }

void* mmap(void* a, size_t n, int prot, int fl, int fd, off_t off) noexcept {
  if (!is_fd(fd)) {
    // no dlsym here: may run before anything is set up
    long r;
    register long r10 asm("r10") = fl;
    register long r8 asm("r8") = fd;
    register long r9 asm("r9") = off;
    asm volatile("syscall" : "=a"(r) : "a"(9L), "D"(a), "S"(n), "d"(static_cast<long>(prot)), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = static_cast<int>(-r); return MAP_FAILED; }
    return reinterpret_cast<void*>(r);
  }
  Core c;
  op();
  if (n == 0) { errno = EINVAL; return MAP_FAILED; }
  if (inject(cfg.mmap_err, F_MMAP_ERR)) { errno = ENOMEM; return MAP_FAILED; }
  Open& o = O[fd - FD0];
  if (o.is_dir) { errno = ENODEV; return MAP_FAILED; }
  Node& nd = G->nodes[o.node];
  // Accesses beyond the last page of the file would raise SIGBUS: map only that much.
  u64 const avail = static_cast<u64>(off) < nd.size ? nd.size - static_cast<u64>(off) : 0;
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { return p; }
  u64 const k = avail < n ? avail : n;
  if (k) { memcpy(p, G->fs + nd.off + off, k); }
  u64 const pages = (k + 4095) & ~4095ULL, total = (n + 4095) & ~4095ULL;
  if (pages < total) { mprotect(static_cast<char*>(p) + pages, total - pages, PROT_NONE); }
  if (!(prot & PROT_WRITE) && pages) { mprotect(p, pages, PROT_READ); }
  for (auto& m : M) { if (!m.p) { m = {p, n, o.node, static_cast<u64>(off), (fl & MAP_SHARED) && (prot & PROT_WRITE)}; return p; } }
  errno = ENOMEM;
  return MAP_FAILED;
}
void* mmap64(void* a, size_t n, int prot, int fl, int fd, off_t off) noexcept { return mmap(a, n, prot, fl, fd, off); }
int munmap(void* p, size_t n) noexcept {
  if (G) { for (auto& m : M) { if (m.p && m.p == p) { Core c; op(); writeback(m); m.p = nullptr; } } }
  long r;
  asm volatile("syscall" : "=a"(r) : "a"(11L), "D"(p), "S"(n) : "rcx", "r11", "memory");
  if (r < 0) { errno = static_cast<int>(-r); return -1; }
  return 0;
}
int msync(void* p, size_t n, int fl) {
  if (G) { for (auto& m : M) { if (m.p && p >= m.p && p < static_cast<char*>(m.p) + m.len) { Core c; op(); writeback(m); return 0; } } }
  REALF(int, msync, void*, size_t, int);
  return f(p, n, fl);
}
ssize_t sendfile(int out, int in, off_t* off, size_t n) noexcept {
  if (is_fd(out) || is_fd(in)) { errno = EINVAL; return -1; }  // callers fall back to read/write
  REALF(ssize_t, sendfile, int, int, off_t*, size_t);
  return f(out, in, off, n);
}
ssize_t sendfile64(int out, int in, off64_t* off, size_t n) noexcept { return sendfile(out, in, off, n); }
ssize_t copy_file_range(int in, off64_t* oi, int out, off64_t* oo, size_t n, unsigned fl) {
  if (is_fd(out) || is_fd(in)) { errno = EINVAL; return -1; }
  REALF(ssize_t, copy_file_range, int, off64_t*, int, off64_t*, size_t, unsigned);
  return f(in, oi, out, oo, n, fl);
}
int ioctl(int fd, unsigned long rq, ...) noexcept {
  va_list a;
  va_start(a, rq);
  void* p = va_arg(a, void*);
  va_end(a);
  if (is_fd(fd)) { errno = ENOTTY; return -1; }
  REALF(int, ioctl, int, unsigned long, ...);
  return f(fd, rq, p);
}
int fcntl(int fd, int cmd, ...) {
  va_list a;
  va_start(a, cmd);
  void* p = va_arg(a, void*);
  va_end(a);
  if (is_fd(fd)) { if (cmd == F_GETFL) { return O[fd - FD0].flags; } return 0; }
  REALF(int, fcntl, int, int, ...);
  return f(fd, cmd, p);
}
int fcntl64(int fd, int cmd, ...) {
  va_list a;
  va_start(a, cmd);
  void* p = va_arg(a, void*);
  va_end(a);
  return fcntl(fd, cmd, p);
}
int flock(int fd, int o) noexcept { if (is_fd(fd)) { return 0; } REALF(int, flock, int, int); return f(fd, o); }
}
