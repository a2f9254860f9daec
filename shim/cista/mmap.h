#pragma once
// Stand-in for cista::mmap; issues the same system calls as upstream
// (open/fstat/mmap, ftruncate/msync/munmap on write) so that the simulated disk
// sits below it. Errors throw like upstream (cista::verify -> exception).
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cinttypes>
#include <cstring>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
namespace cista {
struct mmap {
  enum class protection { READ, WRITE, MODIFY };
  mmap() = default;
  explicit mmap(char const* path, protection const p = protection::WRITE) : p_{p} {
    auto const flags = p == protection::READ ? O_RDONLY : p == protection::MODIFY ? O_RDWR : O_RDWR | O_CREAT | O_TRUNC;
    fd_ = ::open(path, flags, 0666);
    if (fd_ == -1) { throw std::runtime_error{std::string{"unable to open file "} + path}; }
    struct stat st {};
    if (::fstat(fd_, &st) == -1) { ::close(fd_); throw std::runtime_error{"fstat error"}; }
    size_ = used_ = static_cast<std::size_t>(st.st_size);
    try { map(); } catch (...) { ::close(fd_); throw; }
  }
  mmap(mmap const&) = delete;
  mmap& operator=(mmap const&) = delete;
  mmap(mmap&& o) noexcept { swap(o); }
  mmap& operator=(mmap&& o) noexcept { if (this != &o) { mmap t{std::move(o)}; swap(t); } return *this; }
  ~mmap() {
    if (addr_ != nullptr) { if (p_ != protection::READ) { ::msync(addr_, size_, MS_SYNC); } ::munmap(addr_, size_); }
    if (fd_ != -1) { if (p_ != protection::READ && size_ != used_) { (void)!::ftruncate(fd_, static_cast<off_t>(used_)); } ::close(fd_); }
  }
  void swap(mmap& o) noexcept {
    std::swap(fd_, o.fd_); std::swap(addr_, o.addr_); std::swap(size_, o.size_); std::swap(used_, o.used_); std::swap(p_, o.p_);
  }
  void sync() { if (p_ != protection::READ && addr_ != nullptr && ::msync(addr_, size_, MS_SYNC) != 0) { throw std::runtime_error{"sync error"}; } }
  void resize(std::size_t n) {
    if (addr_ != nullptr) { ::munmap(addr_, size_); addr_ = nullptr; }
    if (::ftruncate(fd_, static_cast<off_t>(n)) != 0) { throw std::runtime_error{"resize error"}; }
    size_ = used_ = n;
    map();
  }
  std::size_t size() const { return used_; }
  std::string_view view() const { return {static_cast<char const*>(addr_), used_}; }
  unsigned char* data() { return static_cast<unsigned char*>(addr_); }
  unsigned char const* data() const { return static_cast<unsigned char const*>(addr_); }
  unsigned char* begin() { return data(); }
  unsigned char* end() { return data() + used_; }
  unsigned char const* begin() const { return data(); }
  unsigned char const* end() const { return data() + used_; }
  unsigned char& operator[](std::size_t i) { return data()[i]; }
private:
  void map() {
    if (size_ == 0) { return; }
    auto* a = ::mmap(nullptr, size_, p_ == protection::READ ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED, fd_, 0);
    if (a == MAP_FAILED) { throw std::runtime_error{"map error"}; }
    addr_ = a;
  }
  int fd_{-1};
  void* addr_{nullptr};
  std::size_t size_{0}, used_{0};
  protection p_{protection::READ};
};
}  // namespace cista
