// Files in the simulated environment. The byte at an offset of a file depends
// on its seed and offset only, so that every byte a reader returns can be told
// from any other, whatever length the file had at the time.
#pragma once

#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include "common.h"

namespace fs_ {

inline unsigned char byte_at(std::uint64_t seed, std::uint64_t i, bool lines) {
  std::uint64_t x = (seed * 0x9E3779B97F4A7C15ULL) ^ (i * 0xD1B54A32D192ED03ULL);
  x ^= x >> 29;
  x *= 0xBF58476D1CE4E5B9ULL;
  x ^= x >> 32;
  if (lines && (x >> 40) % 8 == 0) { return '\n'; }
  return static_cast<unsigned char>(x);
}

inline std::string bytes(std::uint64_t seed, std::size_t n, bool lines = false) {
  std::string s(n, 0);
  for (std::size_t i = 0; i < n; ++i) { s[i] = static_cast<char>(byte_at(seed, i, lines)); }
  return s;
}

inline std::size_t pick_file_size() {
  static std::size_t const edge[] = {0, 1, 2, 511, 512, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384};
  static std::size_t const big[] = {32767, 65535, 65536, 65537, 131072, 1048575, 1048576, 1048577};
  switch (sim::pick(8)) {
    case 0:
    case 1: return edge[sim::pick(13)];
    case 2: return sim::coin(1, 6) ? big[sim::pick(8)] : edge[sim::pick(13)];
    case 3: return 4096 * sim::pick(5) + sim::pick(3);
    default: return sim::pick_size(20000);
  }
}

inline void put_file(std::string const& path, std::string const& content) {
  sim::quiet q;
  int const fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  std::size_t at = 0;
  while (fd >= 0 && at < content.size()) {
    auto const r = ::write(fd, content.data() + at, content.size() - at);
    if (r <= 0) { break; }
    at += static_cast<std::size_t>(r);
  }
  ::close(fd);
  SIM_CHECK(fd >= 0 && at == content.size(), "harness-limit", "cannot write %s", path.c_str());
}

// for code that only reads it: the user may not be allowed to do more
inline void perhaps_read_only(std::string const& path) {
  bool const ro = sim::coin(1, 4);
  sim::quiet q;
  if (ro) { ::chmod(path.c_str(), 0400); }
}

inline std::string get_file(std::string const& path) {
  sim::quiet q;
  std::string s;
  int const fd = ::open(path.c_str(), O_RDONLY);
  SIM_CHECK(fd >= 0, "harness-limit", "cannot read %s", path.c_str());
  char b[65536];
  for (ssize_t r; (r = ::read(fd, b, sizeof b)) > 0;) { s.append(b, static_cast<std::size_t>(r)); }
  ::close(fd);
  return s;
}

// a file with a hole: `at` zero bytes, then the given ones
inline bool put_after_hole(std::string const& path, std::size_t at, std::string const& tail) {
  sim::quiet q;
  int const fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  bool const ok = fd >= 0 && ::ftruncate(fd, static_cast<off_t>(at + tail.size())) == 0 &&
                  ::lseek(fd, static_cast<off_t>(at), SEEK_SET) == static_cast<off_t>(at) &&
                  ::write(fd, tail.data(), tail.size()) == static_cast<ssize_t>(tail.size());
  ::close(fd);
  if (!ok) { ::unlink(path.c_str()); }  // the real file system has no room for it
  return ok;
}

inline std::size_t pick_huge() {
  static std::size_t const base[] = {1ULL << 31, 1ULL << 32, 3ULL << 31, 5ULL << 32, 1ULL << 36};
  return base[sim::pick(5)] - 2 + sim::pick(5);
}

// another process that truncates and extends the file at given operations
struct change {
  std::uint64_t op;
  std::size_t len;
};

struct world {
  std::string path;
  std::uint64_t seed{};
  std::size_t len{};
  std::string all;  // content at its greatest length
  std::vector<change> plan;
  std::size_t next{};
  std::vector<std::size_t> lens;  // every length so far
};
inline world* w;

inline void apply(char const*, int) {
  sim::quiet q;
  while (w->next < w->plan.size() && sim::io_ops() >= w->plan[w->next].op) {
    auto const n = w->plan[w->next++].len;
    if (n == w->len) { continue; }
    sim::note_fault(n < w->len ? sim::F_FILE_SHRINK : sim::F_FILE_GROW);
    sim::event("another process changes the length from %zu to %zu", w->len, n);
    if (n < w->len) {
      SIM_CHECK(::truncate(w->path.c_str(), static_cast<off_t>(n)) == 0, "harness-limit", "truncate");
    } else {
      int const fd = ::open(w->path.c_str(), O_WRONLY | O_APPEND);
      auto const r = ::write(fd, w->all.data() + w->len, n - w->len);
      ::close(fd);
      SIM_CHECK(r == static_cast<ssize_t>(n - w->len), "harness-limit", "append");
    }
    w->len = n;
    w->lens.push_back(n);
  }
}

inline void create(std::string const& name, std::size_t n, bool changes, bool lines = false) {
  sim::quiet q;
  w = new world;
  w->path = std::string{sim::scratch()} + "/" + name;
  w->seed = sim::pick(1U << 20);
  w->len = n;
  auto most = n;
  if (changes) {
    auto at = sim::io_ops();
    for (auto k = 1 + sim::pick(4); k > 0; --k) {
      at += 1 + sim::pick(12);
      std::size_t m = 0;
      switch (sim::pick(5)) {
        case 0: m = 0; break;
        case 1: m = n == 0 ? 0 : sim::pick(n); break;
        case 2: m = n; break;
        case 3: m = n + 1 + sim::pick(16); break;
        case 4: m = n + sim::pick_size(9000); break;
      }
      most = std::max(most, m);
      w->plan.push_back({at, m});
    }
  }
  w->all = bytes(w->seed, most, lines);
  w->lens = {n};
  put_file(w->path, w->all.substr(0, n));
  sim::io_hook(apply);
}

inline std::uint64_t all_faults() {
  std::uint64_t n = 0;
  for (unsigned k = sim::F_THREAD_EAGAIN; k < sim::F_COUNT; ++k) {
    if (k != sim::F_STALL) { n += sim::faults_fired(static_cast<sim::fault_kind>(k)); }
  }
  return n;
}

inline constexpr std::uint64_t READ_FAULTS = sim::bit(sim::F_OPEN) | sim::bit(sim::F_STAT) | sim::bit(sim::F_SEEK) |
                                             sim::bit(sim::F_READ_EIO) | sim::bit(sim::F_READ_SHORT) |
                                             sim::bit(sim::F_READ_EINTR) | sim::bit(sim::F_CLOSE);

}  // namespace fs_
