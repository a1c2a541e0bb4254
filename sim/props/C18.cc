// Writes: what a write call acknowledges is in the file.
#include <optional>

#include <sys/mman.h>

#include "utl/parser/file.h"

#include "files.h"

namespace {

std::size_t pick_write() {
  static std::size_t const edge[] = {0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 200000};
  return sim::coin(1, 3) ? edge[sim::pick(sim::coin(1, 4) ? 10 : 8)] : sim::pick_size(6000);
}

void expect_prefix(char const* when, std::string const& path, std::string const& all, std::size_t least) {
  auto const got = fs_::get_file(path);
  sim::quiet q;
  SIM_CHECK(got.size() >= least, "lost", "%s: the file has %zu bytes, %zu were acknowledged", when, got.size(), least);
  SIM_CHECK(got.size() <= all.size(), "altered", "%s: the file has %zu bytes, only %zu were written", when, got.size(),
            all.size());
  for (std::size_t i = 0; i < got.size(); ++i) {
    SIM_CHECK(got[i] == all[i], "altered", "%s: byte %zu of the file is %d, written was %d", when, i, got[i], all[i]);
  }
}

void history(std::uint64_t mask) {
  capture_stream(std::clog);
  auto const path = std::string{sim::scratch()} + "/out";
  auto const seed = sim::pick(1U << 20);
  std::string all;
  char const* mode = "w+";
  switch (sim::pick(5)) {
    case 0: mode = "w"; break;
    case 1:  // appends
      mode = "a";
      all = fs_::bytes(seed, sim::pick_size(5000));
      fs_::put_file(path, all);
      break;
    case 2:  // an older file is replaced
      fs_::put_file(path, fs_::bytes(seed + 1, sim::pick_size(5000)));
      break;
    case 3: mode = "wb"; [[fallthrough]];
    default: unlink(path.c_str()); break;
  }
  if (mask & sim::bit(sim::F_ENOSPC) && sim::coin(1, 2)) {
    sim::set_disk_space(sim::pick_size(40000));
    sim::note_fault(sim::F_ENOSPC);
  }
  sim::enable_faults(mask);
  std::optional<utl::file> f;
  try {
    f.emplace(path.c_str(), mode);
  } catch (std::exception const&) {
    SIM_CHECK(fs_::all_faults() != 0, "refused", "opening fails though nothing failed");
    SIM_CHECK(sim::open_handles() == 0, "leak", "%u file handles are open", sim::open_handles());
    return;
  }
  auto acked = all.size();
  bool failed = false;
  unsigned n = 0;
  for (auto k = 1 + sim::pick(8); k > 0 && !failed; --k) {
    auto const size = pick_write();
    {
      sim::quiet q;
      auto const off = all.size();
      all.resize(off + size);
      for (auto i = off; i < all.size(); ++i) { all[i] = static_cast<char>(fs_::byte_at(seed, i, false)); }
    }
    sim::event("write %zu bytes", size);
    try {
      f->write(all.data() + acked, size);
      acked += size;
      ++n;
    } catch (std::exception const& e) {
      failed = true;
      sim::event("write throws");
      sim::probe("failure reported");
      SIM_CHECK(fs_::all_faults() != 0, "refused", "a write of %zu bytes fails though nothing failed: %s",
                size, e.what());
    }
    expect_prefix(failed ? "after a failed write" : "after an acknowledged write", path, all, acked);
  }
  if (!failed && mask == 0 && strchr(mode, '+') && sim::coin(1, 2)) {
    SIM_CHECK(f->size() == all.size(), "lost", "size() is %zu after %zu bytes were written", f->size(), all.size());
  }
  f.reset();
  expect_prefix("after the file object was destroyed", path, all, acked);
  SIM_CHECK(sim::open_handles() == 0, "leak", "%u file handles are open", sim::open_handles());
  sim::sample("[%u writes, %zu bytes%s] ", n, acked, failed ? ", then failure" : "");
}

constexpr auto WRITE_FAULTS = sim::bit(sim::F_OPEN) | sim::bit(sim::F_WRITE_EIO) | sim::bit(sim::F_WRITE_SHORT) |
                              sim::bit(sim::F_WRITE_EINTR) | sim::bit(sim::F_ENOSPC) | sim::bit(sim::F_CLOSE) |
                              sim::bit(sim::F_SEEK) | sim::bit(sim::F_STAT);

void healthy() { history(0); }
void faulty() { history(WRITE_FAULTS); }
void full_disk() { history(sim::bit(sim::F_ENOSPC)); }
void partial() { history(sim::bit(sim::F_WRITE_SHORT)); }

// more bytes than 32 bits can count, almost all of them zeros
void huge() {
  if (!sim::coin(1, 12)) { return history(0); }
  capture_stream(std::clog);
  auto const path = std::string{sim::scratch()} + "/huge";
  auto const seed = sim::pick(1U << 20);
  static std::size_t const base[] = {1ULL << 31, 1ULL << 32, 3ULL << 31};
  auto const n = base[sim::pick(3)] + 8192 + sim::pick(10000);
  auto const before = sim::pick(3) * 1000, after = sim::pick(3) * 1000;
  void* mem = nullptr;
  {
    sim::quiet q;
    mem = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  if (mem == MAP_FAILED) { return; }
  auto* const src = static_cast<char*>(mem);
  auto const ends = fs_::bytes(seed, 128), rest = fs_::bytes(seed + 1, 5000);
  {
    sim::quiet q;
    memcpy(src, ends.data(), 64);
    memcpy(src + n - 64, ends.data() + 64, 64);
  }
  auto const space = sim::coin(1, 3) ? sim::pick(n) : ~0ULL;
  if (space != ~0ULL) {
    sim::set_disk_space(space);
    sim::note_fault(sim::F_ENOSPC);
  }
  sim::sparse_writes(true);
  sim::enable_faults(sim::coin(1, 3) ? sim::bit(sim::F_WRITE_SHORT) : 0);
  bool failed = false;
  try {
    utl::file f{path.c_str(), "w+"};
    f.write(rest.data(), before);
    f.write(src, n);
    f.write(rest.data() + before, after);
  } catch (std::exception const& e) {
    failed = true;
    SIM_CHECK(fs_::all_faults() != 0, "refused", "a write of %zu bytes fails though nothing failed: %s", n, e.what());
  }
  sim::enable_faults(0);
  SIM_CHECK(sim::open_handles() == 0, "leak", "%u file handles are open", sim::open_handles());
  {
    sim::quiet q;
    int const fd = ::open(path.c_str(), O_RDONLY);
    auto const size = static_cast<std::size_t>(::lseek(fd, 0, SEEK_END));
    auto const same = [&](std::size_t at, char const* want, std::size_t k) {
      char got[64];
      while (k > 0) {
        auto const m = std::min(k, sizeof got);
        if (::pread(fd, got, m, static_cast<off_t>(at)) != static_cast<ssize_t>(m) || memcmp(got, want, m) != 0) { return false; }
        at += m;
        want += m;
        k -= m;
      }
      return true;
    };
    if (!failed) {
      SIM_CHECK(space >= before + n + after, "no-error", "%zu bytes are acknowledged, %zu fit", before + n + after, static_cast<std::size_t>(space));
      SIM_CHECK(size == before + n + after, "lost", "the file has %zu bytes, %zu were acknowledged", size, before + n + after);
      SIM_CHECK(same(0, rest.data(), before) && same(before, ends.data(), 64) && same(before + n - 64, ends.data() + 64, 64) &&
                    same(before + n, rest.data() + before, after),
                "altered", "the file does not have the bytes that were written, a write of %zu bytes among them", n);
    } else {
      SIM_CHECK(size <= before + n + after, "altered", "the file has %zu bytes, only %zu were written", size, before + n + after);
    }
    ::close(fd);
    ::unlink(path.c_str());
    munmap(mem, n);
  }
  sim::sample("[%zu bytes%s] ", before + n + after, failed ? ", failure" : "");
}

}  // namespace

SIM_MAIN({"huge", huge}, {"healthy", healthy}, {"faulty", faulty}, {"faulty2", faulty}, {"full_disk", full_disk}, {"partial", partial})
