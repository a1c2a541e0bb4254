// Ownership of file handles, mappings and memory blocks.
#include <optional>

#include "utl/parser/buffer.h"
#include "utl/parser/file.h"
#include "utl/parser/mmap_reader.h"

#include "files.h"

namespace {

constexpr unsigned N = 3;
std::uint64_t mask, base_blocks;
std::string content[2];
std::string path[2];

struct watch {
  watch() { sim::watch_allocs((mask & sim::bit(sim::F_ALLOC)) != 0); }
  ~watch() { sim::watch_allocs(false); }
};

// A family of objects: how one is made and used.
struct files {
  using type = utl::file;
  static constexpr char const* name = "file";
  template <typename Slot>
  static int make(Slot& s) {
    auto const k = static_cast<int>(sim::pick(2));
    watch const w;
    s.emplace(path[k].c_str(), "r");
    return k;
  }
  static void use(type& f, int k) {
    std::optional<utl::buffer> b;
    try {
      watch const w;
      b.emplace(f.content());
    } catch (std::exception const& e) {
      SIM_CHECK(fs_::all_faults() != 0, "unusable", "an open file cannot be read though nothing failed: %s", e.what());
      return;
    }
    SIM_CHECK(b->size() == content[k].size() && memcmp(b->data(), content[k].data(), b->size()) == 0, "wrong-file",
              "the content is not that of the file that was opened");
  }
};
struct readers {
  using type = utl::mmap_reader;
  static constexpr char const* name = "mapped reader";
  template <typename Slot>
  static int make(Slot& s) {
    auto const k = static_cast<int>(sim::pick(2));
    watch const w;
    s.emplace(path[k].c_str());
    return k;
  }
  static void use(type& r, int k) {
    auto const n = sim::pick_size(100);
    auto const at = static_cast<std::size_t>(r.it_ - r.m_.ptr());
    auto const c = r.read(n);
    auto const want = std::min(n, content[k].size() - at);
    SIM_CHECK(c.length() == want && memcmp(c.data(), content[k].data() + at, want) == 0, "wrong-file",
              "bytes at %zu are not those of the file that was mapped", at);
  }
};
struct buffers {
  using type = utl::buffer;
  static constexpr char const* name = "buffer";
  template <typename Slot>
  static int make(Slot& s) {
    auto const k = static_cast<int>(sim::pick(2));
    watch const w;
    s.emplace(content[k].data(), content[k].size());
    return k;
  }
  static void use(type& b, int k) {
    auto const n = content[k].size();
    SIM_CHECK(b.size() == n && memcmp(b.data(), content[k].data(), n) == 0, "wrong-content", "the buffer's bytes changed");
    if (sim::coin(1, 3)) {
      try {
        watch const w;
        b.resize(n + sim::pick(100));
      } catch (std::bad_alloc const&) {}
      b.resize(n);
    }
  }
};

template <typename F>
void history(unsigned steps, bool self_moves) {
  using T = typename F::type;
  std::array<std::optional<T>, N> slot;
  std::array<int, N> model;  // -2 no object, -1 owns nothing, else which content
  model.fill(-2);
  auto const h0 = sim::open_handles();
  auto const m0 = sim::open_mappings();
  for (unsigned i = 0; i < steps; ++i) {
    auto const a = sim::pick(N), b = sim::pick(N);
    switch (sim::pick(7)) {
      case 0:
      case 1:
        if (model[a] == -2) {
          auto const before = fs_::all_faults();
          try {
            model[a] = F::make(slot[a]);
            sim::event("%s %u made", F::name, static_cast<unsigned>(a));
          } catch (std::exception const& e) {
            sim::probe("construction failed");
            sim::event("%s %u: construction throws", F::name, static_cast<unsigned>(a));
            SIM_CHECK(fs_::all_faults() != before, "refused", "cannot make a %s though nothing failed: %s", F::name, e.what());
          }
        }
        break;
      case 2:
        if (model[a] != -2 && model[b] == -2) {
          sim::event("%s %u = move of %u", F::name, static_cast<unsigned>(b), static_cast<unsigned>(a));
          slot[b].emplace(std::move(*slot[a]));
          model[b] = model[a];
          model[a] = -1;
          sim::probe("moved");
        }
        break;
      case 3:
      case 4:
        if (model[a] != -2 && model[b] != -2 && (a != b || self_moves)) {
          sim::event("%s %u move-assigned from %u", F::name, static_cast<unsigned>(b), static_cast<unsigned>(a));
          if (model[b] >= 0) { sim::probe(a == b ? "assigned to itself" : "assigned over an owner"); }
          *slot[b] = std::move(*slot[a]);
          if (a != b) {
            model[b] = model[a];
            model[a] = -1;
          } else if (model[a] >= 0 && !std::is_same_v<F, buffers>) {
            // valid but unspecified: only destroyed or assigned from now on
            model[a] = -3;
          }
        }
        break;
      case 5:
        if (model[a] >= 0) { F::use(*slot[a], model[a]); }
        break;
      case 6:
        if (model[a] != -2) {
          sim::event("%s %u destroyed", F::name, static_cast<unsigned>(a));
          slot[a].reset();
          model[a] = -2;
        }
        break;
    }
    // an object owns at most one handle and one mapping
    auto const owners = static_cast<unsigned>(std::count_if(begin(model), end(model), [](int m) { return m != -2; }));
    auto const handles = sim::open_handles() - h0, maps = sim::open_mappings() - m0;
    SIM_CHECK(handles <= owners, "leak", "%u file handles are open, %u objects exist", handles, owners);
    SIM_CHECK(maps <= owners, "leak", "%u mappings exist, %u objects exist", maps, owners);
  }
  for (auto& s : slot) { s.reset(); }
  SIM_CHECK(sim::open_handles() == h0, "leak", "%u file handles are left open", sim::open_handles() - h0);
  SIM_CHECK(sim::open_mappings() == m0, "leak", "%u mappings are left", sim::open_mappings() - m0);
  SIM_CHECK(sim::live_blocks() == base_blocks, "leak", "%ld memory blocks are left",
            static_cast<long>(sim::live_blocks() - base_blocks));
}

void bad_paths() {
  auto const none = std::string{sim::scratch()} + "/none", dir = std::string{sim::scratch()};
  for (auto const* p : {none.c_str(), dir.c_str()}) {
    bool threw = false;
    try {
      utl::mmap_reader const r{p};
    } catch (std::exception const&) { threw = true; }
    SIM_CHECK(threw, "no-error", "mapping %s does not throw", p == none.c_str() ? "a missing file" : "a directory");
  }
  bool threw = false;
  try {
    utl::file const f{none.c_str(), "r"};
  } catch (std::exception const&) { threw = true; }
  SIM_CHECK(threw, "no-error", "opening a missing file does not throw");
  SIM_CHECK(sim::open_handles() == 0, "leak", "%u file handles are left open", sim::open_handles());
}

void warm_up() {  // whatever the platform allocates once
  try {
    utl::verify(false, "warm up {}", 1);
  } catch (std::exception const&) {}
}

void prepare(std::uint64_t m) {
  mask = m;
  {
    sim::quiet q;
    for (int k = 0; k < 2; ++k) {
      static std::size_t const n[] = {1, 20, 300, 4095, 4096, 4097, 9000, 12288};
      content[k] = fs_::bytes(static_cast<std::uint64_t>(k) + 7, n[sim::pick(8)], true);
      path[k] = std::string{sim::scratch()} + "/a-file-with-a-name-that-is-allocated-" + std::to_string(k);
      fs_::put_file(path[k], content[k]);
  fs_::perhaps_read_only(path[k]);
    }
  }
  if (sim::coin(1, 4)) {
    sim::close_stdin();  // as in a daemon: the next handle is number 0
    sim::probe("standard input closed");
  }
  capture_stream(std::clog);
  warm_up();
  base_blocks = sim::live_blocks();
  sim::enable_faults(m);
}

std::uint64_t pick_mask() {
  constexpr auto OPEN = sim::bit(sim::F_OPEN), STAT = sim::bit(sim::F_STAT), MAP = sim::bit(sim::F_MMAP),
                 ALLOC = sim::bit(sim::F_ALLOC), CLOSE = sim::bit(sim::F_CLOSE);
  switch (sim::pick(6)) {
    case 0: return 0;
    case 1: return OPEN | STAT | MAP | ALLOC | CLOSE;
    case 2: return MAP;
    case 3: return STAT | OPEN;
    case 4: return ALLOC;
    default: return fs_::READ_FAULTS | MAP | ALLOC;
  }
}

void one(unsigned kind) {
  prepare(pick_mask());
  bool const self = sim::coin(1, 2);
  auto const steps = static_cast<unsigned>(3 + sim::pick(20));
  switch (kind) {
    case 0: history<files>(steps, self); break;
    case 1: history<readers>(steps, self); break;
    case 2: history<buffers>(steps, self); break;
  }
  sim::sample("[%u steps, %lu faults] ", steps, static_cast<unsigned long>(fs_::all_faults()));
}
void f() { one(0); }
void r() { one(1); }
void b() { one(2); }
void bad() {
  prepare(pick_mask());
  bad_paths();
  SIM_CHECK(sim::live_blocks() == base_blocks, "leak", "memory blocks are left");
}

}  // namespace

SIM_MAIN({"files", f}, {"readers", r}, {"buffers", b}, {"bad_paths", bad})
