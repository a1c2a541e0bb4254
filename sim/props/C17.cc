// Whole-file reads.
#include <optional>

#include "utl/parser/file.h"
#include "utl/read_file.h"

#include "files.h"

namespace {

std::uint64_t mask;
std::string size_note;

struct attempt {
  std::size_t from;
  std::uint64_t faults;
};
attempt begin() { return {fs_::w->lens.size() - 1, fs_::all_faults()}; }
bool calm(attempt const& a) { return a.faults == fs_::all_faults(); }

bool was_length(attempt const& a, std::size_t n) {
  for (auto i = a.from; i < fs_::w->lens.size(); ++i) {
    if (fs_::w->lens[i] == n) { return true; }
  }
  return false;
}

void check_bytes(char const* op, attempt const& a, char const* p, std::size_t n) {
  sim::quiet q;
  SIM_CHECK(was_length(a, n), "wrong-length", "%s: %zu bytes; the file had %zu bytes when it began, %zu when it ended", op,
            n, fs_::w->lens[a.from], fs_::w->len);
  for (std::size_t i = 0; i < n; ++i) {
    SIM_CHECK(p[i] == fs_::w->all[i], "wrong-bytes", "%s: byte %zu of %zu is %d, in the file it is %d", op, i, n, p[i],
              fs_::w->all[i]);
  }
}

// runs one operation; returns whether it reported a failure
template <typename Fn>
bool operation(char const* op, bool must_succeed, Fn&& fn) {
  auto const a = begin();
  bool threw = false;
  std::string what;
  sim::watch_allocs((mask & sim::bit(sim::F_ALLOC)) != 0);
  try {
    fn(a);
  } catch (std::exception const& e) {
    sim::watch_allocs(false);
    threw = true;
    what = e.what();
  }
  sim::watch_allocs(false);
  if (threw) {
    sim::probe("failure reported");
    sim::event("%s throws", op);
    SIM_CHECK(!must_succeed || !calm(a), "refused", "%s of a file with %zu bytes fails though nothing failed: %s", op,
              fs_::w->len, what.c_str());
  }
  return threw;
}

void on_file(char const* mode, unsigned ops) {
  std::optional<utl::file> f;
  bool healthy = true;  // no fault has hit this object
  {
    auto const b = fs_::all_faults();
    operation("open", true, [&](attempt const&) { f.emplace(fs_::w->path.c_str(), mode); });
    if (!f) { return; }
    healthy = b == fs_::all_faults();
  }
  std::string content;
  for (unsigned i = 0; i < ops; ++i) {
    auto const b = fs_::all_faults();
    switch (sim::pick(4)) {
      case 3: {  // the caller uses the stream itself
        char buf[64];
        (void)!std::fread(buf, 1, 1 + sim::pick(64), *f);
        break;
      }
      case 0:
        operation("size", healthy, [&](attempt const& a) {
          auto const n = f->size();
          SIM_CHECK(was_length(a, n), "wrong-size", "size() is %zu; the file had %zu bytes", n, fs_::w->lens[a.from]);
        });
        break;
      case 1:
        operation("content", healthy, [&](attempt const& a) {
          auto const c = f->content();
          sim::watch_allocs(false);
          check_bytes("content", a, reinterpret_cast<char const*>(c.data()), c.size());
        });
        break;
      case 2:
        operation("content_str", healthy, [&](attempt const& a) {
          auto const c = f->content_str();
          sim::watch_allocs(false);
          check_bytes("content_str", a, c.data(), c.size());
        });
        break;
    }
    healthy = healthy && b == fs_::all_faults();
  }
}

void by_path() {
  std::optional<std::string> c;
  auto const a = begin();
  sim::watch_allocs((mask & sim::bit(sim::F_ALLOC)) != 0);
  try {
    c = utl::read_file(fs_::w->path.c_str());
  } catch (std::exception const& e) {
    sim::watch_allocs(false);
    sim::violation("throws", "read_file throws: %s", e.what());
  }
  sim::watch_allocs(false);
  if (c.has_value()) {
    check_bytes("read_file", a, c->data(), c->size());
  } else {
    sim::probe("failure reported");
    SIM_CHECK(!calm(a), "refused", "read_file of a file with %zu bytes fails though nothing failed", fs_::w->len);
  }
}

void missing() {
  auto const none = std::string{sim::scratch()} + "/none";
  SIM_CHECK(!utl::read_file(none.c_str()).has_value(), "no-error", "read_file of a missing file returns something");
  bool threw = false;
  try {
    utl::file f{none.c_str(), "r"};
  } catch (std::exception const&) { threw = true; }
  SIM_CHECK(threw, "no-error", "opening a missing file does not throw");
}

void body(bool faults, bool changes) {
  mask = 0;
  if (faults) {
    switch (sim::pick(4)) {
      case 0: mask = fs_::READ_FAULTS; break;
      case 1: mask = fs_::READ_FAULTS | sim::bit(sim::F_ALLOC); break;
      case 2: mask = sim::bit(sim::F_READ_SHORT) | sim::bit(sim::F_READ_EINTR); break;
      case 3: mask = sim::bit(static_cast<sim::fault_kind>(sim::F_OPEN + sim::pick(6))); break;
    }
  }
  capture_stream(std::clog);
  sim::set_step_limit(100000000);
  auto const n = fs_::pick_file_size();
  fs_::create("data", n, changes);
  fs_::perhaps_read_only(fs_::w->path);
  sim::enable_faults(mask);
  for (auto k = 1 + sim::pick(3); k > 0; --k) {
    switch (sim::pick(5)) {
      case 0:
      case 1: on_file("r", static_cast<unsigned>(1 + sim::pick(4))); break;
      case 2: on_file("rb", static_cast<unsigned>(1 + sim::pick(3))); break;
      case 3: by_path(); break;
      case 4: by_path(); missing(); break;
    }
    SIM_CHECK(sim::open_handles() == 0, "leak", "%u file handles are open", sim::open_handles());
  }
  sim::sample("[%zu bytes, %lu faults] ", n, static_cast<unsigned long>(fs_::all_faults()));
}

void healthy() { body(false, false); }
void faulty() { body(true, false); }
void changing() { body(false, true); }
void all() { body(true, true); }

// what was written is read back through the same object
void written() {
  auto const n = fs_::pick_file_size();
  capture_stream(std::clog);
  fs_::create("rw", 0, false);
  fs_::w->all = fs_::bytes(fs_::w->seed, n);
  utl::file f{fs_::w->path.c_str(), "w+"};
  std::size_t at = 0;
  while (at < n) {
    auto const k = 1 + sim::pick_size(n - at - 1);
    f.write(fs_::w->all.data() + at, k);
    at += k;
  }
  fs_::w->lens.push_back(n);
  fs_::w->len = n;
  for (auto k = 1 + sim::pick(3); k > 0; --k) {
    auto const a = begin();
    if (sim::coin(1, 2)) {
      auto const c = f.content();
      check_bytes("content", a, reinterpret_cast<char const*>(c.data()), c.size());
    } else {
      auto const c = f.content_str();
      check_bytes("content_str", a, c.data(), c.size());
    }
    SIM_CHECK(f.size() == n, "wrong-size", "size() is %zu, written were %zu", f.size(), n);
  }
}

// more bytes than 32 bits can count
void huge() {
  sim::set_step_limit(100000000);
  capture_stream(std::clog);
  auto const n = fs_::pick_huge();
  auto const path = std::string{sim::scratch()} + "/huge";
  if (!fs_::put_after_hole(path, n, "")) { return; }
  sim::enable_faults(sim::coin(1, 2) ? fs_::READ_FAULTS : 0);
  try {
    utl::file f{path.c_str(), sim::coin(1, 2) ? "r" : "r+"};
    for (auto k = 1 + sim::pick(3); k > 0; --k) {
      auto const got = f.size();
      SIM_CHECK(got == n, "wrong-size", "size() is %zu; the file has %zu bytes", got, n);
      char c = 1;
      if (std::fread(&c, 1, 1, f) == 1) {
        SIM_CHECK(c == 0, "wrong-bytes", "the first byte is %d", c);
      }
    }
  } catch (std::exception const& e) {
    SIM_CHECK(fs_::all_faults() != 0, "refused", "size() of a file with %zu bytes fails though nothing failed: %s", n, e.what());
  }
  sim::enable_faults(0);
  SIM_CHECK(sim::open_handles() == 0, "leak", "%u file handles are open", sim::open_handles());
  if (sim::coin(1, 50)) {  // there is no memory for it: that is to be reported
    std::size_t got = n;
    char const* op = "content()";
    try {
      switch (sim::pick(3)) {
        case 0: got = utl::file{path.c_str(), "r"}.content().size(); break;
        case 1: op = "content_str()"; got = utl::file{path.c_str(), "r"}.content_str().size(); break;
        case 2:
          op = "read_file";
          if (auto const s = utl::read_file(path.c_str()); s.has_value()) { got = s->size(); }
          break;
      }
    } catch (std::exception const&) {}
    SIM_CHECK(got == n, "wrong-length", "%s returns %zu of %zu bytes", op, got, n);
    SIM_CHECK(sim::open_handles() == 0, "leak", "%u file handles are open", sim::open_handles());
  }
  unlink(path.c_str());
}

}  // namespace

SIM_MAIN({"huge", huge}, {"healthy", healthy}, {"faulty", faulty}, {"faulty2", faulty}, {"changing", changing}, {"all", all}, {"written", written})
