// Line-wise and byte-wise readers.
#include <cmath>
#include <iostream>
#include <ext/stdio_sync_filebuf.h>
#include <optional>

#include "utl/for_each_line_in_file.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/line_range.h"
#include "utl/parser/mmap_reader.h"
#include "utl/pipes.h"

#include "files.h"

namespace {

std::string make_text() {
  sim::quiet q;
  std::string s;
  auto const style = sim::pick(6);
  auto const n = style == 0 || style == 5 ? fs_::pick_file_size() : sim::pick_size(3000);
  auto x = sim::pick(1 << 20) * 2654435761ULL + 12345;
  auto const next = [&] { x = x * 6364136223846793005ULL + 1442695040888963407ULL; return x >> 33; };
  while (s.size() < n) {
    switch (style) {
      case 0:  // long random lines
        s += static_cast<char>(next() % 100 == 0 ? '\n' : next());
        break;
      case 1:  // mostly line ends
        s += next() % 3 == 0 ? 'a' : '\n';
        break;
      case 2: {  // numbered
        s += "line " + std::to_string(s.size()) + (next() % 5 == 0 ? "\r\n" : next() % 7 == 0 ? "\n\n" : "\n");
        break;
      }
      case 3: s += static_cast<char>(next()); break;
      case 4: {  // line ends around buffer boundaries
        auto const room = 8191 - s.size() % 8191;
        s += std::string(room > 2 ? room - next() % 3 : room, 'b') + "\n";
        if (next() % 4 == 0) { s += "\n"; }
        if (s.size() > 40000) { return s; }
        break;
      }
      case 5: {  // very long lines
        static constexpr std::size_t k[] = {4096, 8191, 16383, 32768, 65535, 65536, 131072, 262144};
        s += std::string(k[sim::pick(8)] + next() % 5 - 1, 'l') + (next() % 3 == 0 ? "\r\n" : "\n");
        if (s.size() > 300000) { return s; }
        break;
      }
    }
  }
  switch (sim::pick(4)) {
    case 0:
      if (!s.empty() && s.back() != '\n') { s += '\n'; }
      break;
    case 1:
      while (!s.empty() && s.back() == '\n') { s.pop_back(); }
      break;
    case 2: s += "\n\n"; break;
    case 3: break;
  }
  return s;
}

std::vector<std::string_view> lines_of(std::string const& s) {
  std::vector<std::string_view> v;
  for (std::size_t at = 0; at < s.size();) {
    auto const nl = s.find('\n', at);
    if (nl == std::string::npos) {
      v.push_back(std::string_view{s}.substr(at));
      break;
    }
    v.push_back(std::string_view{s}.substr(at, nl - at));
    at = nl + 1;
  }
  return v;
}

void check_line(std::vector<std::string_view> const& want, std::size_t i, char const* p, std::size_t n) {
  sim::quiet q;
  SIM_CHECK(i < want.size(), "extra-line", "%zu lines were delivered, the data has %zu", i + 1, want.size());
  SIM_CHECK(want[i].size() == n && memcmp(want[i].data(), p, n) == 0, "wrong-line",
            "line %zu of %zu has %zu bytes and differs from the data's, which has %zu bytes", i, want.size(), n,
            want[i].size());
}

// ---- files and standard input -----------------------------------------------
struct my_exception {
  int id;
};

std::uint64_t mask;
constexpr auto LINE_FAULTS = fs_::READ_FAULTS;

std::string scratch_file(char const* name) { return std::string{sim::scratch()} + "/" + name; }

enum { SUCCESS, OWN, FAILED };

int iterate(std::string const& name, std::vector<std::string_view> const& want, std::size_t throw_at,
            std::string const* nested, std::vector<std::string_view> const* nested_want) {
  std::size_t i = 0;
  int result = SUCCESS;
  bool const watch = (mask & sim::bit(sim::F_ALLOC)) != 0;
  bool const steal = sim::coin(1, 4);
  auto const nest_at = nested ? sim::pick(want.size() + 1) : 0;
  sim::watch_allocs(watch);
  try {
    utl::for_each_line_in_file(name, [&](auto&& line) {
      sim::watch_allocs(false);
      check_line(want, i, line.data(), line.size());
      if (nested && i == nest_at) {
        iterate(*nested, *nested_want, ~std::size_t{0}, nullptr, nullptr);
        check_line(want, i, line.data(), line.size());  // still the same
      }
      if (i == throw_at) {
        sim::note_fault(sim::F_JOB_THROW);
        throw my_exception{42};
      }
      if (steal) {
        if constexpr (!std::is_const_v<std::remove_reference_t<decltype(line)>>) {
          sim::quiet q;
          std::string taken{std::move(line)};
        }
      }
      ++i;
      sim::watch_allocs(watch);
    });
  } catch (my_exception const& e) {
    sim::watch_allocs(false);
    SIM_CHECK(e.id == 42 && i == throw_at, "wrong-exception", "not the exception that the handler threw");
    result = OWN;
  } catch (std::exception const&) {
    sim::watch_allocs(false);
    result = FAILED;
  }
  sim::watch_allocs(false);
  SIM_CHECK(result == OWN || throw_at >= want.size() || i <= throw_at, "swallowed", "the handler's exception was not passed on");
  if (result == SUCCESS) {
    SIM_CHECK(i == want.size(), "lines-lost", "%zu of %zu lines were delivered and no exception was thrown", i, want.size());
  } else if (result == FAILED) {
    sim::probe("failure reported");
    sim::event("iteration throws after %zu lines", i);
  }
  return result;
}

void pick_mask(bool faults) {
  mask = 0;
  if (faults) {
    switch (sim::pick(4)) {
      case 0: mask = LINE_FAULTS; break;
      case 1: mask = LINE_FAULTS | sim::bit(sim::F_ALLOC); break;
      case 2: mask = sim::bit(sim::F_READ_EIO) | sim::bit(sim::F_READ_SHORT); break;
      case 3: mask = sim::bit(sim::F_READ_SHORT) | sim::bit(sim::F_READ_EINTR); break;
    }
  }
}

void file_lines(bool faults) {
  capture_stream(std::clog);
  pick_mask(faults);
  auto const text = make_text();
  auto const other = make_text();
  auto const want = lines_of(text), other_want = lines_of(other);
  auto const p = scratch_file("lines"), p2 = scratch_file("other-lines");
  fs_::put_file(p, text);
  fs_::perhaps_read_only(p);
  fs_::put_file(p2, other);
  fs_::perhaps_read_only(p2);
  sim::enable_faults(mask);
  for (auto k = 1 + sim::pick(2); k > 0; --k) {
    auto const before = fs_::all_faults();
    auto const at = sim::coin(1, 4) ? sim::pick(want.size() + 1) : ~std::size_t{0};
    bool const nest = sim::coin(1, 4);
    auto const r = iterate(p, want, at, nest ? &p2 : nullptr, nest ? &other_want : nullptr);
    SIM_CHECK(r != FAILED || fs_::all_faults() != before, "refused", "iteration fails though nothing failed");
    SIM_CHECK(sim::open_handles() == 0, "leak", "%u file handles are open", sim::open_handles());
  }
  sim::sample("[%zu bytes, %zu lines, %lu faults] ", text.size(), want.size(), static_cast<unsigned long>(fs_::all_faults()));
}

void missing() {
  capture_stream(std::clog);
  bool threw = false;
  try {
    utl::for_each_line_in_file(scratch_file("none"), [](auto&&) {});
  } catch (std::exception const&) { threw = true; }
  SIM_CHECK(threw, "no-error", "iterating over a missing file reports nothing");
}

void standard_input(bool faults) {
  capture_stream(std::clog);
  pick_mask(faults);
  auto const text = make_text();
  auto const want = lines_of(text);
  auto const p = scratch_file("input");
  fs_::put_file(p, text);
  fs_::perhaps_read_only(p);
  sim::enable_faults(mask & ~sim::bit(sim::F_OPEN));
  auto const before = fs_::all_faults();
  auto const at = sim::coin(1, 6) ? sim::pick(want.size() + 1) : ~std::size_t{0};
  int r = SUCCESS;
  auto* const old = std::cin.rdbuf();
  if (sim::coin(1, 2)) {  // as after sync_with_stdio(false)
    std::filebuf fb;
    {
      sim::enable_faults(0);
      fb.open(p, std::ios::in);
      sim::enable_faults(mask & ~sim::bit(sim::F_OPEN));
    }
    std::cin.rdbuf(&fb);
    std::cin.clear();
    r = iterate("-", want, at, nullptr, nullptr);
    std::cin.rdbuf(old);
  } else {  // as by default: on top of C's stdin
    sim::enable_faults(0);
    auto* const f = std::fopen(p.c_str(), "r");
    sim::enable_faults(mask & ~sim::bit(sim::F_OPEN));
    auto* const c_stdin = stdin;
    stdin = f;
    {
      __gnu_cxx::stdio_sync_filebuf<char> sb{f};
      std::cin.rdbuf(&sb);
      std::cin.clear();
      r = iterate("-", want, at, nullptr, nullptr);
      std::cin.rdbuf(old);
    }
    stdin = c_stdin;
    std::fclose(f);
  }
  SIM_CHECK(r != FAILED || fs_::all_faults() != before, "refused", "iteration fails though nothing failed");
}

// ---- readers ----------------------------------------------------------------
template <typename Reader, typename ReadBytes, typename Progress>
void consume(Reader& r, std::string const& text, ReadBytes&& read, Progress&& progress, bool keep_moving) {
  std::size_t at = 0;
  auto const mixed = sim::coin(1, 3);
  std::size_t const limit = sim::coin(1, 4) ? sim::pick(50) : ~std::size_t{0};
  for (std::size_t n = 0; n < limit; ++n) {
    if (keep_moving && sim::pick(8) == 7) {
      auto other = std::move(r);
      r = std::move(other);
    }
    if (mixed && sim::coin(1, 2)) {
      at = read(at);
    } else {
      auto const l = r.read_line();
      if (at == text.size()) {
        SIM_CHECK(l.data() == nullptr && l.length() == 0, "extra-line", "a line is delivered after the end");
        break;
      }
      auto nl = text.find('\n', at);
      auto const end = nl == std::string::npos ? text.size() : nl;
      SIM_CHECK(l.data() != nullptr && l.length() == end - at, "wrong-line", "the line at %zu has %zu bytes, delivered were %zu", at,
                end - at, l.length());
      SIM_CHECK(memcmp(l.data(), text.data() + at, end - at) == 0, "wrong-line", "the line at %zu differs", at);
      at = nl == std::string::npos ? end : end + 1;
      progress(at, true);
    }
    progress(at, false);
  }
}

// the same through a range of lines
template <typename Reader>
void consume_range(Reader&& r, std::string const& text) {
  auto const want = lines_of(text);
  auto lines = utl::line_range{std::forward<Reader>(r)};
  std::size_t i = 0;
  if (sim::coin(1, 2)) {
    for (auto it = lines.begin(); lines.valid(it); lines.next(it)) {
      utl::cstr const l = lines.read(it);
      check_line(want, i, l.data(), l.length());
      ++i;
    }
  } else {
    auto const each = [&](utl::cstr const l) {
      check_line(want, i, l.data(), l.length());
      ++i;
    };
    std::move(lines) | utl::for_each(each);
  }
  SIM_CHECK(i == want.size(), "lines-lost", "%zu of %zu lines were delivered", i, want.size());
}

void mapped(bool faults) {
  capture_stream(std::clog);
  auto const text = make_text();
  auto const p = scratch_file("mapped");
  fs_::put_file(p, text);
  fs_::perhaps_read_only(p);
  sim::enable_faults(faults ? sim::bit(sim::F_OPEN) | sim::bit(sim::F_STAT) | sim::bit(sim::F_MMAP) | sim::bit(sim::F_CLOSE) : 0);
  std::optional<utl::mmap_reader> r;
  auto const before = fs_::all_faults();
  try {
    r.emplace(p.c_str());
  } catch (std::exception const& e) {
    SIM_CHECK(text.empty() || fs_::all_faults() != before, "refused", "mapping fails though nothing failed: %s", e.what());
    SIM_CHECK(sim::open_handles() == 0 && sim::open_mappings() == 0, "leak", "a failed mapping leaves something behind");
    sim::probe("failure reported");
    return;
  }
  bool fault_missed = sim::faults_fired(sim::F_STAT) > 0;
  SIM_CHECK(!fault_missed, "missed-error", "the size could not be determined, and nothing was thrown");
  if (sim::coin(1, 4)) {
    consume_range(std::move(*r), text);
    r.reset();
    SIM_CHECK(sim::open_handles() == 0 && sim::open_mappings() == 0, "leak", "%u handles, %u mappings are left", sim::open_handles(),
              sim::open_mappings());
    return;
  }
  consume(
      *r, text,
      [&](std::size_t at) {
        auto const n = sim::coin(1, 8) ? text.size() + sim::pick(3) : sim::pick_size(9000);
        auto const c = r->read(n);
        auto const k = std::min(n, text.size() - at);
        SIM_CHECK(c.length() == k, "wrong-read", "read(%zu) at %zu of %zu gives %zu bytes", n, at, text.size(), c.length());
        SIM_CHECK(memcmp(c.data(), text.data() + at, k) == 0, "wrong-read", "read(%zu) at %zu: wrong bytes", n, at);
        return at + k;
      },
      [&](std::size_t at, bool) {
        if (text.empty()) { return; }
        auto const pr = static_cast<double>(r->progress());
        auto const w = static_cast<double>(at) / static_cast<double>(text.size());
        SIM_CHECK(std::abs(pr - w) < 1e-5, "wrong-progress", "progress() is %f after %zu of %zu bytes", pr, at, text.size());
      },
      true);
  r.reset();
  SIM_CHECK(sim::open_handles() == 0 && sim::open_mappings() == 0, "leak", "%u handles, %u mappings are left", sim::open_handles(),
            sim::open_mappings());
}

struct consumer {
  std::vector<std::size_t>* out;
  void operator()(std::size_t n) { out->push_back(n); }
};

void buffered() {
  auto const text = make_text();
  auto const s = utl::cstr{text.data(), text.size()};
  auto const no_read = [](std::size_t at) { return at; };
  if (sim::coin(1, 4)) {
    consume_range(utl::make_buf_reader(s), text);
    return;
  }
  if (sim::coin(1, 3)) {
    auto r = utl::make_buf_reader(s);
    consume(r, text, no_read, [](std::size_t, bool) {}, true);
    return;
  }
  std::vector<std::size_t> got;
  auto r = utl::make_buf_reader(s, consumer{&got});
  consume(
      r, text, no_read,
      [&](std::size_t at, bool line) {
        SIM_CHECK(!line || !got.empty(), "no-progress-report", "no position was reported for the line that ends at %zu", at);
        for (auto const p : got) {
          SIM_CHECK(p == at, "wrong-progress", "position %zu was reported after %zu of %zu bytes", p, at, text.size());
        }
        got.clear();
      },
      true);
}

// more bytes than 32 bits can count: what follows a hole is read line by line
void huge_map() {
  capture_stream(std::clog);
  auto tail = make_text();
  tail.resize(std::min(tail.size(), std::size_t{5000}));
  auto const n = fs_::pick_huge();
  auto const p = scratch_file("huge");
  if (!fs_::put_after_hole(p, n, tail)) { return; }
  {
    utl::mmap_reader r{p.c_str()};
    auto const all = n + tail.size();
    char const* base = nullptr;
    for (std::size_t at = 0; at < n;) {
      auto const k = sim::coin(1, 2) ? n - at : 1 + (n - at - 1) / (1 + sim::pick(4));
      auto const c = r.read(k);
      if (at == 0) { base = c.data(); }
      SIM_CHECK(c.length() == k && c.data() == base + at, "wrong-read", "read(%zu) at %zu of %zu gives %zu bytes", k, at, all,
                static_cast<std::size_t>(c.length()));
      at += k;
      auto const pr = static_cast<double>(r.progress());
      SIM_CHECK(std::abs(pr - static_cast<double>(at) / static_cast<double>(all)) < 1e-5, "wrong-progress",
                "progress() is %f after %zu of %zu bytes", pr, at, all);
    }
    if (sim::coin(1, 4)) {
      auto const c = r.read(sim::coin(1, 2) ? ~std::size_t{0} : (std::size_t{1} << 32) + 5);
      SIM_CHECK(c.length() == tail.size() && memcmp(c.data(), tail.data(), tail.size()) == 0, "wrong-read",
                "reading the rest gives %zu bytes, there are %zu", static_cast<std::size_t>(c.length()), tail.size());
    } else {
      consume(
          r, tail,
          [&](std::size_t at) {
            auto const c = r.read(7);
            auto const k = std::min<std::size_t>(7, tail.size() - at);
            SIM_CHECK(c.length() == k && memcmp(c.data(), tail.data() + at, k) == 0, "wrong-read", "read(7) at %zu of the rest", at);
            return at + k;
          },
          [](std::size_t, bool) {}, true);
    }
  }
  SIM_CHECK(sim::open_handles() == 0 && sim::open_mappings() == 0, "leak", "%u handles, %u mappings are left", sim::open_handles(),
            sim::open_mappings());
  unlink(p.c_str());
}

void files() { file_lines(false); }
void faulty_files() { file_lines(true); }
void input() { standard_input(false); }
void faulty_input() { standard_input(true); }
void maps() { mapped(false); }
void faulty_maps() { mapped(true); }

}  // namespace

SIM_MAIN({"faulty_files", faulty_files}, {"files", files}, {"input", input}, {"faulty_input", faulty_input}, {"maps", maps},
         {"faulty_maps", faulty_maps}, {"huge_map", huge_map}, {"buffers", buffered}, {"missing", missing})
