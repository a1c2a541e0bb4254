// C27: rows read from a file are exactly the file's rows, or an exception.
#include <cmath>
#include <exception>
#include <functional>
#include <thread>

#include "utl/for_each_line_in_file.h"
#include "utl/parallel_for.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/csv.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/line_range.h"
#include "utl/parser/mmap_reader.h"
#include "utl/parser/split.h"
#include "utl/pipes.h"
#include "utl/read_file.h"

#include "files.h"

namespace {

struct rec {
  std::string name;
  int id{};
  double x{};
  bool flag{};
  std::string note;
  unsigned long big{};
};

struct row {
  utl::csv_col<utl::cstr, UTL_NAME("name")> name_;
  utl::csv_col<int, UTL_NAME("id")> id_;
  utl::csv_col<double, UTL_NAME("x")> x_;
  utl::csv_col<bool, UTL_NAME("flag")> flag_;
  utl::csv_col<std::string, UTL_NAME("note")> note_;
  utl::csv_col<unsigned long, UTL_NAME("big")> big_;
};
using tuple_t = std::tuple<std::string, int, double, bool, std::string, unsigned long>;

struct rnd {
  std::uint64_t x;
  unsigned operator()(unsigned n) {
    x = x * 6364136223846793005ULL + 1442695040888963407ULL;
    return static_cast<unsigned>((x >> 33) % n);
  }
  std::string text(char const* set, unsigned max) {
    std::string s(static_cast<std::size_t>((*this)(max + 1)), ' ');
    auto const l = static_cast<unsigned>(strlen(set));
    for (auto& c : s) { c = set[(*this)(l)]; }
    return s;
  }
};

std::string in_quotes(std::string const& s) {
  std::string o = "\"";
  for (auto const c : s) {
    o += c;
    if (c == '"') { o += c; }
  }
  return o + "\"";
}

enum { NAME, ID, X, FLAG, NOTE, BIG, N_KNOWN, UNKNOWN = N_KNOWN };
constexpr char const* const names[] = {"name", "id", "x", "flag", "note", "big"};

struct table {
  std::string text;
  std::vector<rec> rows;
};

// plain: the declared columns in their order, no escaped quotes
enum blank { BLANK_NONE, BLANK_LAST, BLANK_ANYWHERE };
enum length { USUAL, MANY_ROWS, LONG_FIELDS };
table make_table(char sep, bool plain, bool bom_allowed, blank blanks, length len = USUAL) {
  sim::quiet q;
  rnd r{sim::pick(1U << 30) + 77};
  table t;
  bool const lf = r(2) != 0;
  auto const nl = lf ? "\n" : "\r\n";
  std::vector<unsigned> cols;
  for (auto i = 0U; i != N_KNOWN; ++i) {
    if (plain || r(12) != 0) { cols.push_back(i); }  // else: declared, but not in the file
  }
  if (!plain) {
    if (r(2)) {
      for (auto i = cols.size(); i > 1; --i) { std::swap(cols[i - 1], cols[r(static_cast<unsigned>(i))]); }
    }
    auto const total = r(12) == 0 ? 64U : static_cast<unsigned>(cols.size()) + r(4);
    while (cols.size() < total) {
      cols.insert(begin(cols) + r(static_cast<unsigned>(cols.size() + 1)), static_cast<unsigned>(UNKNOWN));
    }
  }
  // a single column of values that are short, or empty
  bool const narrow = !plain && (len == MANY_ROWS || (len == USUAL && r(6) == 0));
  if (narrow) { cols = {r(2) ? static_cast<unsigned>(ID) : static_cast<unsigned>(NOTE)}; }
  if (cols.empty()) { cols.push_back(ID); }
  if (bom_allowed && r(3) == 0) { t.text += "\xEF\xBB\xBF"; }
  for (auto i = 0U; i != cols.size(); ++i) {
    if (i != 0) { t.text += sep; }
    auto const n = cols[i] == UNKNOWN ? "u" + std::to_string(i) : std::string{names[cols[i]]};
    t.text += r(4) == 0 ? in_quotes(n) : n;
  }
  if (!plain && r(12) == 0) { return t; }  // only a header, no line end
  t.text += nl;
  auto const n = len == MANY_ROWS && narrow  ? 65500 + r(3000)
                 : len == MANY_ROWS          ? 2000U
                 : len == LONG_FIELDS        ? 1 + r(3)
                 : r(12) == 0                ? 300 + r(600)
                 : r(4) == 0                 ? r(80)
                                             : r(6);
  auto const set = sep == ',' ? "ab, ;\"" : "ab ;\t,\"";
  for (auto i = 0U; i != n && (len != USUAL || t.text.size() < 40000); ++i) {
    rec e;
    std::vector<std::string> f;
    auto const empty = [&] { return cols.size() > 1 && r(25) == 0; };
    auto const some = [&](std::string const& s) { return r(3) == 0 ? in_quotes(s) : s; };
    for (auto const c : cols) {
      if ((c == ID || c == X || c == FLAG || c == BIG) && empty()) {
        f.push_back(r(4) == 0 ? "\"\"" : "");  // reads as zero or false
        continue;
      }
      switch (c) {
        case NAME:
          e.name = "n" + r.text("abc", 5);
          f.push_back(some(e.name));
          break;
        case ID:
          e.id = static_cast<int>(r(2000000)) - 1000000;
          if (r(10) == 0) { e.id = r(2) ? 2147483647 - static_cast<int>(r(3)) : -2147483647 + static_cast<int>(r(3)); }
          if (narrow) { e.id = static_cast<int>(r(12)); }
          f.push_back(plain || narrow ? std::to_string(e.id) : some((r(5) == 0 ? " " : "") + std::to_string(e.id)));
          break;
        case X: {
          e.x = (static_cast<int>(r(200001)) - 100000) / 8.0;
          if (r(10) == 0) { e.x *= r(2) ? 1e6 : 65536.0 * 65536.0 * 256.0; }
          char b[40];
          snprintf(b, sizeof b, "%.*f", e.x == std::floor(e.x) && r(3) == 0 ? 0 : 3, e.x);
          f.push_back(b);
          break;
        }
        case FLAG:
          e.flag = r(2) != 0;
          f.push_back(e.flag ? r(2) ? "true" : "TRUE" : "false");
          break;
        case NOTE:
          e.note = len == LONG_FIELDS ? r.text(plain ? "abc d" : set, 1) + std::string(65500 + r(70000), plain ? 'y' : "y,;"[r(3)]) + r.text(plain ? "abc d" : set, 9)
                   : plain ? r.text("abc d", 8) : r.text(set, narrow ? 2 : r(10) == 0 ? r(20) == 0 ? 9000 : 200 : 8);
          f.push_back(e.note.find_first_of("\"\t,;") != std::string::npos ? in_quotes(e.note) : some(e.note));
          break;
        case BIG:
          e.big = (static_cast<unsigned long>(r(1U << 30)) << 31) + r(1U << 30);
          if (r(10) == 0) { e.big = r(2) ? ~0UL - r(3) : r(3); }
          f.push_back(std::to_string(e.big));
          break;
        default: f.push_back(r(3) == 0 ? in_quotes(r.text(set, 6)) : r.text("xyz ", 6)); break;
      }
    }
    if (!plain && r(15) == 0 && f.size() > 1) {  // a short row: the rest keep their initial values
      auto const keep = 1 + r(static_cast<unsigned>(f.size() - 1));
      for (auto k = keep; k < f.size(); ++k) {
        switch (cols[k]) {
          case NAME: e.name.clear(); break;
          case ID: e.id = 0; break;
          case X: e.x = 0; break;
          case FLAG: e.flag = false; break;
          case NOTE: e.note.clear(); break;
          case BIG: e.big = 0; break;
        }
      }
      f.resize(keep);
    }
    else if (!plain && r(25) == 0) {  // a long row: fields beyond the header's
      for (auto k = 1 + r(3); k > 0 && f.size() < 60; --k) { f.push_back(r.text("xyz 1", 4)); }
    }
    // a quote that is not closed ends with its line
    if (!plain && f.size() == cols.size() && (cols.back() == NOTE || cols.back() == UNKNOWN) && r(20) == 0) {
      auto v = cols.back() == NOTE ? e.note : r.text(set, 6);
      std::erase(v, '"');
      if (cols.back() == NOTE) { e.note = v; }
      f.back() = '"' + v;
    }
    if (f.size() == 1 && f[0].empty()) { f[0] = "\"\""; }  // not a blank line
    if (blanks == BLANK_ANYWHERE && r(30) == 0) {
      for (auto k = r(3) == 0 ? 2 : 1; k != 0; --k) { t.text += nl; }
    }
    for (auto k = 0U; k != f.size(); ++k) {
      if (k != 0) { t.text += sep; }
      t.text += f[k];
    }
    if (i + 1 != n || r(2)) { t.text += nl; }
    t.rows.push_back(std::move(e));
  }
  // an empty line is no row
  if (blanks != BLANK_NONE && t.text.ends_with(nl) && r(4) == 0) { t.text += nl; }
  return t;
}

void check_row(table const& t, std::size_t i, std::string_view name, int id, double x, bool flag, std::string_view note,
               unsigned long big) {
  sim::quiet q;
  SIM_CHECK(i < t.rows.size(), "extra-row", "row %zu is delivered, the file has %zu", i, t.rows.size());
  auto const& e = t.rows[i];
  SIM_CHECK(e.name == name, "wrong-row", "row %zu: name is '%.*s' instead of '%s'", i, static_cast<int>(name.size()), name.data(),
            e.name.c_str());
  SIM_CHECK(e.id == id, "wrong-row", "row %zu: id is %d instead of %d", i, id, e.id);
  SIM_CHECK(std::abs(e.x - x) <= 1e-9 * (1 + std::abs(e.x)), "wrong-row", "row %zu: x is %f instead of %f", i, x, e.x);
  SIM_CHECK(e.flag == flag, "wrong-row", "row %zu: flag is %d instead of %d", i, flag, e.flag);
  SIM_CHECK(e.note == note, "wrong-row", "row %zu: note is '%.*s' instead of '%s'", i, static_cast<int>(note.size()), note.data(),
            e.note.c_str());
  SIM_CHECK(e.big == big, "wrong-row", "row %zu: big is %lu instead of %lu", i, big, e.big);
}
void check_tuples(table const& t, std::vector<tuple_t> const& v) {
  sim::quiet q;
  std::size_t i = 0;
  for (auto const& [a, b, c, d, e, f] : v) { check_row(t, i++, a, b, c, d, e, f); }
  SIM_CHECK(v.size() == t.rows.size(), "rows-lost", "%zu of %zu rows are returned and no exception was thrown", v.size(),
            t.rows.size());
}

struct my_exception {
  std::size_t id;
};
enum api { TUPLE_FILE, TUPLE_VECTOR, TUPLE_MAPPED, RANGE_MAPPED, RANGE_BUFFER, RANGE_STRING, RANGE_PIPE, SPLIT, N_API };
constexpr char const* const api_names[] = {"tuples of a file", "tuples into a vector", "tuples of a mapped file", "rows of a mapped file",
                                           "rows of a file's buffer", "rows of a file's text", "pipeline over a mapped file",
                                           "lines and separators"};

struct file_t {
  std::string path;
  table t;
  unsigned how;
};

template <char Sep>
struct reading {
  file_t const& f;
  std::size_t throw_at, n{};

  void row_(row const& x) {
    {
      sim::quiet q;
      check_row(f.t, n, x.name_->view(), *x.id_, *x.x_, *x.flag_, *x.note_, *x.big_);
    }
    after();
  }
  void after() {
    if (n == throw_at) {
      sim::note_fault(sim::F_JOB_THROW);
      throw my_exception{throw_at};
    }
    ++n;
  }
  void all() const {
    SIM_CHECK(n == f.t.rows.size(), "rows-lost", "%zu of %zu rows are delivered and no exception was thrown", n, f.t.rows.size());
  }

  void run() {
    auto const each = [&] { return utl::for_each([this](row const& x) { row_(x); }); };
    static constexpr auto const cols = [] { return utl::column_mapping<tuple_t>{{names[0], names[1], names[2], names[3], names[4], names[5]}}; };
    switch (f.how) {
      case TUPLE_FILE: {
        auto const v = utl::read_file<tuple_t, std::string, Sep>(f.path, cols());
        check_tuples(f.t, v);
        return;
      }
      case TUPLE_VECTOR: {
        std::vector<tuple_t> v;
        utl::read_file<tuple_t, Sep>(f.path.c_str(), v, cols());
        check_tuples(f.t, v);
        if (f.t.text.size() % 3 == 0) {  // once more, over the result of the first time
          utl::read_file<tuple_t, Sep>(f.path.c_str(), v, cols());
          check_tuples(f.t, v);
        }
        return;
      }
      case TUPLE_MAPPED: {
        utl::mmap_reader m{f.path.c_str()};
        auto const v = utl::read<tuple_t, Sep>(m.read(f.t.text.size() + 100), cols());
        check_tuples(f.t, v);
        return;
      }
      case RANGE_MAPPED: utl::line_range{utl::mmap_reader{f.path.c_str()}} | utl::csv<row, Sep>() | each(); break;
      case RANGE_BUFFER: {
        auto const b = utl::file{f.path.c_str(), "r"}.content();
        utl::line_range{utl::buf_reader{utl::cstr{reinterpret_cast<char const*>(b.data()), b.size()}}} | utl::csv<row, Sep>() | each();
        break;
      }
      case RANGE_STRING: {
        auto const s = utl::read_file(f.path.c_str());
        if (!s.has_value()) { throw std::runtime_error{"cannot read file"}; }
        std::size_t last = 0;
        auto const progress = [&](std::size_t const at) {
          SIM_CHECK(at >= last && at <= s->size(), "wrong-progress", "position %zu after %zu of %zu", at, last, s->size());
          last = at;
        };
        utl::line_range{utl::make_buf_reader(utl::cstr{*s}, std::function<void(std::size_t)>{progress})} | utl::csv<row, Sep>() | each();
        SIM_CHECK(last == s->size(), "wrong-progress", "position %zu of %zu after the last row", last, s->size());
        break;
      }
      case RANGE_PIPE: {
        auto const ids = utl::line_range{utl::mmap_reader{f.path.c_str()}}  //
                         | utl::csv<row, Sep>()  //
                         | utl::remove_if([](row const& x) { return *x.flag_; })  //
                         | utl::transform([](row const& x) { return std::pair{*x.id_, *x.note_}; })  //
                         | utl::vec();
        sim::quiet q;
        std::size_t i = 0;
        for (auto const& e : f.t.rows) {
          if (e.flag) { continue; }
          SIM_CHECK(i < ids.size() && ids[i].first == e.id && ids[i].second == e.note, "wrong-row", "element %zu of %zu differs", i,
                    ids.size());
          ++i;
        }
        SIM_CHECK(i == ids.size(), "extra-row", "%zu elements instead of %zu", ids.size(), i);
        return;
      }
      case SPLIT: {
        bool header = true;
        utl::for_each_line_in_file(f.path, [&](auto&& line) {
          if (header) {
            header = false;
            return;
          }
          auto const [a, b, c, d, e, g] = utl::split<Sep, std::string, int, double, bool, std::string, unsigned long>(
              utl::cstr{line.data(), line.size()});
          check_row(f.t, n, a, b, c, d, e, g);
          after();
        });
        break;
      }
    }
    all();
  }
};

// what an uninitialised variable of the code under test has
[[gnu::noinline]] void dirty_stack() {
  sim::quiet q;
  char volatile a[12000];
  for (std::size_t i = 0; i < sizeof a; ++i) { a[i] = static_cast<char>(i * 7 % 11 % 6); }
}

enum outcome { SUCCESS, OWN, FAILED };
outcome attempt(file_t const& f, char const sep, std::size_t const throw_at, bool const no_memory) {
  auto const go = [&](auto r) {
    auto result = SUCCESS;
    std::size_t own = ~std::size_t{0};
    dirty_stack();
    sim::watch_allocs(no_memory);
    try {
      r.run();
    } catch (my_exception const& e) {
      own = e.id;
      result = OWN;
    } catch (std::exception const& e) {
      sim::quiet q;
      sim::event("%s: %s", api_names[f.how], e.what());
      result = FAILED;
    }
    sim::watch_allocs(false);
    bool const streams = f.how == RANGE_MAPPED || f.how == RANGE_BUFFER || f.how == RANGE_STRING || f.how == SPLIT;
    SIM_CHECK(result != OWN || (own == throw_at && r.n == throw_at), "wrong-exception", "not what the handler threw");
    SIM_CHECK(result != SUCCESS || !streams || throw_at >= f.t.rows.size(), "swallowed", "the handler's exception is not passed on");
    return result;
  };
  switch (sep) {
    case ',': return go(reading<','>{f, throw_at});
    case ';': return go(reading<';'>{f, throw_at});
    default: return go(reading<'\t'>{f, throw_at});
  }
}

file_t make_file(char sep, unsigned i, length len = USUAL) {
  sim::quiet q;
  file_t f;
  f.how = static_cast<unsigned>(sim::pick(N_API));
  bool const plain = f.how == SPLIT;
  bool const range = f.how == RANGE_MAPPED || f.how == RANGE_BUFFER || f.how == RANGE_STRING || f.how == RANGE_PIPE;
  f.t = make_table(sep, plain, range, f.how <= TUPLE_MAPPED ? BLANK_LAST : range ? BLANK_ANYWHERE : BLANK_NONE, len);
  f.path = std::string{sim::scratch()} + "/table" + std::to_string(i);
  fs_::put_file(f.path, f.t.text);
  fs_::perhaps_read_only(f.path);
  sim::event("%s: %zu bytes, %zu rows", api_names[f.how], f.t.text.size(), f.t.rows.size());
  return f;
}

void released(std::uint64_t const base) {
  SIM_CHECK(sim::open_handles() == 0 && sim::open_mappings() == 0, "leak", "%u handles, %u mappings are left", sim::open_handles(),
            sim::open_mappings());
  SIM_CHECK(sim::live_blocks() <= base, "leak", "%ld memory blocks are left", static_cast<long>(sim::live_blocks() - base));
}

std::uint64_t pick_mask() {
  switch (sim::pick(5)) {
    case 0: return fs_::READ_FAULTS | sim::bit(sim::F_MMAP) | sim::bit(sim::F_ALLOC);
    case 1: return fs_::READ_FAULTS | sim::bit(sim::F_MMAP);
    case 2: return sim::bit(sim::F_READ_EIO) | sim::bit(sim::F_READ_SHORT);
    case 3: return sim::bit(sim::F_READ_SHORT) | sim::bit(sim::F_READ_EINTR);
    default: return sim::bit(sim::F_ALLOC);
  }
}

void begin() {
  capture_stream(std::clog);
  sim::set_step_limit(100000000);
}
char pick_sep() { return ",;\t"[sim::pick(3)]; }

void faulty() {
  begin();
  auto const sep = pick_sep();
  auto const f = make_file(sep, 0);
  sim::enable_faults(0);
  SIM_CHECK(attempt(f, sep, ~std::size_t{0}, false) == SUCCESS, "refused", "%s: fails without faults", api_names[f.how]);
  {
    sim::quiet q;
    utl::time(0);  // the C library keeps some memory from the first use on
  }
  auto const base = sim::live_blocks();
  for (auto k = 1 + sim::pick(3); k > 0; --k) {
    auto const mask = pick_mask();
    auto const before = fs_::all_faults();
    auto const at = sim::coin(1, 4) ? sim::pick(f.t.rows.size() + 1) : ~std::size_t{0};
    sim::enable_faults(mask);
    auto const r = attempt(f, sep, at, (mask & sim::bit(sim::F_ALLOC)) != 0);
    sim::enable_faults(0);
    SIM_CHECK(r != FAILED || fs_::all_faults() != before, "refused", "%s: fails though nothing failed", api_names[f.how]);
    if (r == FAILED) { sim::probe("failure reported"); }
    released(base);
  }
  SIM_CHECK(attempt(f, sep, ~std::size_t{0}, false) == SUCCESS, "refused", "%s: fails after a failure", api_names[f.how]);
  released(base);
  sim::sample("[%s, %zu rows] ", api_names[f.how], f.t.rows.size());
}

// several files (or the same) at the same time
void concurrent() {
  begin();
  auto const sep = pick_sep();
  std::vector<file_t> files;
  auto const n = 2 + sim::pick(3);
  for (auto i = 0U; i != n; ++i) { files.push_back(make_file(sep, i)); }
  auto const mask = sim::coin(1, 2) ? pick_mask() : 0;
  sim::set_processors(static_cast<unsigned>(1 + sim::pick(4)));
  sim::sync_points_only(true);
  sim::enable_faults(mask);
  std::vector<int> outcome(n, -1);
  utl::parallel_for_run(n, [&](std::size_t const i) {
    sim::point();
    auto const r = attempt(files[i], sep, ~std::size_t{0}, (mask & sim::bit(sim::F_ALLOC)) != 0);
    sim::quiet q;
    outcome[i] = r;
  });
  sim::enable_faults(0);
  for (auto const r : outcome) {
    SIM_CHECK(r != FAILED || fs_::all_faults() != 0, "refused", "fails though nothing failed");
  }
  SIM_CHECK(sim::open_handles() == 0 && sim::open_mappings() == 0, "leak", "%u handles, %u mappings are left", sim::open_handles(),
            sim::open_mappings());
}

void too_many_columns() {
  capture_stream(std::clog);
  file_t f;
  {
    sim::quiet q;
    auto const n = 65 + sim::pick(200);
    for (auto i = 0U; i != n; ++i) { f.t.text += "c" + std::to_string(i) + (i + 1 == n ? "\n" : ","); }
    f.t.text += "1,2,3\n";
    f.path = std::string{sim::scratch()} + "/wide";
    f.how = static_cast<unsigned>(sim::pick(SPLIT));
    fs_::put_file(f.path, f.t.text);
  fs_::perhaps_read_only(f.path);
  }
  SIM_CHECK(attempt(f, ',', ~std::size_t{0}, false) == FAILED, "no-error", "%s: a header of too many columns is accepted", api_names[f.how]);
  SIM_CHECK(sim::open_handles() == 0 && sim::open_mappings() == 0, "leak", "handles or mappings are left");
}

void missing() {
  capture_stream(std::clog);
  file_t f;
  f.path = std::string{sim::scratch()} + "/none";
  f.how = static_cast<unsigned>(sim::pick(N_API));
  SIM_CHECK(attempt(f, ',', ~std::size_t{0}, false) == FAILED, "no-error", "%s: a missing file is not reported", api_names[f.how]);
}

void long_table() {
  begin();
  sim::sync_points_only(true);
  sim::set_step_limit(400000000);
  auto const sep = pick_sep();
  auto const f = make_file(sep, 0, sim::coin(1, 2) ? MANY_ROWS : LONG_FIELDS);
  sim::enable_faults(0);
  SIM_CHECK(attempt(f, sep, ~std::size_t{0}, false) == SUCCESS, "refused", "%s: fails without faults", api_names[f.how]);
  SIM_CHECK(sim::open_handles() == 0 && sim::open_mappings() == 0, "leak", "handles or mappings are left");
  sim::probe("long table");
}

void rare() {
  auto const k = sim::pick(120);
  return k == 119 ? long_table() : k % 3 == 0 ? missing() : too_many_columns();
}

}  // namespace

SIM_MAIN({"faulty", faulty}, {"faulty2", faulty}, {"concurrent", concurrent}, {"rare", rare})
