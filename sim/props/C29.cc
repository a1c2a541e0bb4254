// C29: a program made of the library's parts - tables imported by parallel
// loops or pools, with progress bars, log lines, timers and result files -
// ends with whole results, a whole screen, whole log lines and nothing left.
#include <map>
#include <optional>
#include <vector>

#include "utl/erase_duplicates.h"
#include "utl/generator.h"
#include "utl/get_or_create.h"
#include "utl/logging.h"
#include "utl/parallel_for.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/file.h"
#include "utl/parser/line_range.h"
#include "utl/parser/mmap_reader.h"
#include "utl/pipes.h"
#include "utl/progress_tracker.h"
#include "utl/raii.h"
#include "utl/read_file.h"
#include "utl/thread_pool.h"
#include "utl/timer.h"
#include "utl/verify.h"

#include "files.h"
#include "screen.h"
#include "wall.h"

namespace {

constexpr unsigned BAD = 999999;

struct row {
  utl::csv_col<std::string, UTL_NAME("key")> key_;
  utl::csv_col<unsigned, UTL_NAME("value")> value_;
};

using groups = std::map<std::string, std::vector<unsigned>>;

enum reading { BUFFER, MAPPED, LAZY, N_READING };
enum processing { IN_ORDER, RUN, OVER_ROWS, DESCRIBED, THREAD_LOCAL, POOL, N_PROCESSING };
constexpr char const* const reading_names[] = {"buffer", "mapped", "generator"};
constexpr char const* const processing_names[] = {"in order", "run", "over rows", "described", "thread-local", "pool"};

struct table {
  std::string name, path, result_path, content;
  std::vector<std::pair<std::string, unsigned>> rows;
  std::set<std::size_t> bad;
  groups want;
  reading read;
  processing process;
  bool go_on, timed, monotonic, keep;
  utl::progress_tracker_ptr kept;  // outlives the display
  // what became of the import
  bool started{}, done{}, failed{};
  std::string what;
};

std::vector<table>* tables;
std::map<std::string, unsigned>* expected;  // log lines
std::atomic_int active;
bool undisturbed;  // no faults are enabled
std::streambuf* log_;

void note_line(std::string const& s) {
  sim::quiet q;
  ++(*expected)[s];
}
#define LOGGED(TEXT)          \
  do {                        \
    auto const text_ = TEXT;  \
    note_line(text_);         \
    uLOG(utl::info) << text_; \
  } while (0)

utl::generator<row> lazily(char const* path) {
  auto lines = utl::line_range{utl::mmap_reader{path}} | utl::csv<row>();
  auto it = lines.begin();
  while (lines.valid(it)) {
    co_yield lines.read(it);
    lines.next(it);
  }
}

std::vector<row> read_rows(table const& t, utl::progress_tracker& tracker) {
  tracker.status("Read").out_bounds(0.F, 30.F).in_high(t.content.size());
  if (t.read == BUFFER) {
    auto const buf = utl::file{t.path.c_str(), "r"}.content_str();
    auto rows = utl::line_range{utl::make_buf_reader(utl::cstr{buf.data(), buf.size()}, tracker.update_fn())}  //
                | utl::csv<row>()  //
                | utl::vec();
    SIM_CHECK(static_cast<int>(tracker.out_) == 30 && tracker.in_ == t.content.size(), "progress",
              "%s is read, progress is %zu of %zu, %g", t.name.c_str(), tracker.in_.load(), t.content.size(),
              tracker.out_.load());
    return rows;
  }
  if (t.read == LAZY) { return lazily(t.path.c_str()).to_vec(); }
  return utl::line_range{utl::mmap_reader{t.path.c_str()}} | utl::csv<row>() | utl::vec();
}

void group(table const& t, std::vector<row> const& rows, std::size_t const i, groups& g) {
  SIM_CHECK(i < rows.size(), "wrong-job", "job %zu of %zu", i, rows.size());
  auto const& r = rows[i];
  if (r.value_.val() == BAD) { note_line("bad row " + std::to_string(i) + " in " + t.name); }
  utl::verify(r.value_.val() != BAD, "bad row {} in {}", i, t.name);
  utl::get_or_create(g, r.key_.val(), [] { return std::vector<unsigned>{}; }).push_back(r.value_.val());
}

groups process_rows(table const& t, std::vector<row> const& rows, utl::progress_tracker& tracker, bool const active_one) {
  auto const n = rows.size();
  tracker.status("Process").out_bounds(30.F, 90.F).in_high(n);

  groups result;
  std::mutex m;
  auto const job = [&](std::size_t const i) {
    if (i % 7 == 3) { LOGGED(t.name + " at row " + std::to_string(i)); }
    std::lock_guard lock{m};
    group(t, rows, i, result);
  };
  auto const progress = [&](std::size_t const i) {
    auto const p = active_one ? utl::get_active_progress_tracker() : nullptr;
    SIM_CHECK(p == nullptr || p.get() == &tracker, "wrong-tracker", "another tracker is active");
    t.monotonic ? tracker.update_monotonic(i + 1) : tracker.increment();
  };
  auto const strategy = t.go_on ? utl::parallel_error_strategy::CONTINUE_EXEC : utl::parallel_error_strategy::QUIT_EXEC;

  struct own {
    own() = default;
    own(own const&) = delete;
    ~own() {
      if (m_ == nullptr) { return; }
      std::lock_guard lock{*m_};
      for (auto const& [k, v] : g_) {
        auto& to = utl::get_or_create(*to_, k, [] { return std::vector<unsigned>{}; });
        to.insert(end(to), begin(v), end(v));
      }
    }
    std::mutex* m_{nullptr};
    groups* to_{nullptr};
    groups g_;
  };

  utl::errors_t errors;
  switch (t.process) {
    case RUN: errors = utl::parallel_for_run(n, job, progress, strategy); break;
    case OVER_ROWS:
      errors = utl::parallel_for(
          rows, [&](row const& r) { job(static_cast<std::size_t>(&r - rows.data())); }, progress, strategy);
      break;
    case DESCRIBED:
      for (auto i = std::size_t{0}; i < n; i += 4) {
        sim::quiet q;
        // loops that stop early may not get there
        (*expected)[(t.go_on && undisturbed ? "" : "?") + t.name + " " + std::to_string(i) + "/" + std::to_string(n)] = 1;
      }
      errors = utl::parallel_for(
          t.name, rows, 4, [&](row const& r) { job(static_cast<std::size_t>(&r - rows.data())); }, progress, strategy);
      break;
    case THREAD_LOCAL:
      errors = utl::parallel_for_run_threadlocal<own>(
          n,
          [&](own& o, std::size_t const i) {
            o.m_ = &m;
            o.to_ = &result;
            group(t, rows, i, o.g_);
          },
          progress, strategy);
      break;
    case POOL: {
      auto pool = utl::thread_pool{[] {}, [] {}};
      pool.execute(n, [&](std::size_t const i) {
        try {
          job(i);
          progress(i);
        } catch (...) {
          std::lock_guard lock{m};
          errors.emplace_back(i, std::current_exception());
        }
      });
      break;
    }
    default:
      for (auto i = std::size_t{0}; i != n; ++i) {
        try {
          job(i);
          progress(i);
        } catch (...) {
          errors.emplace_back(i, std::current_exception());
          if (!t.go_on) { break; }
        }
      }
      if (!t.go_on && !errors.empty()) { std::rethrow_exception(errors.front().second); }
      break;
  }
  SIM_CHECK(n == 0 || !errors.empty() || static_cast<int>(tracker.out_) == 90, "progress",
            "%s: all %zu rows are processed, progress is %g", t.name.c_str(), n, tracker.out_.load());
  if (!errors.empty()) {
    auto const text = std::to_string(errors.size()) + " bad rows in " + t.name;
    for (auto const& [i, e] : errors) {
      SIM_CHECK(t.bad.contains(i), "wrong-error", "%s: an error for row %zu", t.name.c_str(), i);
      try {
        std::rethrow_exception(e);
      } catch (std::exception const& ex) {
        SIM_CHECK(ex.what() == "bad row " + std::to_string(i) + " in " + t.name, "wrong-error", "row %zu: '%s'", i,
                  ex.what());
      }
    }
    SIM_CHECK(errors.size() == t.bad.size(), "wrong-error", "%s: %zu errors for %zu bad rows", t.name.c_str(),
              errors.size(), t.bad.size());
    note_line(text);
    throw utl::fail("{} bad rows in {}", errors.size(), t.name);
  }
  return result;
}

std::string text_of(groups const& g) {
  std::string s;
  for (auto const& [k, v] : g) {
    s += k + ":";
    for (auto const x : v) { s += " " + std::to_string(x); }
    s += "\n";
  }
  return s;
}

void import_table(table& t, bool const activate) {
  t.started = true;
  auto const tracker = activate ? utl::activate_progress_tracker(t.name)
                                : utl::get_global_progress_trackers().get_tracker(t.name);
  if (t.keep) { t.kept = tracker; }
  ++active;
  UTL_FINALLY([] { --active; });
  try {
    auto timer = std::optional<utl::scoped_timer>{};
    if (t.timed) {
      note_line("[" + t.name + "] starting");
      note_line("[" + t.name + "] finished");
      timer.emplace(t.name);
    }
    auto const rows = read_rows(t, *tracker);
    SIM_CHECK(rows.size() == t.rows.size(), "wrong-rows", "%s has %zu rows, %zu were read", t.name.c_str(),
              t.rows.size(), rows.size());
    auto result =
        process_rows(t, rows, activate ? *utl::get_active_progress_tracker_or_activate("none") : *tracker, activate);
    for (auto& [k, v] : result) { utl::erase_duplicates(v); }

    tracker->status("Write").out_bounds(90.F, 100.F).in_high(1);
    auto const text = text_of(result);
    utl::file{t.result_path.c_str(), "w+"}.write(text.data(), text.size());
    tracker->increment();
    auto const back = utl::read_file(t.result_path.c_str());
    utl::verify_silent(back.has_value(), "cannot read the result back");
    SIM_CHECK(*back == text_of(t.want), "wrong-result", "%s: the result is not that of a sequential import",
              t.name.c_str());
    tracker->status("FINISHED").show_progress(false);
    SIM_CHECK(tracker->out_ == 100.F, "progress", "%s has ended, progress is %g", t.name.c_str(), tracker->out_.load());
    t.done = true;
  } catch (std::exception const& e) {
    t.failed = true;
    {
      sim::quiet q;
      t.what = e.what();
    }
    LOGGED(t.name + ": " + e.what());
    tracker->status("FAILED").show_progress(false);
    throw;
  }
}

enum driver { ONE_BY_ONE, LOOP_STOP, LOOP_GO_ON, IN_POOL, N_DRIVER };
constexpr char const* const driver_names[] = {"one by one", "loop until an error", "loop over all", "pool"};

void attempt(driver const d, bool const activate, bool const silent, bool const clean) {
  for (auto& t : *tables) {
    t.started = t.done = t.failed = false;
    sim::quiet q;
    t.what.clear();
  }
  std::size_t log_from, out_from, above;
  {
    sim::quiet q;
    expected->clear();
    log_from = sim::capture_size(log_);
    out_from = sim::capture_size(screen::out);
    above = screen::screen_rows();
  }
  undisturbed = clean;
  auto const faults_before = fs_::all_faults();
  auto const n = tables->size();
  std::string error;
  {
    auto const bars = utl::global_progress_bars{silent};
    auto const one = [&](std::size_t const i) { import_table((*tables)[i], false); };
    try {
      switch (d) {
        case ONE_BY_ONE:
          for (auto& t : *tables) {
            try {
              import_table(t, activate);
            } catch (std::exception const&) {}
          }
          break;
        case LOOP_STOP: utl::parallel_for_run(n, one); break;
        case LOOP_GO_ON: {
          auto const errors =
              utl::parallel_for_run(n, one, utl::noop_progress_update{}, utl::parallel_error_strategy::CONTINUE_EXEC);
          std::set<std::size_t> seen;
          for (auto const& [i, e] : errors) {
            SIM_CHECK(seen.insert(i).second, "wrong-error", "two errors of table %zu", i);
            SIM_CHECK(i < n && (*tables)[i].failed, "wrong-error", "an error of table %zu, which did not fail", i);
            try {
              std::rethrow_exception(e);
            } catch (std::exception const& ex) {
              SIM_CHECK(ex.what() == (*tables)[i].what, "wrong-error", "'%s' instead of '%s'", ex.what(),
                        (*tables)[i].what.c_str());
            }
          }
          for (auto i = std::size_t{0}; i != n; ++i) {
            SIM_CHECK(seen.contains(i) == (*tables)[i].failed, "wrong-error", "no error of table %zu, which failed", i);
          }
          break;
        }
        default: {
          auto pool = utl::thread_pool{[] {}, [] {}};
          pool.execute(n, [&](std::size_t const i) {
            try {
              one(i);
            } catch (std::exception const&) {}
          });
        }
      }
    } catch (std::exception const& e) {
      sim::quiet q;
      error = e.what();
      SIM_CHECK(!error.empty(), "wrong-error", "an empty error");
    }
    bool const faults = fs_::all_faults() != faults_before;
    SIM_CHECK(!clean || !faults, "harness-limit", "a fault in a clean attempt");
    SIM_CHECK(active == 0, "left-behind", "%d imports have not ended", active.load());
    SIM_CHECK(sim::live_threads() == 0, "left-behind", "%u threads are left", sim::live_threads());

    bool any_failed = false;
    for (auto const& t : *tables) {
      any_failed |= t.failed;
      SIM_CHECK(!t.done || t.bad.empty(), "bad-row-accepted", "%s is finished despite a bad row", t.name.c_str());
      SIM_CHECK(t.done + t.failed == t.started, "wrong-outcome", "%s has %s", t.name.c_str(),
                t.started ? "no outcome" : "an outcome without a start");
      if (faults) { continue; }
      SIM_CHECK(t.failed == (t.started && !t.bad.empty()), "wrong-outcome", "%s %s: '%s'", t.name.c_str(),
                t.failed ? "failed" : "did not fail", t.what.c_str());
      SIM_CHECK(t.started || (d == LOOP_STOP && !error.empty()), "wrong-outcome", "%s was not imported",
                t.name.c_str());
      if (t.failed) {
        bool fits = t.what == std::to_string(t.bad.size()) + " bad rows in " + t.name &&
                    (t.go_on || t.process == POOL);
        for (auto const i : t.bad) {
          fits |= t.what == "bad row " + std::to_string(i) + " in " + t.name && !t.go_on &&
                  (t.process != IN_ORDER || i == *t.bad.begin());
        }
        SIM_CHECK(fits, "wrong-error", "%s failed with '%s'", t.name.c_str(), t.what.c_str());
      }
    }
    if (d == LOOP_STOP && !faults) {
      SIM_CHECK(error.empty() == !any_failed, "wrong-error", "%s import failed, the error is '%s'",
                any_failed ? "an" : "no", error.c_str());
    }
    if (d == LOOP_STOP && !error.empty() && !faults) {
      bool fits = false;
      for (auto const& t : *tables) { fits |= t.failed && t.what == error; }
      SIM_CHECK(fits, "wrong-error", "the error is '%s'", error.c_str());
    }
    if (d != LOOP_STOP && !faults) {
      SIM_CHECK(error.empty(), "wrong-error", "the error is '%s'", error.c_str());
    }

    // every import that was started has its line, and its last one is shown
    std::set<std::string> names;
    for (auto const& t : *tables) {
      if (t.started) { names.insert(t.name); }
    }
    {
      sim::quiet q;
      auto& g = utl::get_global_progress_trackers();
      SIM_CHECK(g.trackers_.size() == names.size(), "wrong-tracker", "%zu trackers of %zu imports", g.trackers_.size(),
                names.size());
      for (auto const& t : *tables) {
        if (!t.started) { continue; }
        auto const it = g.trackers_.find(t.name);
        SIM_CHECK(it != g.trackers_.end(), "wrong-tracker", "%s has no tracker", t.name.c_str());
        SIM_CHECK(it->second->status_ == (t.done ? "FINISHED" : "FAILED") && !it->second->show_progress_,
                  "wrong-tracker", "%s has status '%s'", t.name.c_str(), it->second->status_.c_str());
      }
      if (silent) {
        SIM_CHECK(sim::capture_size(screen::out) == out_from, "not-silent", "%zu bytes were written",
                  sim::capture_size(screen::out) - out_from);
      } else if (!names.empty()) {
        screen::check_screen(above, true, "after the imports");
      }
    }
  }
  sim::quiet q;
  auto& g = utl::get_global_progress_trackers();
  SIM_CHECK(g.trackers_.empty() && g.silent_, "left-behind", "trackers after the end of the progress bars");
  SIM_CHECK(sim::open_handles() == 0, "left-behind", "%u files are open", sim::open_handles());
  SIM_CHECK(sim::open_mappings() == 0, "left-behind", "%u mappings are left", sim::open_mappings());

  // whole lines, and exactly those that were logged
  std::map<std::string, unsigned> got;
  for (auto const& l : split_lines(sim::capture_text(log_).substr(log_from))) {
    auto const fail = l.find(" [VERIFY FAIL] ");
    std::string text;
    if (fail == 20 && wall::parse(l) >= 0) {
      text = l.substr(fail + 15);
    } else {
      auto const p = wall::parse_log(l);
      SIM_CHECK(p.ok && p.level == "info", "torn-line", "'%s'", l.c_str());
      text = p.text;
      if (text.starts_with("[") && text.ends_with("ms)") && text.find("] finished (") != std::string::npos) {
        text = text.substr(0, text.rfind(" ("));
      }
    }
    ++got[text];
  }
  bool const faults = fs_::all_faults() != faults_before;
  for (auto const& [l, k] : got) {
    if (expected->contains("?" + l)) {
      SIM_CHECK(k == 1, "wrong-line", "%u times '%s'", k, l.c_str());
      continue;
    }
    auto const it = expected->find(l);
    SIM_CHECK(it != expected->end() || faults, "wrong-line", "nothing has logged '%s'", l.c_str());
    SIM_CHECK(it == expected->end() || it->second == k || (faults && it->second < k), "wrong-line",
              "%u times instead of %u: '%s'", k, it->second, l.c_str());
  }
  for (auto const& [l, k] : *expected) {
    SIM_CHECK(l[0] == '?' || got.contains(l), "line-missing", "'%s' is not in the log", l.c_str());
  }
}

void make_tables() {
  sim::quiet q;
  tables = new std::vector<table>{};
  auto const n = 1 + sim::pick(3);
  for (auto k = 0U; k != n; ++k) {
    table t;
    t.name = std::string(1, static_cast<char>('A' + k)) + (sim::coin(1, 8) ? std::string(14, 'x') : "");
    t.path = std::string{sim::scratch()} + "/" + t.name + ".csv";
    t.result_path = std::string{sim::scratch()} + "/" + t.name + ".result";
    auto const swapped = sim::coin(1, 2);
    t.content = swapped ? "value,more,key\n" : "key,value\n";
    auto const count = sim::coin(1, 8) ? 0 : sim::coin(1, 10) ? sim::pick(sim::coin(1, 10) ? 1000 : 120) : 1 + sim::pick(20);
    auto const bad = sim::coin(1, 3);
    for (auto i = std::size_t{0}; i != count; ++i) {
      auto const key = "k" + std::to_string(sim::pick(4));
      auto const value = bad && sim::coin(1, 6) ? BAD : static_cast<unsigned>(sim::pick(30));
      t.rows.emplace_back(key, value);
      if (value == BAD) {
        t.bad.insert(i);
        sim::note_fault(sim::F_JOB_THROW);
      } else {
        t.want[key].push_back(value);
      }
      t.content += swapped ? std::to_string(value) + ",," + key : key + "," + std::to_string(value);
      if (i + 1 != count || sim::coin(1, 2)) { t.content += '\n'; }
    }
    for (auto& [key, v] : t.want) {
      std::sort(v.begin(), v.end());
      v.erase(std::unique(v.begin(), v.end()), v.end());
    }
    t.read = static_cast<reading>(sim::pick(N_READING));
    t.process = static_cast<processing>(sim::pick(N_PROCESSING));
    t.go_on = sim::coin(1, 2);
    t.timed = sim::coin(1, 3);
    t.monotonic = sim::coin(1, 3);
    t.keep = sim::coin(1, 3);
    sim::sample("[%s: %zu rows, %zu bad, %s, %s%s] ", t.name.c_str(), t.rows.size(), t.bad.size(),
                reading_names[t.read], processing_names[t.process], t.go_on ? ", all" : "");
    fs_::put_file(t.path, t.content);
    tables->push_back(t);
  }
}

std::uint64_t pick_faults() {
  constexpr auto base = sim::bit(sim::F_SPURIOUS_WAKE) | sim::bit(sim::F_CAS_WEAK) | sim::bit(sim::F_STALL);
  switch (sim::pick(8)) {
    case 0:
    case 1: return base | fs_::READ_FAULTS | sim::bit(sim::F_MMAP);
    case 2:
      return base | sim::bit(sim::F_WRITE_EIO) | sim::bit(sim::F_WRITE_SHORT) | sim::bit(sim::F_WRITE_EINTR) |
             sim::bit(sim::F_ENOSPC) | sim::bit(sim::F_CLOSE);
    case 3: return base | sim::bit(sim::F_THREAD_EAGAIN);
    default: return base;
  }
}

void import_all() {
  sim::set_processors(1 + static_cast<unsigned>(sim::pick(4)));
  wall::init(false);
  {
    sim::quiet q;
    expected = new std::map<std::string, unsigned>{};
    log_ = capture_stream(std::clog);
    screen::out = capture_stream(std::cout);
  }
  make_tables();
  auto const d = static_cast<driver>(sim::pick(N_DRIVER));
  bool const silent = sim::coin(1, 5);
  bool const activate = sim::coin(1, 2);
  sim::sample("%s%s ", driver_names[d], silent ? ", silent" : "");
  sim::enable_faults(pick_faults());
  auto const before = sim::live_blocks();
  attempt(d, activate, silent, false);

  sim::enable_faults(sim::bit(sim::F_SPURIOUS_WAKE) | sim::bit(sim::F_CAS_WEAK) | sim::bit(sim::F_STALL));
  sim::set_disk_space(~0ULL);
  attempt(d, activate, silent, true);
  for (auto& t : *tables) { t.kept = nullptr; }
  SIM_CHECK(sim::live_blocks() <= before, "left-behind", "%llu memory blocks are left",
            static_cast<unsigned long long>(sim::live_blocks() - before));
}

}  // namespace

SIM_MAIN({"import", import_all})
