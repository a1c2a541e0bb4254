// Timers under a simulated monotonic clock and a jumping wall clock.
#include <memory>
#include <optional>

#include "utl/timer.h"
#include "utl/timing.h"

#include "wall.h"

namespace {

std::streambuf* out;

struct expected {
  std::string prefix;  // "[name] word"
  bool timed{};
  std::uint64_t lo{}, hi{};  // elapsed monotonic time in ns
  wall::moment from{}, to{};
};
std::vector<expected> want;

void pass_time() {
  static std::uint64_t const ns[] = {0, 1, 999, 1000, 1500, 999999, 1000000, 1234567, 50000000,
                                     999999999, 1000000000, 61000000000ULL, 3600000000000ULL, 250000000000000ULL};
  switch (sim::pick(3)) {
    case 0: break;
    case 1: sim::advance_time(ns[sim::pick(14)]); break;
    case 2: std::this_thread::sleep_for(std::chrono::nanoseconds(ns[sim::pick(14)])); break;
  }
  if (sim::coin(1, 4)) { wall::random_jump(); }
}

struct mark {
  std::uint64_t mono;
  wall::moment w;
};
mark now() {
  auto const w = wall::now();
  return {sim::mono_ns(), w};
}

void expect(std::string prefix, bool timed, mark const& s0, mark const& s1, mark const& r0, mark const& r1) {
  sim::quiet q;
  want.push_back({std::move(prefix), timed, r0.mono - s1.mono, r1.mono - s0.mono, r0.w, r1.w});
}

std::string pick_name() {
  static char const* const n[] = {"load", "a timer with a name of some length", "x", "", "[odd] (name"};
  // a name belongs to one thread, so that reports can be told apart
  return n[sim::pick(5)] + (sim::self() == 0 ? std::string{} : " T" + std::to_string(sim::self()));
}
std::string pick_msg() {
  static char const* const n[] = {"half way", "x", "", "reading (part 1)", "a longer message that is allocated"};
  return n[sim::pick(5)];
}

template <typename T>
void prints(T const& t, std::string const& name, mark const& s0, mark const& s1) {
  for (auto k = sim::pick(4); k > 0; --k) {
    pass_time();
    auto const m = pick_msg();
    auto const r0 = now();
    t.print(m);
    expect("[" + name + "] " + m, true, s0, s1, r0, now());
  }
}

// the caller's string is not there, or is another one, once the timer runs
template <typename T>
void start(std::optional<T>& t, std::string const& name) {
  switch (sim::pick(4)) {
    case 0: t.emplace(name); break;
    case 1: t.emplace(std::string{name}); break;
    case 2: {
      auto arg = name;
      t.emplace(arg);
      for (auto& c : arg) { c = '#'; }
      break;
    }
    case 3: {
      auto const arg = std::make_unique<std::string>(name);
      t.emplace(arg->c_str());
      break;
    }
  }
}

void scoped(unsigned depth) {
  auto const name = pick_name();
  bool const by_exception = sim::coin(1, 3);
  mark s0 = now(), s1{}, r0{};
  try {
    std::optional<utl::scoped_timer> t;
    start(t, name);
    s1 = now();
    expect("[" + name + "] starting", false, s0, s1, s0, s1);
    prints(*t, name, s0, s1);
    if (depth > 0 && sim::coin(1, 2)) { scoped(depth - 1); }
    pass_time();
    r0 = now();
    if (by_exception) { throw 7; }
  } catch (int) { sim::probe("scope left by an exception"); }
  expect("[" + name + "] finished", true, s0, s1, r0, now());
}

void manual() {
  auto const name = pick_name();
  auto const s0 = now();
  std::optional<utl::manual_timer> t;
  start(t, name);
  auto const s1 = now();
  expect("[" + name + "] starting", false, s0, s1, s0, s1);
  prints(*t, name, s0, s1);
  auto k = sim::pick(3);
  while (true) {
    pass_time();
    auto const r0 = now();
    t->stop_and_print();
    expect("[" + name + "] finished", true, s0, s1, r0, now());
    if (k-- == 0) { break; }
    prints(*t, name, s0, s1);
  }
}

void check_value(char const* what, std::int64_t got, std::uint64_t unit, mark const& s0, mark const& s1,
                 mark const& r0, mark const& r1) {
  auto const lo = static_cast<std::int64_t>((r0.mono - s1.mono) / unit);
  auto const hi = static_cast<std::int64_t>((r1.mono - s0.mono) / unit);
  SIM_CHECK(got >= lo && got <= hi, "wrong-duration", "%s: %lld, %lld to %lld passed", what,
            static_cast<long long>(got), static_cast<long long>(lo), static_cast<long long>(hi));
}

void macros() {
  auto const s0 = now();
  UTL_START_TIMING(a);
  auto const s1 = now();
  pass_time();
  auto g0 = now();
  auto const v1 = UTL_GET_TIMING_MS(a);
  check_value("UTL_GET_TIMING_MS", v1, 1000000, s0, s1, g0, now());
  pass_time();
  g0 = now();
  auto const v2 = UTL_GET_TIMING_US(a);
  check_value("UTL_GET_TIMING_US", v2, 1000, s0, s1, g0, now());
  pass_time();
  auto const r0 = now();
  UTL_STOP_TIMING(a);
  auto const r1 = now();
  pass_time();
  check_value("UTL_TIMING_MS", UTL_TIMING_MS(a), 1000000, s0, s1, r0, r1);
  check_value("UTL_TIMING_US", UTL_TIMING_US(a), 1000, s0, s1, r0, r1);
}

void check() {
  sim::quiet q;
  std::vector<bool> used(want.size());
  for (auto const& s : split_lines(sim::capture_text(out))) {
    auto const l = wall::parse_log(s);
    SIM_CHECK(l.ok, "garbled", "not a log line: '%s'", s.c_str());
    bool found = false, near = false;
    double t = -1;
    for (std::size_t i = 0; i < want.size() && !found; ++i) {
      auto const& w = want[i];
      if (used[i] || !l.text.starts_with(w.prefix)) { continue; }
      auto const tail = l.text.substr(w.prefix.size());
      if (!w.timed) {
        found = tail.empty() && wall::was(l.sec, w.from, w.to);
      } else {
        int n = 0;
        if (sscanf(tail.c_str(), " (%lfms)%n", &t, &n) != 1 ||
            static_cast<std::size_t>(n) != tail.size()) {
          continue;
        }
        near = true;
        double const eps = 0.0011 + 1e-5 * t;
        found = t >= static_cast<double>(w.lo) / 1e6 - eps &&
                t <= static_cast<double>(w.hi) / 1e6 + eps && wall::was(l.sec, w.from, w.to);
      }
      if (found) { used[i] = true; }
    }
    SIM_CHECK(found, near ? "wrong-duration" : "garbled", "%s: '%s'",
              near ? "no timer measured this" : "no timer wrote this", s.c_str());
  }
  for (std::size_t i = 0; i < want.size(); ++i) {
    SIM_CHECK(used[i], "line-lost", "no line '%s' (%.6f to %.6f ms)", want[i].prefix.c_str(),
              static_cast<double>(want[i].lo) / 1e6, static_cast<double>(want[i].hi) / 1e6);
  }
}

void one_thread() {
  wall::init(true);
  out = capture_stream(std::clog);
  for (auto k = 1 + sim::pick(4); k > 0; --k) {
    switch (sim::pick(3)) {
      case 0: scoped(2); break;
      case 1: manual(); break;
      case 2: macros(); break;
    }
  }
  check();
  sim::sample("[%zu reports, %zu clock jumps, %.3f s] ", want.size(), wall::jumps.size(),
              static_cast<double>(sim::mono_ns()) / 1e9);
}

void threads() {
  wall::init(true);
  out = capture_stream(std::clog);
  std::vector<std::thread> ts;
  for (auto k = 1 + sim::pick(2); k > 0; --k) {
    bool const m = sim::coin(1, 2);
    ts.emplace_back([m] { if (m) { manual(); } else { scoped(1); } });
  }
  scoped(1);
  for (auto& t : ts) { t.join(); }
  check();
}

}  // namespace

SIM_MAIN({"one_thread", one_thread}, {"one_thread2", one_thread}, {"threads", threads})
