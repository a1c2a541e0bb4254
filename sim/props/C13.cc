// What the terminal shows, judged by a small terminal emulator.
#include "utl/progress_tracker.h"

#include "screen.h"

namespace {

using namespace screen;

char const* const names[] = {"osm", "timetable", "b", "a name of some length", "hrd"};
char const* const words[] = {"waiting", "load", "longer status text, not inline", "done"};

void work(std::uint64_t seed, std::uint64_t k, unsigned id) {
  auto const own = utl::activate_progress_tracker(std::string{names[seed % 5]});
  own->status(words[id % 4]);
  // the last call must be a change, so that this tracker is on the screen
  for (std::uint64_t i = 0; i < k; ++i) {
    auto const t = (seed + i) % 3 == 0 ? utl::get_active_progress_tracker_or_activate(names[seed % 5])
                                       : own;
    switch ((seed * 5 + i * 7) % 8) {
      case 0: t->increment(1 + seed % 50); break;
      case 1: t->update_monotonic((seed * 31 + i * 17) % 120); break;
      case 2: t->status(words[(seed + i) % 4]); break;
      case 3: t->show_progress((seed + i) % 2 == 0).status(words[i % 4]); break;
      case 4: utl::get_global_progress_trackers().get_tracker(names[(seed + i) % 5])->increment(3); break;
      case 5: t->increment(); break;
      case 6: t->show_progress((seed + i) % 4 < 2); break;
      case 7: t->show_progress(false).status(""); break;
    }
  }
}

struct plan {
  std::uint64_t seed, k;
};
std::vector<plan> pick_plans(std::uint64_t n) {
  std::vector<plan> p(n);
  for (auto& x : p) { x = {sim::pick(1000), sim::pick(5)}; }
  return p;
}

void run_workers(std::vector<plan> const& p, bool here) {
  std::vector<std::thread> ts;
  for (std::size_t i = here ? 1 : 0; i < p.size(); ++i) {
    ts.emplace_back([&p, i] { work(p[i].seed, p[i].k, static_cast<unsigned>(i)); });
  }
  if (here) { work(p[0].seed, p[0].k, 0); }
  for (auto& t : ts) { t.join(); }
}

// updates and registrations, in phases with a clear in between
void updates() {
  out = capture_stream(std::cout);
  capture_stream(std::clog);
  {
    utl::global_progress_bars const bars{};
    auto const phases = 1 + sim::pick(3);
    std::size_t above = 0;
    for (std::uint64_t ph = 0; ph < phases; ++ph) {
      auto const p = pick_plans(1 + sim::pick(3));
      run_workers(p, true);
      // all calls have returned
      utl::get_active_progress_tracker()->status("phase " + std::to_string(ph));
      check_screen(above, true, "after the updates");
      sim::sample("[%zu threads, %zu trackers] ", p.size(),
                  utl::get_global_progress_trackers().trackers_.size());
      if (ph + 1 < phases) {
        utl::get_global_progress_trackers().clear();
        above = screen_rows();
      }
    }
  }
  auto const n = sim::capture_size(out);
  utl::activate_progress_tracker(std::string{"later"})->increment(50);
  SIM_CHECK(sim::capture_size(out) == n, "written-while-off", "output after the display ended");
}

// trackers that all exist before: their updates alone bring the screen up to date
void updates_only() {
  out = capture_stream(std::cout);
  capture_stream(std::clog);
  utl::global_progress_bars const bars{};
  auto const n = 1 + sim::pick(4);
  std::vector<utl::progress_tracker_ptr> ts;
  for (std::uint64_t i = 0; i < n; ++i) {
    ts.push_back(utl::get_global_progress_trackers().get_tracker(names[i]));
  }
  std::vector<std::thread> th;
  auto const w = 1 + sim::pick(3);
  for (std::uint64_t i = 0; i < w; ++i) {
    auto const k = 1 + sim::pick(5), s = sim::pick(100);
    th.emplace_back([&, k, s, i] {
      for (std::uint64_t j = 0; j < k; ++j) {
        auto& t = *ts[(s + j) % n];
        switch ((s + j * 3 + i) % 4) {
          case 0: t.increment(10 + j); break;
          case 1: t.status(words[(s + j) % 4]); break;
          case 2: t.update_monotonic(20 * j + s % 30); break;
          case 3: t.increment(); break;
        }
      }
    });
  }
  for (auto& t : th) { t.join(); }
  bool any = false;
  for (auto const& t : ts) { any |= t->out_ != 0.F || !t->status_.empty(); }
  if (any) { check_screen(0, true, "after the updates"); }
}

// clear at any moment
void clearing() {
  out = capture_stream(std::cout);
  capture_stream(std::clog);
  {
    utl::global_progress_bars const bars{};
    auto const p = pick_plans(1 + sim::pick(3));
    auto const k = 1 + sim::pick(2);
    std::thread t{[&] {
      for (std::uint64_t i = 0; i < k; ++i) {
        for (unsigned j = 0; j < 4; ++j) { sim::point(); }
        utl::get_global_progress_trackers().clear();
      }
    }};
    run_workers(p, true);
    t.join();
    utl::activate_progress_tracker(std::string{"last"})->status("all done");
    check_screen(0, false, "after clears and updates");
    sim::probe("cleared during updates");
  }
}

// switching the display off while others go on
void switching() {
  out = capture_stream(std::cout);
  capture_stream(std::clog);
  bool const outer_silent = sim::coin(1, 2);
  auto const p = pick_plans(1 + sim::pick(3));
  std::atomic_bool go{false};
  std::vector<std::thread> ts;
  for (std::size_t i = 0; i < p.size(); ++i) {
    ts.emplace_back([&p, i] { work(p[i].seed, p[i].k + 2, static_cast<unsigned>(i)); });
  }
  std::size_t n = 0;
  if (outer_silent) {  // on for a while, then off
    {
      utl::global_progress_bars const bars{};
      for (auto k = sim::pick(30); k > 0; --k) { sim::point(); }
    }
    n = sim::capture_size(out);
    if (n != 0) { sim::probe("switched off while updates go on"); }
  } else {  // a silent section within a display
    auto on = std::make_unique<utl::global_progress_bars>();
    for (auto k = sim::pick(10); k > 0; --k) { sim::point(); }
    {
      utl::global_progress_bars const off{true};
      n = sim::capture_size(out);
      for (auto k = sim::pick(30); k > 0; --k) { sim::point(); }
      SIM_CHECK(sim::capture_size(out) == n, "written-while-off",
                "%zu bytes were written while the display was off",
                sim::capture_size(out) - n);
    }
    on.reset();
    n = sim::capture_size(out);
  }
  for (auto& t : ts) { t.join(); }
  SIM_CHECK(sim::capture_size(out) == n, "written-while-off",
            "%zu bytes were written after the display was switched off",
            sim::capture_size(out) - n);
}

// displays within displays: each restores what was before, and leaves no tracker behind
void nested() {
  out = capture_stream(std::cout);
  capture_stream(std::clog);
  struct level {
    std::unique_ptr<utl::global_progress_bars> bars;
    bool silent;
  };
  std::vector<level> stack;
  auto const silent = [&] { return stack.empty() || stack.back().silent; };
  std::size_t above = 0;
  unsigned serial = 0;
  auto const update = [&](char const* when) {
    auto const before = sim::capture_size(out);
    auto const i = sim::pick(5);
    auto const t = sim::coin(1, 2) ? utl::activate_progress_tracker(std::string{names[i]})
                                   : utl::get_global_progress_trackers().get_tracker(names[i]);
    t->status("update " + std::to_string(++serial));
    if (silent()) {
      SIM_CHECK(sim::capture_size(out) == before, "written-while-off", "%s: output while the display is off", when);
    } else {
      check_screen(above, true, when);
    }
  };
  for (auto n = 4 + sim::pick(10); n > 0; --n) {
    switch (sim::pick(4)) {
      case 0:
        if (stack.size() < 4) {
          bool const s = sim::coin(1, 2);
          sim::event("display %s", s ? "off" : "on");
          stack.push_back({std::make_unique<utl::global_progress_bars>(s), s});
        }
        break;
      case 1:
        if (!stack.empty()) {
          sim::event("display ends");
          std::vector<utl::progress_tracker_ptr> old;
          for (auto const* const x : names) { old.push_back(utl::get_global_progress_trackers().get_tracker(x)); }
          auto const before = sim::capture_size(out);
          stack.pop_back();
          SIM_CHECK(sim::capture_size(out) == before || !silent(), "written-while-off", "ending a display writes something");
          above = screen_rows();
          bool none = false;
          try {
            utl::get_active_progress_tracker();
          } catch (std::exception const&) { none = true; }
          SIM_CHECK(none, "not-cleared", "a tracker is active after the display has ended");
          for (auto k = 0U; k != old.size(); ++k) {
            // while the display is off: a look-up registers, and shows nothing
            if (sim::coin(1, 2)) {
              SIM_CHECK(utl::get_global_progress_trackers().get_tracker(names[k]) != old[k], "not-cleared",
                        "a tracker is still registered after the display has ended");
            }
          }
        }
        break;
      default: update("in a nested display"); break;
    }
  }
  while (!stack.empty()) {
    update("before the end of a display");
    stack.pop_back();
    above = screen_rows();
    update("after the end of a display");
  }
}

// displays of any height, names and texts of any kind
void many() {
  out = capture_stream(std::cout);
  capture_stream(std::clog);
  static std::uint64_t const sizes[] = {1, 2, 6, 8, 9, 10, 10, 11, 12, 13, 16, 24, 101};
  static char const* const texts[] = {
      "", "{}", "100% of {0}", "%s %n %d", "M\xc3\xbcnchen \xe2\x86\x92 Z\xc3\xbcrich", "a | b",
      "x [####  ] 12%", "\\x1b[2A", "x"};
  auto const n = sizes[sim::pick(13)];
  auto const text = [&]() -> std::string {
    if (sim::coin(1, 8)) { return std::string(1 + sim::pick_size(300), 'y'); }
    return texts[sim::pick(9)];
  };
  auto const name = [](std::uint64_t i) {
    return (i % 3 == 0 ? "n" : i % 3 == 1 ? "{}" : "%s step ") + std::to_string(i * 7919 % 1000) +
           std::string(i % 5 == 4 ? i % 40 : 0, '+');
  };
  {
    utl::global_progress_bars const bars{};
    std::vector<utl::progress_tracker_ptr> ts;
    for (std::uint64_t i = 0; i < n; ++i) {
      ts.push_back(utl::get_global_progress_trackers().get_tracker(name(i)));
      if (sim::coin(1, 8)) {
        ts.back()->out_bounds(static_cast<float>(sim::pick(50)), static_cast<float>(50 + sim::pick(51)))
            .in_high(1 + sim::pick_size(1200));
      }
    }
    auto const body = [&](std::uint64_t seed, std::uint64_t k, std::vector<std::string> const& txt) {
      for (std::uint64_t j = 0; j < k; ++j) {
        auto& t = *ts[(seed * 31 + j * 17) % ts.size()];
        switch ((seed + j * 5) % 7) {
          case 0: t.increment(10 + j); break;
          case 1: t.status(txt[j]); break;
          case 2: t.update_monotonic(20 * j + seed % 30); break;
          case 3: t.update(500 + j); break;
          case 4: t.status(txt[j]).show_progress(false); break;
          case 5: t.show_progress(seed % 2 == 0); break;
          case 6: t.update(1000); break;
        }
      }
    };
    std::vector<std::thread> th;
    auto const w = 1 + sim::pick(2);
    struct job {
      std::uint64_t seed, k;
      std::vector<std::string> txt;
    };
    std::vector<job> jobs(w);
    for (auto& x : jobs) {
      x.seed = sim::pick(1000);
      x.k = 1 + sim::pick(n > 40 ? 3 : 8);
      for (std::uint64_t j = 0; j < x.k; ++j) { x.txt.push_back(text()); }
    }
    auto const grow = n < 40 && sim::coin(1, 3);
    for (std::size_t i = 1; i < jobs.size(); ++i) {
      th.emplace_back([&, i] { body(jobs[i].seed, jobs[i].k, jobs[i].txt); });
    }
    body(jobs[0].seed, jobs[0].k, jobs[0].txt);
    for (auto& t : th) { t.join(); }
    ts[sim::pick(n)]->status("all {} done");
    ts[sim::pick(n)]->status("all {} really done");
    check_screen(0, true, "after the updates");
    if (grow) {  // the display gets higher
      auto const more = 1 + sim::pick(4);
      for (std::uint64_t i = 0; i < more; ++i) {
        utl::activate_progress_tracker("z" + std::to_string(i))->status(texts[sim::pick(8) + 1]);
        check_screen(0, true, "after another tracker was added");
      }
    }
    sim::sample("[%zu trackers] ", utl::get_global_progress_trackers().trackers_.size());
    if (n >= 10) { sim::probe("ten lines or more"); }
  }
}

// never switched on
void off() {
  out = capture_stream(std::cout);
  capture_stream(std::clog);
  auto const p = pick_plans(1 + sim::pick(3));
  if (sim::coin(1, 2)) {
    utl::global_progress_bars const bars{true};
    run_workers(p, true);
  } else {
    run_workers(p, true);
    utl::get_global_progress_trackers().print();
  }
  SIM_CHECK(sim::capture_size(out) == 0, "written-while-off", "output while the display is off");
}

}  // namespace

SIM_MAIN({"updates", updates}, {"updates2", updates}, {"updates_only", updates_only},
         {"clearing", clearing}, {"switching", switching}, {"nested", nested}, {"many", many}, {"off", off})
