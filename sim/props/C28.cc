// Names of threads: set by the thread itself and by others, at any moment.
#include <condition_variable>
#include <deque>
#include <mutex>
#include <optional>

#include "utl/set_thread_name.h"
#include "utl/thread_pool.h"

#include "common.h"

namespace {

constexpr std::size_t kLongest = 15;  // what the platform can hold

struct naming {
  std::string name;
  std::uint64_t begin{}, end{};  // end 0: running
  bool sure{true};  // nothing failed
};

std::uint64_t ticks;
std::map<int, std::vector<naming>> given;
std::map<int, std::vector<std::string>> inherited;

// no other thread has one like it, and it is as long as wanted
std::string fresh_name(int target) {
  static unsigned serial;
  sim::quiet q;
  switch (sim::pick(12)) {
    case 0: return "";
    case 1: return "x";
    case 2:
    case 3:  // once more, also one of another thread
      if (auto const& g = given[sim::coin(1, 2) ? target : static_cast<int>(sim::pick(5))]; !g.empty()) {
        return g[sim::pick(g.size())].name;
      }
      break;
  }
  auto s = std::to_string(++serial) + "/T" + std::to_string(target);
  switch (sim::pick(6)) {
    case 0: s.resize(kLongest, '-'); break;
    case 1: s.resize(kLongest - 1, '+'); break;
    case 2: s.resize(kLongest + 1, '*'); break;
    case 3: s.resize(kLongest + 2 + sim::pick(100), '='); break;
    case 4: s.insert(0, "a b "); break;
  }
  return s;
}

bool possible(naming const& n, std::string const& shown) {
  if (n.name.size() <= kLongest) { return n.name == shown; }
  return !shown.empty() && n.name.starts_with(shown);  // shortened
}

void check_name(int id, char const* when) {
  sim::quiet q;
  auto const shown = sim::thread_name(id);
  std::uint64_t last_sure = 0;  // begin of the last one that is certain
  for (auto const& n : given[id]) {
    if (n.end != 0 && n.sure && n.name.size() <= kLongest) { last_sure = std::max(last_sure, n.begin); }
  }
  bool ok = false;
  for (auto const& n : given[id]) {
    ok = ok || ((n.end == 0 || n.end > last_sure) && possible(n, shown));
  }
  if (last_sure == 0) {
    for (auto const& n : inherited[id]) { ok = ok || n == shown; }
  }
  if (!ok) {
    std::string all;
    for (auto const& n : given[id]) { all += " '" + n.name + "'" + (n.sure ? "" : "?"); }
    sim::violation("wrong-name", "%s: T%d is called '%s', it was given%s", when, id, shown.c_str(), all.c_str());
  }
}

// calls f(name) with the name held in different ways
template <typename Fn>
void with_name(std::string const& name, Fn&& f) {
  switch (sim::pick(4)) {
    case 0: f(name); break;
    case 1: f(std::string{name}); break;
    case 2: {
      auto arg = name;
      f(arg);
      for (auto& c : arg) { c = '#'; }
      break;
    }
    case 3: {
      auto const arg = std::make_unique<std::string>(name);
      f(arg->c_str());
      break;
    }
  }
}

void set(int target, std::thread* t) {
  std::string name;
  std::size_t at = 0;
  std::uint64_t faults = 0;
  {
    sim::quiet q;
    name = fresh_name(target);
    at = given[target].size();
    given[target].push_back({name, ++ticks});
    faults = sim::faults_fired(sim::F_OPEN);
    if (name.size() > kLongest) { sim::probe("a name that is too long"); }
  }
  with_name(name, [&](auto&& n) {
    if (t != nullptr) {
      utl::set_thread_name(*t, n);
    } else {
      utl::set_current_thread_name(n);
    }
  });
  sim::quiet q;
  auto& g = given[target][at];
  g.end = ++ticks;
  if (t != nullptr && sim::faults_fired(sim::F_OPEN) != faults) {
    g.sure = false;
    sim::probe("naming refused by the platform");
  }
}

void set_own(char const* when) {
  set(sim::self(), nullptr);
  check_name(sim::self(), when);
}

// what a thread may be called that this one starts now
std::vector<std::string> own_names() {
  sim::quiet q;
  auto v = inherited[sim::self()];
  for (auto const& n : given[sim::self()]) {
    for (std::size_t k = 1; k <= std::min(kLongest, n.name.size()); ++k) {
      if (n.name.size() > kLongest || k == n.name.size()) { v.push_back(n.name.substr(0, k)); }
    }
    if (n.name.empty()) { v.push_back(""); }
  }
  return v;
}

void begin() {
  sim::quiet q;
  inherited[sim::self()] = {sim::thread_name(sim::self())};
  sim::enable_faults(sim::coin(1, 2) ? sim::bit(sim::F_OPEN) : 0);
}

struct worker {
  std::optional<std::thread> t;
  int id{-1};
  unsigned steps{};
  bool first{};
  std::vector<std::string> inherit;
};

void threads() {
  begin();
  auto const n = 1 + sim::pick(4);
  std::deque<worker> ws(n);
  std::mutex m;
  std::condition_variable cv;
  unsigned started = 0, finished = 0;
  bool all_there = false, leave = false;

  auto const script = [&](std::size_t const me) {
    {
      std::unique_lock lk{m};
      ws[me].id = sim::self();
      {
        sim::quiet q;
        inherited[sim::self()] = ws[me].inherit;
      }
      ++started;
      cv.notify_all();
    }
    if (ws[me].first) { set_own("at its start"); }
    {
      std::unique_lock lk{m};
      cv.wait(lk, [&] { return all_there; });
    }
    for (unsigned i = 0; i < ws[me].steps; ++i) {
      auto const other = sim::pick(n + 1);
      if (other < n && other != me) {
        set(ws[other].id, &*ws[other].t);
      } else {
        set_own("after naming itself");
      }
      if (sim::coin(1, 4)) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
      check_name(sim::self(), "meanwhile");
    }
    std::unique_lock lk{m};
    ++finished;
    cv.notify_all();
    cv.wait(lk, [&] { return leave; });
  };

  for (std::size_t i = 0; i < n; ++i) {
    ws[i].steps = static_cast<unsigned>(sim::pick(5));
    ws[i].first = sim::coin(1, 2);
    if (sim::coin(1, 3)) { set_own("main"); }
    ws[i].inherit = own_names();
    ws[i].t.emplace(script, i);
    {
      std::unique_lock lk{m};
      cv.wait(lk, [&] { return started == i + 1; });
    }
    if (sim::coin(1, 3)) { set(ws[i].id, &*ws[i].t); }
  }
  {
    std::unique_lock lk{m};
    all_there = true;
    cv.notify_all();
  }
  for (auto k = sim::pick(5); k > 0; --k) {
    if (sim::coin(1, 3)) {
      set_own("main");
    } else {
      auto& w = ws[sim::pick(n)];
      set(w.id, &*w.t);
    }
  }
  {
    std::unique_lock lk{m};
    cv.wait(lk, [&] { return finished == n; });
    for (auto const& w : ws) { check_name(w.id, "in the end"); }
    check_name(0, "in the end");
    leave = true;
    cv.notify_all();
  }
  for (auto& w : ws) {
    // whether it has ended or not
    if (sim::coin(1, 3)) { set(w.id, &*w.t); }
    w.t->join();
  }
  check_name(0, "after the joins");
  sim::sample("[%zu threads, %u names] ", static_cast<std::size_t>(n), static_cast<unsigned>(ticks / 2));
}

// threads that live for a moment, named while they end
void short_lived() {
  begin();
  for (auto k = 1 + sim::pick(5); k > 0; --k) {
    if (sim::coin(1, 4)) { set_own("main"); }
    int id = -1;
    bool const self = sim::coin(1, 2);
    auto const inherit = own_names();
    auto t = std::thread{[&] {
      {
        sim::quiet q;
        inherited[sim::self()] = inherit;
        id = sim::self();
      }
      if (self) { set_own("a thread"); }
    }};
    auto moved = std::move(t);
    std::string name;
    {
      sim::quiet q;
      name = fresh_name(77);
    }
    if (!self) {
      with_name(name, [&](auto&& x) { utl::set_thread_name(moved, x); });
    }
    moved.join();
    check_name(0, "after a thread's end");
  }
}

// the usual place: the initializer of a pool's workers
void workers() {
  begin();
  auto procs = pick_processors();
  if (procs > 16) { sim::set_processors(procs = 16); }
  auto inherit = own_names();
  {
    auto pool = utl::thread_pool{[&] {
                                   {
                                     sim::quiet q;
                                     inherited[sim::self()] = inherit;
                                   }
                                   set_own("initializer");
                                 },
                                 [&] { check_name(sim::self(), "finalizer"); }};
    for (auto k = sim::pick(4); k > 0; --k) {
      bool const rename = sim::coin(1, 3);
      if (sim::coin(1, 3)) { set_own("main"); }
      pool.execute(sim::pick(12), [&](std::size_t const) {
        check_name(sim::self(), "job");
        if (rename) { set_own("job"); }
      });
      check_name(0, "after a round");
    }
  }
  check_name(0, "after the pool's end");
}

}  // namespace

SIM_MAIN({"threads", threads}, {"threads2", threads}, {"short_lived", short_lived}, {"workers", workers})
