// The registry of trackers: recorded histories must be linearisable.
#include "utl/progress_tracker.h"

#include "common.h"

namespace {

enum kind { GET, ACTIVATE, ACTIVATE_PTR, ACTIVE, GET_OR_ACTIVATE, CLEAR };

struct op {
  kind k;
  int name{0};
  void* arg{nullptr};
  void* result{nullptr};  // nullptr: threw
  bool oom{false};
  std::uint64_t begin{0}, end{0};
  int thread{0};
};

constexpr int NAMES = 3;
char const* const names[NAMES] = {"alpha", "beta", "a name that is longer than inline"};

struct model {
  std::array<void*, NAMES> map{};
  void* active{nullptr};
  std::set<void*> known;  // every tracker that exists before or was made
};

bool apply(model& m, op const& o) {
  auto const look_up = [&](int n) {
    if (m.map[n] != nullptr) { return m.map[n] == o.result; }
    if (o.result == nullptr || m.known.contains(o.result)) { return false; }
    m.map[n] = o.result;
    m.known.insert(o.result);
    return true;
  };
  if (o.oom) { return true; }  // no effect
  switch (o.k) {
    case GET: return look_up(o.name);
    case ACTIVATE:
      if (!look_up(o.name)) { return false; }
      m.active = o.result;
      return true;
    case ACTIVATE_PTR:
      if (o.result != o.arg) { return false; }
      m.active = o.arg;
      return true;
    case ACTIVE: return o.result == m.active;
    case GET_OR_ACTIVATE:
      if (m.active != nullptr) { return o.result == m.active; }
      if (!look_up(o.name)) { return false; }
      m.active = o.result;
      return true;
    case CLEAR:
      m.map = {};
      m.active = nullptr;
      return true;
  }
  return false;
}

struct checker {
  std::vector<op> const& h;
  std::set<std::string> dead;

  bool search(std::uint64_t done, model const& m) {
    if (done == (1ULL << h.size()) - 1) { return true; }
    std::string key;
    auto const put = [&](void const* p) {
      key.append(reinterpret_cast<char const*>(&p), sizeof p);
    };
    key.append(reinterpret_cast<char const*>(&done), sizeof done);
    for (auto* p : m.map) { put(p); }
    put(m.active);
    if (dead.contains(key)) { return false; }
    std::uint64_t first_end = ~0ULL;
    for (std::size_t i = 0; i < h.size(); ++i) {
      if (!(done >> i & 1)) { first_end = std::min(first_end, h[i].end); }
    }
    for (std::size_t i = 0; i < h.size(); ++i) {
      if ((done >> i & 1) || h[i].begin > first_end) { continue; }
      auto n = m;
      if (apply(n, h[i]) && search(done | 1ULL << i, n)) { return true; }
    }
    dead.insert(key);
    return false;
  }
};

struct recorder {
  std::vector<op> h;
  std::vector<utl::progress_tracker_ptr> keep;  // addresses are not reused
  std::uint64_t clock{0};

  std::size_t begin(kind k, int name, void* arg) {
    sim::quiet q;
    static char const* const text[] = {"get", "activate", "activate object", "active",
                                       "get or activate", "clear"};
    sim::event("%s %s", text[k], k == GET || k == ACTIVATE || k == GET_OR_ACTIVATE ? names[name] : "");
    h.push_back({k, name, arg, nullptr, false, ++clock, ~0ULL, sim::self()});
    return h.size() - 1;
  }
  void end(std::size_t i, utl::progress_tracker_ptr const& p, bool oom) {
    sim::quiet q;
    h[i].result = p.get();
    h[i].oom = oom;
    h[i].end = ++clock;
    sim::event("returns %s", oom ? "bad_alloc" : p ? "a tracker" : "nothing");
    if (p) { keep.push_back(p); }
  }
};

utl::progress_tracker_ptr run_op(recorder& r, kind k, int name,
                                 utl::progress_tracker_ptr const& arg) {
  auto const i = r.begin(k, name, arg.get());
  utl::progress_tracker_ptr p;
  bool oom = false;
  sim::watch_allocs(true);
  try {
    switch (k) {
      case GET: p = utl::get_global_progress_trackers().get_tracker(names[name]); break;
      case ACTIVATE: p = utl::activate_progress_tracker(std::string{names[name]}); break;
      case ACTIVATE_PTR: p = utl::activate_progress_tracker(arg); break;
      case ACTIVE: p = utl::get_active_progress_tracker(); break;
      case GET_OR_ACTIVATE:
        p = utl::get_active_progress_tracker_or_activate(names[name]);
        break;
      case CLEAR: utl::get_global_progress_trackers().clear(); break;
    }
    SIM_CHECK(k == CLEAR || p != nullptr, "null-tracker", "a null tracker was returned");
  } catch (std::bad_alloc const&) { oom = true; } catch (std::runtime_error const&) {
    SIM_CHECK(k == ACTIVE, "throws", "a registry call threw");
  }
  sim::watch_allocs(false);
  r.end(i, p, oom);
  return p;
}

void check(recorder& r) {
  sim::quiet q;
  checker c{r.h, {}};
  SIM_CHECK(c.search(0, model{}), "not-linearisable",
            "no order of the %zu calls explains what they returned", r.h.size());
  bool cleared = false, none = false, oom = false;
  for (auto const& o : r.h) {
    cleared |= o.k == CLEAR;
    none |= o.k == ACTIVE && o.result == nullptr;
    oom |= o.oom;
  }
  if (cleared) { sim::probe("cleared while in use"); }
  if (none) { sim::probe("no active tracker"); }
  if (oom) { sim::probe("call failed for lack of memory"); }
  if (c.dead.size() > 20) { sim::probe("history with many candidate orders"); }
}

void client(recorder& r, std::uint64_t k, std::vector<std::uint64_t> const& plan, bool use) {
  utl::progress_tracker_ptr mine;
  for (std::uint64_t i = 0; i < k; ++i) {
    auto const v = plan[i];
    auto kd = static_cast<kind>(v % 16 < 4    ? GET
                                : v % 16 < 7  ? ACTIVATE
                                : v % 16 < 9  ? ACTIVATE_PTR
                                : v % 16 < 11 ? ACTIVE
                                : v % 16 < 15 ? GET_OR_ACTIVATE
                                              : CLEAR);
    if (kd == ACTIVATE_PTR && mine == nullptr) { kd = GET; }
    auto p = run_op(r, kd, static_cast<int>(v / 16 % NAMES), mine);
    if (p) { mine = std::move(p); }
    if (use && mine) {  // also after it was cleared by somebody
      mine->increment();
    }
  }
}

std::vector<std::uint64_t> pick_plan(std::uint64_t k) {
  std::vector<std::uint64_t> p(k);
  for (auto& x : p) { x = sim::pick(48); }
  return p;
}

void registry(bool faults) {
  recorder r;
  capture_stream(std::clog);
  auto const n = 2 + sim::pick(3);
  bool const use = sim::coin(1, 3);
  if (faults) {
    sim::enable_faults(sim::bit(sim::F_ALLOC));
  }
  std::vector<std::thread> ts;
  for (std::uint64_t i = 1; i < n; ++i) {
    auto const k = 1 + sim::pick(4);
    auto const plan = pick_plan(k);
    ts.emplace_back([&, k, plan] { client(r, k, plan, use); });
  }
  auto const k = 1 + sim::pick(4);
  auto const plan = pick_plan(k);
  client(r, k, plan, use);
  for (auto& t : ts) { t.join(); }
  sim::enable_faults(0);
  // what the registry holds afterwards belongs to the history too
  for (int i = 0; i < NAMES; ++i) { run_op(r, GET, i, nullptr); }
  run_op(r, ACTIVE, 0, nullptr);
  check(r);
  sim::sample("[%zu threads, %zu calls] ", static_cast<std::size_t>(n), r.h.size());
}

void histories() { registry(false); }
void out_of_memory() { registry(true); }

// nothing active: everybody gets the same one
void get_or_activate() {
  recorder r;
  capture_stream(std::clog);
  auto const n = 2 + sim::pick(4);
  std::vector<utl::progress_tracker_ptr> got(n);
  std::vector<std::thread> ts;
  bool const same = sim::coin(1, 2);
  for (std::uint64_t i = 1; i < n; ++i) {
    ts.emplace_back([&, i] {
      got[i] = run_op(r, GET_OR_ACTIVATE, same ? 0 : static_cast<int>(i % NAMES), nullptr);
    });
  }
  got[0] = run_op(r, GET_OR_ACTIVATE, 0, nullptr);
  for (auto& t : ts) { t.join(); }
  for (auto const& g : got) {
    SIM_CHECK(g == got[0], "two-active", "concurrent get-or-activate calls returned two trackers");
  }
  check(r);
}

// nobody but the registry holds the trackers: it keeps them alive
void unowned() {
  capture_stream(std::clog);
  struct own {
    bool alive{false};
    unsigned callbacks{0};
  };
  std::array<own, 4> made;  // trackers that are in no registry
  int active = -1;  // index into `made`; -2: one of the registry
  void* active_ptr = nullptr;
  std::map<int, std::string> status;
  auto const steps = 1 + sim::pick_size(20);
  sim::sample("[%zu calls] ", static_cast<std::size_t>(steps));
  unsigned n_made = 0;
  for (std::uint64_t s = 0; s < steps; ++s) {
    switch (sim::pick(8)) {
      case 0:
      case 1:
        if (n_made < made.size()) {
          auto& o = made[n_made];
          o.alive = true;
          auto* const t = new utl::progress_tracker{[&o](auto&) { ++o.callbacks; }};
          utl::activate_progress_tracker(utl::progress_tracker_ptr{t, [&o](utl::progress_tracker* p) {
            o.alive = false;
            delete p;
          }});
          active = static_cast<int>(n_made++);
          active_ptr = t;
        }
        break;
      case 2: {
        auto const n = static_cast<int>(sim::pick(NAMES));
        active_ptr = utl::activate_progress_tracker(std::string{names[n]}).get();
        active = -2;
        break;
      }
      case 3: {
        auto const n = static_cast<int>(sim::pick(NAMES));
        auto const t = utl::get_active_progress_tracker_or_activate(names[n]);
        if (active == -1) {
          active = -2;
          active_ptr = t.get();
        }
        SIM_CHECK(t.get() == active_ptr, "wrong-active", "get-or-activate: not the tracker activated last");
        break;
      }
      case 4: {  // its state is kept, too
        auto const n = static_cast<int>(sim::pick(NAMES));
        auto const t = utl::get_global_progress_trackers().get_tracker(names[n]);
        {
          std::lock_guard<std::mutex> const l{t->mutex_};
          SIM_CHECK(t->status_ == status[n], "tracker-lost", "the tracker has status '%s', '%s' was set", t->status_.c_str(), status[n].c_str());
        }
        t->status(status[n] = std::to_string(s));
        break;
      }
      case 5:
        if (sim::coin(1, 3)) {
          utl::get_global_progress_trackers().clear();
          active = -1;
          status.clear();
        }
        break;
      default: {
        utl::progress_tracker_ptr t;
        try {
          t = utl::get_active_progress_tracker();
        } catch (std::runtime_error const&) {}
        SIM_CHECK((t != nullptr) == (active != -1), "wrong-active", t ? "there is an active tracker" : "there is no active tracker");
        SIM_CHECK(!t || t.get() == active_ptr, "wrong-active", "not the tracker activated last");
        if (active >= 0) {
          auto const before = made[static_cast<unsigned>(active)].callbacks;
          t->status(t->status_ + ".");
          SIM_CHECK(made[static_cast<unsigned>(active)].callbacks == before + 1, "wrong-active", "the active tracker does not call its callback");
          sim::probe("active tracker that only the registry holds");
        }
        break;
      }
    }
    if (active >= 0) {
      SIM_CHECK(made[static_cast<unsigned>(active)].alive, "tracker-lost", "the active tracker was destroyed");
    }
  }
  utl::get_global_progress_trackers().clear();
}

}  // namespace

SIM_MAIN({"histories", histories}, {"histories2", histories},
         {"get_or_activate", get_or_activate}, {"out_of_memory", out_of_memory},
         {"unowned", unowned})
