// Workload shared by the parallel loop properties: one loop of any kind, with
// chosen failing jobs, and the complete history of what it did.
#pragma once

#include <deque>
#include <list>
#include <stdexcept>
#include <string_view>
#include <typeinfo>

#include "utl/parallel_for.h"

#include "common.h"

namespace loops {

struct job_error {
  std::size_t idx;
  int nonce;
};
struct update_error {
  std::size_t idx;
  int nonce;
};
// a user's exception type, caught by the caller as what it is
struct own_error : std::logic_error {
  own_error(char const* w, std::size_t i, bool u) : std::logic_error{w}, idx{i}, update{u} {}
  std::size_t idx;
  bool update;
};

enum entry { RUN, ELEM_VEC, ELEM_CONST_VEC, ELEM_LIST, LOGGED, THREADLOCAL };

struct spec {
  entry kind{RUN};
  std::size_t n{0};
  unsigned procs{0};
  utl::parallel_error_strategy strat{utl::parallel_error_strategy::QUIT_EXEC};
  bool default_strat{false};  // rely on the default argument
  bool with_progress{false};
  bool own_objects{false};  // callbacks are objects the caller keeps
  unsigned variant{0};  // of the container
  std::size_t mod{1};
  std::vector<unsigned char> throws;  // 0 no, 1 job_error, 2 runtime, 3 int, 4 shared, 5 own_error
  std::vector<unsigned char> update_throws;
  unsigned work{0};  // extra scheduling points inside a job
  bool sleepy{false};
  std::int64_t nap{1};
  bool no_memory{false};  // allocations fail while a failure is handled
  std::vector<unsigned char> state_throws;  // by number of construction
};

struct state_error {
  std::size_t number;
  int nonce;
};

struct job {
  unsigned starts{}, oks{}, fails{}, updates{};
  int worker{-1}, update_worker{-1};
  std::uint64_t started{}, ended{}, updated{};
};

struct tl_state;

struct tl_rec {
  int made_by{-1}, gone_by{-1};
  unsigned made{}, gone{};
  unsigned jobs{};
  bool copy{false};
  std::uint64_t born{}, last_job{}, died{};
  std::set<int> users;
};

struct history {
  std::vector<job> jobs;
  std::vector<unsigned> effect;  // written by the jobs without any locking
  std::vector<unsigned> update_effect;
  bool returned{false}, threw{false};
  utl::errors_t errors;
  std::exception_ptr thrown, shared;
  std::uint64_t end_seq{};
  std::map<int, std::uint64_t> failed_workers;  // worker -> seq of failure
  std::map<std::pair<int, int>, unsigned> after;  // (failed, other) -> starts
  std::vector<std::unique_ptr<tl_rec>> states;
  std::map<int, unsigned> worker_jobs;
  int main_thread{-1};
  std::uint64_t clock{};
  bool in_call{false};
  unsigned state_constructions{}, state_failures{};
  std::uint64_t alloc_faults{};  // during the call
};

inline history* g;
inline spec const* g_spec;

inline std::uint64_t tick() { return ++g->clock; }

struct tl_state {
  tl_state() {
    bool fail = false;
    std::size_t number = 0;
    sim::point();
    {
      sim::quiet q;
      number = g->state_constructions++;
      fail = number < g_spec->state_throws.size() && g_spec->state_throws[number];
      g->state_failures += fail;
    }
    if (fail) {
      sim::note_fault(sim::F_JOB_THROW);
      throw state_error{number, 7};
    }
    begin();
  }
  void begin() {
    sim::point();
    sim::quiet q;
    g->states.push_back(std::make_unique<tl_rec>());
    rec = g->states.back().get();
    rec->made_by = sim::self();
    rec->made++;
    rec->born = tick();
    SIM_CHECK(g->in_call, "late-state", "thread-local state made after the call");
    self = this;
  }
  ~tl_state() {
    sim::watch_allocs(false);
    sim::point();
    sim::quiet q;
    SIM_CHECK(self == this && rec != nullptr, "state-corrupt",
              "a thread-local state was destroyed that is not alive");
    rec->gone++;
    rec->gone_by = sim::self();
    rec->died = tick();
    SIM_CHECK(g->in_call, "late-state",
              "thread-local state destroyed after the call");
    SIM_CHECK(rec->gone == 1, "state-destroyed-twice",
              "a thread-local state was destroyed twice");
    self = nullptr;
  }
#ifdef SIM_PORTABLE
  tl_state(tl_state const& o) : jobs{o.jobs}, seen{o.seen} {
    begin();
    sim::quiet q;
    rec->copy = true;
  }
  tl_state& operator=(tl_state const& o) {
    jobs = o.jobs;
    seen = o.seen;
    return *this;
  }
#else
  tl_state(tl_state const&) = delete;
  tl_state& operator=(tl_state const&) = delete;
#endif

  tl_state* self{nullptr};
  tl_rec* rec{nullptr};
  unsigned jobs{0};  // plain data, changed by the jobs
  std::vector<std::size_t> seen;
};

inline void throw_it(unsigned char kind, std::size_t idx, bool update) {
  sim::note_fault(sim::F_JOB_THROW);
  sim::watch_allocs(g_spec->no_memory && kind != 2);
  switch (kind) {
    case 1:
      if (update) { throw update_error{idx, 7}; }
      throw job_error{idx, 7};
    case 2: {
      std::string m;
      {
        sim::quiet q;
        m = (update ? "update " : "job ") + std::to_string(idx);
      }
      throw std::runtime_error{m};
    }
    case 4: {  // one exception object for all
      std::exception_ptr e;
      {
        sim::quiet q;
        if (!g->shared) { g->shared = std::make_exception_ptr(job_error{~0U, 9}); }
        e = g->shared;
      }
      std::rethrow_exception(std::move(e));
    }
    case 5: {
      std::exception_ptr e;
      {
        sim::quiet q;
        e = std::make_exception_ptr(own_error{update ? "own update error" : "own job error", idx, update});
      }
      std::rethrow_exception(std::move(e));
    }
    default: throw static_cast<int>(idx) + (update ? 1000000 : 0);
  }
}

// is `e` the exception that job idx (or its progress update) threw?
inline bool is_error_of(std::exception_ptr const& e, std::size_t idx) {
  sim::quiet q;
  auto const& s = *g_spec;
  bool const upd = !(idx < s.throws.size() && s.throws[idx]);
  unsigned char const kind = upd ? (idx < s.update_throws.size()
                                        ? s.update_throws[idx]
                                        : 0)
                                 : s.throws[idx];
  if (!e || kind == 0) { return false; }
  try {
    std::rethrow_exception(e);
  } catch (job_error const& x) {
    if (x.nonce == 9) { return kind == 4; }
    return kind == 1 && !upd && x.idx == idx && x.nonce == 7;
  } catch (update_error const& x) {
    return kind == 1 && upd && x.idx == idx && x.nonce == 7;
  } catch (own_error const& x) {
    return kind == 5 && x.idx == idx && x.update == upd &&
           std::string_view{x.what()} == (upd ? "own update error" : "own job error");
  } catch (std::runtime_error const& x) {
    return kind == 2 && typeid(x) == typeid(std::runtime_error) &&
           x.what() == (upd ? "update " : "job ") + std::to_string(idx);
  } catch (int x) {
    return kind == 3 && x == static_cast<int>(idx) + (upd ? 1000000 : 0);
  } catch (...) {
    return false;
  }
}

inline void on_job(std::size_t idx) {
  sim::watch_allocs(false);
  {
    sim::quiet q;
    auto& h = *g;
    SIM_CHECK(h.in_call, "job-after-return", "job %zu runs outside the call", idx);
    SIM_CHECK(idx < h.jobs.size(), "job-out-of-range",
              "job %zu of %zu was run", idx, h.jobs.size());
    auto& j = h.jobs[idx];
    SIM_CHECK(j.starts == 0, "job-twice", "job %zu was run twice", idx);
    ++j.starts;
    j.worker = sim::self();
    j.started = tick();
    sim::event("job %zu", idx);
    if (g_spec->strat == utl::parallel_error_strategy::QUIT_EXEC) {
      SIM_CHECK(!h.failed_workers.contains(j.worker), "job-after-own-failure",
                "worker T%d runs job %zu after its earlier job failed",
                j.worker, idx);
      for (auto const& [w, s] : h.failed_workers) {
        if (sim::thread_ended(w)) {
          auto& n = h.after[{w, j.worker}];
          ++n;
          SIM_CHECK(n <= 1, "does-not-stop",
                    "worker T%d started %u jobs after T%d had failed and ended",
                    j.worker, n, w);
        }
      }
    }
  }
  for (unsigned i = 0; i < g_spec->work; ++i) { sim::point(); }
  if (g_spec->sleepy && idx % 3 == 1) {
    std::this_thread::sleep_for(std::chrono::milliseconds((idx % 7 + 1) * g_spec->nap));
  }
  ++g->effect[idx];  // plain write: exclusive to the job, visible to the caller
  bool const fail = idx < g_spec->throws.size() && g_spec->throws[idx] != 0;
  {
    sim::quiet q;
    auto& j = g->jobs[idx];
    j.ended = tick();
    if (fail) {
      ++j.fails;
      g->failed_workers.emplace(j.worker, j.ended);
    } else {
      ++j.oks;
    }
  }
  if (fail) { throw_it(g_spec->throws[idx], idx, false); }
}

inline void on_update(std::size_t idx) {
  sim::point();
  bool fail = false;
  {
    sim::quiet q;
    auto& h = *g;
    SIM_CHECK(h.in_call, "update-after-return",
              "progress update %zu outside the call", idx);
    SIM_CHECK(idx < h.jobs.size(), "update-out-of-range",
              "progress update %zu of %zu", idx, h.jobs.size());
    auto& j = h.jobs[idx];
    SIM_CHECK(j.oks == 1, "update-without-job",
              "progress update for job %zu, which did not complete", idx);
    SIM_CHECK(j.updates == 0, "update-twice", "second progress update for job %zu",
              idx);
    ++j.updates;
    j.update_worker = sim::self();
    j.updated = tick();
    SIM_CHECK(j.update_worker == j.worker, "update-wrong-worker",
              "job %zu ran on T%d, its progress update on T%d", idx, j.worker,
              j.update_worker);
    fail = idx < g_spec->update_throws.size() && g_spec->update_throws[idx];
    if (fail) { h.failed_workers.emplace(j.worker, j.updated); }
  }
  ++g->update_effect[idx];
  if (fail) { throw_it(g_spec->update_throws[idx], idx, true); }
}

struct elem {
  std::size_t idx;
  unsigned touched;
};

struct updater {
  void operator()(std::size_t i) const { on_update(i); }
};

// a callback that the caller keeps and looks at afterwards
struct counting {
  counting() = default;
  counting(counting const& o) : calls{o.calls.load(std::memory_order_relaxed)} {}
  void called() { calls.fetch_add(1, std::memory_order_relaxed); }
  void check(std::size_t const n, char const* what) const {
    auto const c = calls.load(std::memory_order_relaxed);
    sim::quiet q;
    SIM_CHECK(c == n, "effect-lost", "%s was called %zu times; the caller's object has seen %u calls", what, n, c);
  }
  std::atomic<unsigned> calls{0};
};
struct own_updater : counting {
  void operator()(std::size_t i) {
    called();
    on_update(i);
  }
};
struct own_job : counting {
  void operator()(elem& e) {
    called();
    ++e.touched;
    on_job(e.idx);
  }
  void operator()(elem const& e) {
    called();
    on_job(e.idx);
  }
};

// calls the entry point in the way the spec says
template <typename Call>
utl::errors_t with_args(spec const& s, Call&& call) {
  using utl::parallel_error_strategy;
  if (s.with_progress) {
    if (s.own_objects) {
      own_updater u;
      struct at_end {
        ~at_end() noexcept(false) {
          std::size_t n = 0;
          for (auto const& j : g->jobs) { n += j.updates; }
          u.check(n, "the progress callback");
        }
        own_updater& u;
      } const end{u};
      if (s.default_strat) { return call(u); }
      return call(u, s.strat);
    }
    if (s.default_strat) { return call(updater{}); }
    return call(updater{}, s.strat);
  }
  if (s.default_strat) { return call(); }
  return call(utl::noop_progress_update{}, s.strat);
}

// the loop over the elements of c, which the caller keeps
template <typename Container>
utl::errors_t over(spec const& s, Container& c, bool const rvalue = false) {
  std::size_t i = 0;
  std::vector<elem const*> at;
  for (auto& e : c) {
    const_cast<elem&>(e) = {i++, 0};
    sim::quiet q;
    at.push_back(&e);
  }
  struct at_end {
    ~at_end() noexcept(false) {
      std::size_t n = 0;
      for (std::size_t i = 0; i < at.size(); ++i) {
        n += g->jobs[i].starts;
        if (!std::is_const_v<Container> && !rvalue) {
          auto const t = at[i]->touched;
          SIM_CHECK(t == g->jobs[i].starts, "effect-lost", "element %zu was processed %u time(s), the caller's element %u time(s)", i,
                    g->jobs[i].starts, t);
        }
      }
      if (s.own_objects && !rvalue) { fn.check(n, "the function"); }
    }
    spec const& s;
    std::vector<elem const*>& at;
    own_job& fn;
    bool rvalue;
  };
  own_job fn;
  auto const* const where = &at;
  auto const job = [where](auto& e) {
    if constexpr (!std::is_const_v<std::remove_reference_t<decltype(e)>>) { ++e.touched; }
    {
      sim::quiet q;
      SIM_CHECK(e.idx < where->size() && (*where)[e.idx] == &e, "wrong-element", "the job for element %zu gets another object", e.idx);
    }
    on_job(e.idx);
  };
  at_end const end{s, at, fn, rvalue};
  return with_args(s, [&](auto&&... a) {
    if (rvalue) { return utl::parallel_for(std::move(c), job, std::forward<decltype(a)>(a)...); }
    if (s.own_objects) { return utl::parallel_for(c, fn, std::forward<decltype(a)>(a)...); }
    return utl::parallel_for(c, job, std::forward<decltype(a)>(a)...);
  });
}

// each mod-th job of the loop with a description is announced, by one line
inline void check_announced(spec const& s, history const& h, std::string const& log) {
  sim::quiet q;
  std::map<std::string, unsigned> lines;
  for (std::size_t b = 0, e; (e = log.find('\n', b)) != std::string::npos; b = e + 1) {
    auto const line = log.substr(b, e - b);
    auto const at = line.find("loop ");
    SIM_CHECK(at != std::string::npos, "wrong-line", "the loop logs '%.100s'", line.c_str());
    ++lines[line.substr(at)];
  }
  for (std::size_t i = 0; i < s.n; i += s.mod) {
    auto const want = "loop " + std::to_string(i) + "/" + std::to_string(s.n);
    auto const it = lines.find(want);
    auto const n = it == lines.end() ? 0U : it->second;
    SIM_CHECK(n == h.jobs[i].starts, "wrong-line", "job %zu ran %u time(s), '%s' is logged %u time(s)", i, h.jobs[i].starts,
              want.c_str(), n);
    if (it != lines.end()) { lines.erase(it); }
  }
  SIM_CHECK(lines.empty(), "wrong-line", "the loop logs '%.100s'", lines.begin()->first.c_str());
}

inline void execute(spec const& s, history& h) {
  g = &h;
  g_spec = &s;
  {
    sim::quiet q;
    h.main_thread = sim::self();
    h.jobs.assign(s.n, job{});
    h.effect.assign(s.n, 0);
    h.update_effect.assign(s.n, 0);
  }
  sim::event("loop kind %d, %zu jobs, %u processors, strategy %d", s.kind, s.n,
             s.procs, static_cast<int>(s.strat));
  h.in_call = true;
  h.alloc_faults = sim::faults_fired(sim::F_ALLOC);
  try {
    switch (s.kind) {
      case RUN:
        h.errors = with_args(s, [&](auto&&... a) {
          return utl::parallel_for_run(
              s.n, [](std::size_t const i) { on_job(i); },
              std::forward<decltype(a)>(a)...);
        });
        break;
      case THREADLOCAL:
        h.errors = with_args(s, [&](auto&&... a) {
          return utl::parallel_for_run_threadlocal<tl_state>(
              s.n,
              [](tl_state& t, std::size_t const i) {
                sim::watch_allocs(false);
                {
                  sim::quiet q;
                  SIM_CHECK(t.self == &t, "state-corrupt",
                            "job %zu got a state object that is not alive", i);
                  t.rec->users.insert(sim::self());
                  SIM_CHECK(t.rec->made_by == sim::self(), "state-shared",
                            "job %zu runs on T%d with a state made by T%d", i,
                            sim::self(), t.rec->made_by);
                  auto& earlier = g->worker_jobs[sim::self()];
                  SIM_CHECK(earlier == t.jobs && t.seen.size() == t.jobs,
                            "state-lost",
                            "job %zu: the state says %u earlier jobs, its worker "
                            "had %u", i, t.jobs, earlier);
                  ++earlier;
                }
                t.jobs += 1;
                t.seen.push_back(i);
                {
                  sim::quiet q;
                  t.rec->jobs++;
                  t.rec->last_job = tick();
                }
                on_job(i);
              },
              std::forward<decltype(a)>(a)...);
        });
        break;
      case ELEM_VEC:
        if (s.variant % 2 == 0) {
          std::vector<elem> v(s.n);
          h.errors = over(s, v);
        } else {
          std::deque<elem> v(s.n);
          h.errors = over(s, v);
        }
        break;
      case ELEM_CONST_VEC: {
        std::vector<elem> v(s.n);
        if (s.variant % 2 == 0) {
          h.errors = over(s, std::as_const(v));
        } else {
          h.errors = over(s, v, true);
        }
        break;
      }
      case ELEM_LIST: {
        std::list<elem> v(s.n);
        if (s.variant % 2 == 0) {
          h.errors = over(s, v);
        } else {
          h.errors = over(s, std::as_const(v));
        }
        break;
      }
      case LOGGED: {
        std::vector<elem> v(s.n);
        for (std::size_t i = 0; i < s.n; ++i) { v[i] = {i, 0}; }
        auto const before = sim::capture_size(std::clog.rdbuf());
        struct at_end {
          ~at_end() noexcept(false) {
            sim::quiet q;
            if (sim::faults_fired(sim::F_ALLOC) != h.alloc_faults) { return; }
            check_announced(s, h, sim::capture_text(std::clog.rdbuf()).substr(before));
          }
          spec const& s;
          history const& h;
          std::size_t before;
        } const end{s, h, before};
        h.errors = with_args(s, [&](auto&&... a) {
          return utl::parallel_for(
              std::string{"loop"}, v, s.mod,
              [&v](elem const& e) {
                SIM_CHECK(e.idx < v.size() && &v[e.idx] == &e, "wrong-element", "the job for element %zu gets another object", e.idx);
                on_job(e.idx);
              },
              std::forward<decltype(a)>(a)...);
        });
        break;
      }
    }
    h.returned = true;
  } catch (...) {
    h.threw = true;
    h.thrown = std::current_exception();
  }
  sim::quiet q;
  h.in_call = false;
  h.alloc_faults = sim::faults_fired(sim::F_ALLOC) - h.alloc_faults;
  h.end_seq = tick();
  sim::event("loop %s", h.threw ? "throws" : "returns");
  SIM_CHECK(sim::live_threads() == 0, "worker-left",
            "%u worker(s) still running when the call ended",
            sim::live_threads());
  for (std::size_t i = 0; i < s.n; ++i) {
    auto const& j = h.jobs[i];
    SIM_CHECK(j.starts == j.oks + j.fails, "job-unfinished",
              "job %zu was started but not finished when the call ended", i);
  }
}

// reading what the jobs wrote, as the caller does, without synchronisation
inline void check_effects(spec const& s, history& h) {
  for (std::size_t i = 0; i < s.n; ++i) {
    unsigned const e = h.effect[i];
    SIM_CHECK(e == h.jobs[i].starts, "effect-lost",
              "job %zu ran %u time(s), its effect is seen %u time(s)", i,
              h.jobs[i].starts, e);
  }
}

inline void check_all_ran(spec const& s, history& h) {
  for (std::size_t i = 0; i < s.n; ++i) {
    SIM_CHECK(h.jobs[i].starts == 1, "job-lost", "job %zu of %zu was not run", i,
              s.n);
  }
}

inline spec pick_spec(bool allow_big) {
  spec s;
  s.kind = static_cast<entry>(sim::pick(6));
  s.procs = pick_processors();
  bool const big = allow_big && sim::pick(150) == 149;
  s.n = big ? sim::pick_size(70000) : sim::pick_size(s.procs > 16 ? 300 : 120);
  if (s.kind == ELEM_LIST && s.n > 400) { s.n %= 400; }  // quadratic walk
  if (big) {
    sim::sync_points_only(true);
    sim::set_step_limit(200000000);
    sim::probe("big loop");
  }
  s.work = big ? 0 : static_cast<unsigned>(sim::pick(4));
  s.sleepy = !big && sim::pick(6) == 5;
  if (s.sleepy) { s.nap = pick_nap(); }
  s.default_strat = sim::coin(1, 2);
  s.with_progress = sim::coin(1, 3);
  s.own_objects = sim::coin(1, 4);
  s.variant = static_cast<unsigned>(sim::pick(2));
  s.mod = 1 + sim::pick(5);
  return s;
}

}  // namespace loops
