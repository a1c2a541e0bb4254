// Workload shared by the thread pool properties.
#pragma once

#include <deque>
#include <optional>

#include "utl/thread_pool.h"

#include "common.h"

namespace pool {

struct worker {
  unsigned inits{}, finals{}, jobs{};
  bool in_init{}, in_final{}, in_job{};
};

enum outcome { OPEN, DONE, REJECTED };

struct round {
  std::size_t id{}, n{};
  std::vector<unsigned> starts, ends;
  std::vector<unsigned> effect;  // plain memory, written by the jobs
  std::uint64_t begin{}, end{};
  outcome out{OPEN};
  bool in_call{};
  int submitter{};
  bool nested{};
  unsigned work{};
  bool sleepy{};
  std::int64_t nap{1};
};

struct world {
  unsigned procs{};
  unsigned init_work{}, final_work{};
  bool init_sleep{};
  std::map<int, worker> workers;
  std::map<int, unsigned> init_effect, final_effect;
  std::deque<round> rounds;
  std::uint64_t clock{};
  bool alive{};  // between start of construction and end of destruction
  bool closing{};
  std::size_t max_procs{24};

  world();
  std::uint64_t tick() { return ++clock; }

  void on_init() {
    {
      sim::quiet q;
      SIM_CHECK(alive, "init-outside", "initializer outside the pool's life");
      auto& w = workers[sim::self()];
      SIM_CHECK(++w.inits == 1, "init-twice", "T%d ran the initializer twice",
                sim::self());
      SIM_CHECK(w.jobs == 0 && w.finals == 0, "init-late",
                "T%d ran the initializer late", sim::self());
      w.in_init = true;
      sim::event("initializer");
    }
    for (unsigned i = 0; i < init_work; ++i) { sim::point(); }
    if (init_sleep) {
      std::this_thread::sleep_for(std::chrono::milliseconds(5));
    }
    sim::quiet q;
    workers[sim::self()].in_init = false;
  }

  void on_final() {
    {
      sim::quiet q;
      SIM_CHECK(alive, "final-outside", "finalizer outside the pool's life");
      SIM_CHECK(workers.contains(sim::self()), "final-foreign",
                "finalizer on T%d, which is no worker", sim::self());
      auto& w = workers[sim::self()];
      SIM_CHECK(w.inits == 1 && !w.in_init && !w.in_job, "final-early",
                "T%d ran the finalizer early", sim::self());
      SIM_CHECK(++w.finals == 1, "final-twice", "T%d ran the finalizer twice",
                sim::self());
      w.in_final = true;
      sim::event("finalizer");
    }
    for (unsigned i = 0; i < final_work; ++i) { sim::point(); }
    sim::quiet q;
    workers[sim::self()].in_final = false;
  }

  void on_job(round& r, std::size_t idx) {
    {
      sim::quiet q;
      SIM_CHECK(alive, "job-outside", "job outside the pool's life");
      SIM_CHECK(r.in_call, "job-outside-round",
                "round %zu: job %zu runs although the round %s", r.id, idx,
                r.out == REJECTED ? "was rejected" : "has returned");
      SIM_CHECK(idx < r.n, "job-out-of-range", "round %zu: job %zu of %zu was run",
                r.id, idx, r.n);
      SIM_CHECK(++r.starts[idx] == 1, "job-twice",
                "round %zu: job %zu was run twice", r.id, idx);
      SIM_CHECK(workers.contains(sim::self()), "job-foreign",
                "round %zu: job %zu runs on T%d, which is no worker", r.id, idx,
                sim::self());
      auto& w = workers[sim::self()];
      SIM_CHECK(w.inits == 1 && !w.in_init, "job-before-init",
                "T%d runs a job before its initializer is done", sim::self());
      SIM_CHECK(w.finals == 0, "job-after-final",
                "T%d runs a job after its finalizer", sim::self());
      w.in_job = true;
      ++w.jobs;
      sim::event("round %zu job %zu", r.id, idx);
    }
    for (unsigned i = 0; i < r.work; ++i) { sim::point(); }
    if (r.sleepy && idx % 3 == 0) {
      std::this_thread::sleep_for(std::chrono::milliseconds((idx % 5 + 1) * r.nap));
    }
    ++r.effect[idx];
  }
  void job_done(round& r, std::size_t idx) {
    sim::quiet q;
    ++r.ends[idx];
    workers[sim::self()].in_job = false;
  }
};

inline world* g;
inline world::world() { g = this; }

inline unsigned procs() {
  auto p = pick_processors();
  if (p > 24) { sim::set_processors(p = 24); }
  return p;
}

struct instance {
  explicit instance(world& w) : w_{w} {
    {
      sim::quiet q;
      w.alive = true;
    }
    w.procs = std::thread::hardware_concurrency();
    switch (sim::pick(3)) {
      case 0:
        p_.emplace([&w] { w.on_init(); }, [&w] { w.on_final(); });
        break;
      default:
        w.init_work = static_cast<unsigned>(sim::pick(4));
        w.final_work = static_cast<unsigned>(sim::pick(4));
        w.init_sleep = sim::coin(1, 5);
        p_.emplace([&w] { w.on_init(); }, [&w] { w.on_final(); });
    }
    sim::event("pool constructed");
  }
  ~instance() {
    if (p_) {
      sim::event("pool destruction");
      p_.reset();
      sim::event("pool destroyed");
    }
  }
  world& w_;
  std::optional<utl::thread_pool> p_;
};

inline round& new_round(world& w, std::size_t n) {
  sim::quiet q;
  w.rounds.emplace_back();
  auto& r = w.rounds.back();
  r.id = w.rounds.size() - 1;
  r.n = n;
  r.starts.assign(n, 0);
  r.ends.assign(n, 0);
  r.effect.assign(n, 0);
  r.work = static_cast<unsigned>(sim::pick(3));
  r.sleepy = sim::coin(1, 8);
  if (r.sleepy) { r.nap = pick_nap(); }
  r.submitter = sim::self();
  return r;
}

inline void check_complete(round& r) {
  for (std::size_t i = 0; i < r.n; ++i) {
    SIM_CHECK(r.starts[i] == 1, "job-lost", "round %zu: job %zu of %zu was not run",
              r.id, i, r.n);
    SIM_CHECK(r.ends[i] == 1, "returned-early",
              "round %zu returned while job %zu was running", r.id, i);
    unsigned const e = r.effect[i];  // plain read, as the caller does
    SIM_CHECK(e == 1, "effect-lost", "round %zu: the effect of job %zu is lost",
              r.id, i);
  }
}

// the caller has the pool to itself: the round has to succeed
inline void run_round(world& w, instance& p, std::size_t n) {
  auto& r = new_round(w, n);
  sim::event("round %zu: %zu jobs", r.id, n);
  r.in_call = true;
  auto* const rp = &r;
  if (sim::coin(1, 2)) {
    p.p_->execute(n, [&w, rp](std::size_t const i) {
      w.on_job(*rp, i);
      w.job_done(*rp, i);
    });
  } else {  // state that does not fit into the function object
    std::string const pad(40, static_cast<char>('a' + r.id % 26));
    auto const id = r.id;
    p.p_->execute(n, [&w, rp, pad, id](std::size_t const i) {
      SIM_CHECK(pad.size() == 40 && pad[i % 40] == static_cast<char>('a' + id % 26),
                "function-mixed", "a job runs with another round's function");
      w.on_job(*rp, i);
      w.job_done(*rp, i);
    });
  }
  r.in_call = false;
  r.out = DONE;
  sim::event("round %zu returns", r.id);
  check_complete(r);
}

// after destruction (or failed construction)
inline void check_end(world& w, bool constructed, bool all_workers = false) {
  sim::quiet q;
  w.alive = false;
  SIM_CHECK(sim::live_threads() == 0, "worker-left",
            "%u worker(s) still running after the pool's end",
            sim::live_threads());
  for (auto const& [t, x] : w.workers) {
    SIM_CHECK(x.inits == 1, "init-count", "T%d ran the initializer %u times", t,
              x.inits);
    SIM_CHECK(x.finals == 1 && !x.in_final, "final-lost",
              "T%d ended without its finalizer", t);
  }
  if (all_workers && constructed) {
    SIM_CHECK(w.workers.size() == std::max(1U, w.procs), "worker-count",
              "%zu workers for %u processors", w.workers.size(), w.procs);
  }
}

}  // namespace pool
