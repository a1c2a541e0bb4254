#include "loops_fail.h"

using namespace loops;

static void thread_local_state() {
  capture_stream(std::clog);
  auto const k = 1 + sim::pick(2);
  for (std::uint64_t i = 0; i < k; ++i) {
    spec s = pick_spec(false);
    s.kind = THREADLOCAL;
    if (!s.default_strat && sim::coin(2, 3)) {
      s.strat = utl::parallel_error_strategy::CONTINUE_EXEC;
    }
    pick_failures(s, true, true);
    sim::sample("[%zu jobs, %u processors, strategy %d] ", s.n, s.procs,
                static_cast<int>(s.strat));
    history h;
    execute(s, h);
    check_states(s, h);
    check_effects(s, h);
  }
}

// The construction of some workers' states fails. The other states are held
// to the same rules, and the failure reaches the caller.
static void failing_states() {
  capture_stream(std::clog);
  spec s = pick_spec(false);
  s.kind = THREADLOCAL;
  if (!s.default_strat && sim::coin(2, 3)) {
    s.strat = utl::parallel_error_strategy::CONTINUE_EXEC;
  }
  if (sim::coin(1, 3)) {
    pick_failures(s, true, true);
  } else {
    s.throws.assign(s.n, 0);
    s.update_throws.assign(s.n, 0);
  }
  s.state_throws.assign(s.procs + 1, 0);
  switch (sim::pick(3)) {
    case 0: s.state_throws[sim::pick(s.state_throws.size())] = 1; break;
    case 1:
      for (auto& x : s.state_throws) { x = sim::coin(1, 2); }
      break;
    case 2: s.state_throws.assign(s.procs + 1, 1); break;
  }
  sim::sample("[%zu jobs, %u processors, strategy %d] ", s.n, s.procs,
              static_cast<int>(s.strat));
  history h;
  execute(s, h);
  check_states(s, h);
  check_effects(s, h);
  bool state = false, of_job = false;
  std::size_t n_failed = 0, n_run = 0;
  for (std::size_t i = 0; i < s.n; ++i) {
    n_failed += failed(s, h, i);
    n_run += h.jobs[i].starts;
  }
  if (h.threw) {
    sim::quiet q;
    try {
      std::rethrow_exception(h.thrown);
    } catch (state_error const& e) {
      state = e.nonce == 7 && e.number < s.state_throws.size() &&
              s.state_throws[e.number] != 0;
    } catch (...) {
      for (std::size_t i = 0; i < s.n && !of_job; ++i) {
        of_job = failed(s, h, i) && is_error_of(h.thrown, i);
      }
    }
    SIM_CHECK(state || of_job, "wrong-exception",
              "the loop threw something that neither a state nor a job threw");
    SIM_CHECK(!state || h.state_failures != 0, "wrong-exception",
              "no construction failed");
    SIM_CHECK(!of_job || s.strat == utl::parallel_error_strategy::QUIT_EXEC,
              "throws", "a continue-on-error loop threw the error of a job");
    if (state) { sim::probe("the failed construction reached the caller"); }
  } else {
    SIM_CHECK(n_failed == 0 ||
                  s.strat == utl::parallel_error_strategy::CONTINUE_EXEC,
              "swallowed", "%zu job(s) threw, the loop did not", n_failed);
    // carrying on without the workers concerned is fine if nothing is lost
    SIM_CHECK(n_run == s.n, "job-lost",
              "%u state(s) could not be constructed: %zu of %zu jobs ran, and "
              "nothing was thrown", h.state_failures, n_run, s.n);
    SIM_CHECK(h.errors.size() == n_failed, "errors",
              "%zu errors reported, %zu jobs failed", h.errors.size(), n_failed);
  }
}

// loops with different state types, one inside a job of the other
static void nested() {
  capture_stream(std::clog);
  if (pick_processors() > 12) { sim::set_processors(12); }
  struct outer_state {
    int owner{sim::self()};
    unsigned jobs{0};
  };
  struct inner_state {
    int owner{sim::self()};
    unsigned sum{0};
  };
  auto const n = 1 + sim::pick(5), m = sim::pick(6);
  std::vector<unsigned> done(n);
  utl::parallel_for_run_threadlocal<outer_state>(
      n, [&](outer_state& o, std::size_t const i) {
        SIM_CHECK(o.owner == sim::self(), "state-shared",
                  "outer state of T%d used on T%d", o.owner, sim::self());
        auto const before = o.jobs;
        utl::parallel_for_run_threadlocal<inner_state>(
            m, [&](inner_state& t, std::size_t) {
              SIM_CHECK(t.owner == sim::self(), "state-shared",
                        "inner state of T%d used on T%d", t.owner, sim::self());
              ++t.sum;
            });
        SIM_CHECK(o.jobs == before, "state-lost", "outer state changed");
        ++o.jobs;
        ++done[i];
      });
  for (std::size_t i = 0; i < n; ++i) {
    SIM_CHECK(done[i] == 1, "job-lost", "outer job %zu ran %u times", i, done[i]);
  }
}

SIM_MAIN({"state", thread_local_state}, {"state2", thread_local_state},
         {"state3", thread_local_state},
         {"failing_states", failing_states}, {"nested", nested})
