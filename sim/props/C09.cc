// Thread creation fails at any position.
#include "loops_fail.h"
#include "pool.h"

using namespace loops;

static void loop_without_threads() {
  capture_stream(std::clog);
  spec s = pick_spec(false);
  if (!s.default_strat && sim::coin(1, 2)) {
    s.strat = utl::parallel_error_strategy::CONTINUE_EXEC;
  }
  pick_failures(s, sim::coin(1, 3), false);
  sim::sample("[kind %d, %zu jobs, %u processors, strategy %d] ", s.kind, s.n,
              s.procs, static_cast<int>(s.strat));
  history h;
  // a thread cannot be started without memory either
  bool const memory = sim::coin(1, 3);
  sim::enable_faults(sim::bit(sim::F_THREAD_EAGAIN) |
                     (memory ? sim::bit(sim::F_ALLOC) : 0));
  sim::watch_allocs(memory);
  execute(s, h);
  sim::watch_allocs(false);
  sim::enable_faults(0);
  bool const refused = sim::faults_fired(sim::F_THREAD_EAGAIN) != 0 ||
                       sim::faults_fired(sim::F_ALLOC) != 0;
  bool system = h.threw && h.alloc_faults != 0 && is_bad_alloc(h.thrown);
  if (h.threw) {
    try {
      std::rethrow_exception(h.thrown);
    } catch (std::system_error const&) { system = true; } catch (...) {
    }
  }
  if (refused && h.threw && system) {
    sim::probe("the refusal reached the caller");
    check_effects(s, h);
  } else if (s.strat == utl::parallel_error_strategy::CONTINUE_EXEC && !refused) {
    check_continue_mode(s, h);
  } else if (!refused) {
    check_stop_mode(s, h);
  } else {
    // threads were refused, the loop carried on or a job's error was reported
    check_effects(s, h);
    if (!h.threw) {
      if (s.strat == utl::parallel_error_strategy::CONTINUE_EXEC) {
        check_continue_mode(s, h);
      } else {
        check_stop_mode(s, h);
      }
    } else {
      bool match = false;
      for (std::size_t i = 0; i < s.n && !match; ++i) {
        match = failed(s, h, i) && is_error_of(h.thrown, i);
      }
      SIM_CHECK(match, "wrong-exception",
                "threads were refused; the loop threw something else");
    }
  }
  check_states(s, h);
  // the next loop is not affected
  std::vector<unsigned> again(5);
  utl::parallel_for(again, [](unsigned& x) { ++x; });
  for (auto const x : again) {
    SIM_CHECK(x == 1, "job-lost", "a later loop ran a job %u times", x);
  }
}

static void pool_without_threads() {
  pool::procs();
  pool::world w;
  bool const memory = sim::coin(1, 3);
  sim::enable_faults(sim::bit(sim::F_THREAD_EAGAIN) |
                     (memory ? sim::bit(sim::F_ALLOC) : 0));
  sim::watch_allocs(memory);
  bool constructed = false;
  try {
    pool::instance p{w};
    constructed = true;
    sim::watch_allocs(false);
    sim::enable_faults(0);
    auto const rounds = sim::pick(3);
    for (std::uint64_t r = 0; r < rounds; ++r) {
      pool::run_round(w, p, sim::pick_size(20));
    }
    w.closing = true;
  } catch (std::system_error const&) {
    SIM_CHECK(!constructed, "throws", "a round threw system_error");
    sim::probe("the refusal reached the caller");
  } catch (std::bad_alloc const&) {
    SIM_CHECK(!constructed, "throws", "a round threw bad_alloc");
    SIM_CHECK(sim::faults_fired(sim::F_ALLOC) != 0, "throws",
              "bad_alloc, although memory was available");
    sim::probe("no memory for a worker");
  }
  sim::watch_allocs(false);
  sim::enable_faults(0);
  sim::sample("[%u processors, %s] ", w.procs,
              constructed ? "constructed" : "refused");
  pool::check_end(w, constructed);
}

SIM_MAIN({"loop", loop_without_threads}, {"loop2", loop_without_threads},
         {"pool", pool_without_threads})
