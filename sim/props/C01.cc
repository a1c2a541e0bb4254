#include "loops.h"

using namespace loops;

static void one_loop(bool big) {
  spec s = pick_spec(big);
  if (!s.default_strat && sim::coin(1, 2)) {
    s.strat = utl::parallel_error_strategy::CONTINUE_EXEC;
  }
  sim::sample("[kind %d, %zu jobs, %u processors, strategy %d] ", s.kind, s.n,
              s.procs, static_cast<int>(s.strat));
  history h;
  execute(s, h);
  SIM_CHECK(!h.threw, "throws", "the loop threw although no job did");
  SIM_CHECK(h.errors.empty(), "errors", "the loop reports %zu errors",
            h.errors.size());
  check_all_ran(s, h);
  check_effects(s, h);
  {
    sim::quiet q;
    std::set<int> workers;
    for (auto const& j : h.jobs) { workers.insert(j.worker); }
    if (workers.size() > 1) { sim::probe("jobs spread over several workers"); }
    if (s.procs == 0) { sim::probe("unknown number of processors"); }
    if (s.procs > s.n) { sim::probe("more processors than jobs"); }
    if (s.n == 0) { sim::probe("no jobs"); }
  }
}

static void loops_in_sequence() {
  capture_stream(std::clog);
  auto const k = 1 + sim::pick(3);
  for (std::uint64_t i = 0; i < k; ++i) { one_loop(k == 1); }
}

// a job that runs a loop of its own
static void nested_loops() {
  capture_stream(std::clog);
  if (pick_processors() > 16) { sim::set_processors(16); }
  auto const n = 1 + sim::pick(5), m = sim::pick(6);
  std::vector<std::vector<unsigned>> eff(n, std::vector<unsigned>(m));
  std::vector<unsigned> outer(n);
  auto const e = utl::parallel_for_run(n, [&](std::size_t const i) {
    auto const e2 = utl::parallel_for_run(
        m, [&](std::size_t const j) { eff[i][j] += 1; });
    outer[i] += 1;
    for (std::size_t j = 0; j < m; ++j) {
      SIM_CHECK(eff[i][j] == 1, "job-lost", "inner job %zu/%zu ran %u times", i,
                j, eff[i][j]);
    }
    SIM_CHECK(e2.empty(), "errors", "inner loop reports errors");
  });
  SIM_CHECK(e.empty(), "errors", "outer loop reports errors");
  for (std::size_t i = 0; i < n; ++i) {
    SIM_CHECK(outer[i] == 1, "job-lost", "outer job %zu ran %u times", i,
              outer[i]);
  }
  sim::probe("nested loops");
}

// two threads run a loop each at the same time
static void concurrent_loops() {
  capture_stream(std::clog);
  pick_processors();
  auto const n = sim::pick(12), m = sim::pick(12);
  std::vector<unsigned> a(n), b(m);
  std::thread t{[&] {
    utl::parallel_for_run(n, [&](std::size_t const i) { ++a[i]; });
    for (std::size_t i = 0; i < n; ++i) {
      SIM_CHECK(a[i] == 1, "job-lost", "job %zu ran %u times", i, a[i]);
    }
  }};
  utl::parallel_for(b, [](unsigned& x) { ++x; });
  for (std::size_t i = 0; i < m; ++i) {
    SIM_CHECK(b[i] == 1, "job-lost", "job %zu ran %u times", i, b[i]);
  }
  t.join();
}

SIM_MAIN({"loops", loops_in_sequence}, {"loops2", loops_in_sequence},
         {"nested", nested_loops}, {"concurrent", concurrent_loops})
