#include "pool.h"

using namespace pool;

// many rounds in a row
static void rounds() {
  procs();
  world w;
  {
    instance p{w};
    auto const k = 1 + sim::pick_size(12);
    for (std::uint64_t i = 0; i < k; ++i) {
      run_round(w, p, sim::coin(1, 6) ? 0 : sim::pick_size(24));
    }
    sim::sample("[%u processors, %zu rounds] ", w.procs,
                static_cast<std::size_t>(k));
    {
      sim::quiet q;
      for (auto const& r : w.rounds) {
        if (r.n > std::max(1U, w.procs)) { sim::probe("more jobs than workers"); }
        if (r.n == 0) { sim::probe("empty round"); }
      }
    }
  }
  check_end(w, true);
}

// rounds submitted by different threads, one after the other
static void hand_over() {
  procs();
  world w;
  {
    instance p{w};
    auto const k = 1 + sim::pick(4);
    for (std::uint64_t i = 0; i < k; ++i) {
      std::thread t{[&] { run_round(w, p, sim::pick_size(12)); }};
      t.join();
      if (sim::coin(1, 2)) { run_round(w, p, sim::pick_size(12)); }
    }
  }
  check_end(w, true);
}

// two pools used at the same time do not influence each other
static void two_pools() {
  if (procs() > 8) { sim::set_processors(8); }
  auto const a = 1 + sim::pick(8), b = 1 + sim::pick(8);
  std::vector<unsigned> x(a), y(b);
  utl::thread_pool p, q;
  auto const k = 1 + sim::pick(3);
  std::thread t{[&] {
    for (std::uint64_t i = 0; i < k; ++i) {
      p.execute(a, [&](std::size_t const j) { ++x[j]; });
      for (auto const v : x) {
        SIM_CHECK(v == i + 1, "job-lost", "a job ran %u times", v);
      }
    }
  }};
  for (std::uint64_t i = 0; i < k; ++i) {
    q.execute(b, [&](std::size_t const j) { ++y[j]; });
    for (auto const v : y) {
      SIM_CHECK(v == i + 1, "job-lost", "a job ran %u times", v);
    }
  }
  t.join();
}

// few large rounds, scheduled at synchronisation operations only
static void large() {
  procs();
  sim::sync_points_only(true);
  sim::set_step_limit(40000000);
  world w;
  {
    instance p{w};
    auto const k = 1 + sim::pick(3);
    for (std::uint64_t i = 0; i < k; ++i) { run_round(w, p, sim::pick_size(600)); }
  }
  check_end(w, true);
}

// very many small rounds (any counter of rounds that wraps around)
static void marathon() {
  auto n = procs();
  if (n > 4) { sim::set_processors(n = 1 + n % 4); }
  sim::sync_points_only(true);
  sim::set_step_limit(40000000);
  auto const k = sim::coin(1, 60) ? 66000 + sim::pick(10) : 250 + sim::pick(300);
  if (k > 1000) { sim::set_processors(n = 1); }
  std::uint64_t round = 0;
  std::array<unsigned, 4> runs{};
  {
    utl::thread_pool p;
    for (round = 1; round <= k; ++round) {
      auto const m = k > 1000 ? 1 : sim::pick(4);
      auto const want = round;
      p.execute(m, [&, want](std::size_t const i) {
        sim::quiet q;
        SIM_CHECK(want == round, "job-outside-round", "a job of round %lu runs in round %lu", want, round);
        SIM_CHECK(++runs[i] == 1, "job-twice", "round %lu: job %zu was run twice", round, i);
      });
      sim::quiet q;
      for (std::size_t i = 0; i < 4; ++i) {
        SIM_CHECK(runs[i] == (i < m), "job-lost", "round %lu: job %zu of %zu ran %u times", round, i, static_cast<std::size_t>(m), runs[i]);
        runs[i] = 0;
      }
    }
  }
  SIM_CHECK(sim::live_threads() == 0, "worker-left", "%u worker(s) left", sim::live_threads());
}

SIM_MAIN({"marathon", marathon}, {"rounds", rounds}, {"rounds2", rounds}, {"rounds3", rounds},
         {"hand_over", hand_over}, {"two_pools", two_pools}, {"large", large})
