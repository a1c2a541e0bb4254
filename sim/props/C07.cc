#include "pool.h"

using namespace pool;

// destruction right after construction or after some rounds
static void life() {
  procs();
  auto const lives = 1 + sim::pick(3);
  for (std::uint64_t l = 0; l < lives; ++l) {
    world w;
    {
      instance p{w};
      if (sim::coin(1, 3)) {
        for (auto i = sim::pick(6); i > 0; --i) { sim::point(); }
      }
      if (sim::coin(1, 4)) {
        std::this_thread::sleep_for(std::chrono::milliseconds(sim::pick(10)));
      }
      auto const k = sim::pick(4);
      for (std::uint64_t i = 0; i < k; ++i) { run_round(w, p, sim::pick_size(10)); }
      if (k == 0) {
        sim::quiet q;
        sim::probe("destroyed without a round");
        if (w.workers.empty()) {
          sim::probe("destruction began before any worker ran");
        }
      }
      sim::sample("[%u processors, %zu rounds] ", w.procs,
                  static_cast<std::size_t>(k));
    }
    check_end(w, true, true);
  }
}

// constructed by one thread, used by another, destroyed by a third
static void handed_around() {
  procs();
  world w;
  std::unique_ptr<instance> p;
  std::thread{[&] { p = std::make_unique<instance>(w); }}.join();
  auto const k = sim::pick(3);
  for (std::uint64_t i = 0; i < k; ++i) { run_round(w, *p, sim::pick_size(10)); }
  std::thread{[&] { p.reset(); }}.join();
  check_end(w, true, true);
}

// the default constructor needs no initializer and no finalizer
static void bare() {
  procs();
  auto const n = sim::pick(8);
  std::vector<unsigned> x(n);
  {
    utl::thread_pool p;
    if (sim::coin(2, 3)) { p.execute(n, [&](std::size_t const i) { ++x[i]; }); } else {
      for (auto& v : x) { ++v; }
    }
  }
  SIM_CHECK(sim::live_threads() == 0, "worker-left", "%u worker(s) left",
            sim::live_threads());
  for (auto const v : x) { SIM_CHECK(v == 1, "job-lost", "a job ran %u times", v); }
}

SIM_MAIN({"life", life}, {"life2", life}, {"life3", life},
         {"handed_around", handed_around}, {"bare", bare})
