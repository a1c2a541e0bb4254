#include "loops_fail.h"

using namespace loops;

static void continue_on_error() {
  capture_stream(std::clog);
  auto const k = 1 + sim::pick(2);
  for (std::uint64_t i = 0; i < k; ++i) {
    spec s = pick_spec(k == 1);
    s.default_strat = false;
    s.strat = utl::parallel_error_strategy::CONTINUE_EXEC;
    pick_failures(s, true, false);
    s.no_memory = s.kind != LOGGED && sim::coin(1, 4);
    sim::sample("[kind %d, %zu jobs, %u processors] ", s.kind, s.n, s.procs);
    history h;
    if (s.no_memory) { sim::enable_faults(sim::bit(sim::F_ALLOC)); }
    execute(s, h);
    sim::enable_faults(0);
    check_continue_mode(s, h);
  }
}

SIM_MAIN({"continue", continue_on_error})
