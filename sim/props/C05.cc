#include "loops_fail.h"

using namespace loops;

static void progress() {
  capture_stream(std::clog);
  auto const k = 1 + sim::pick(2);
  for (std::uint64_t i = 0; i < k; ++i) {
    spec s = pick_spec(k == 1);
    s.with_progress = true;
    if (!s.default_strat && sim::coin(2, 3)) {
      s.strat = utl::parallel_error_strategy::CONTINUE_EXEC;
    }
    pick_failures(s, true, true);
    sim::sample("[kind %d, %zu jobs, %u processors, strategy %d] ", s.kind, s.n,
                s.procs, static_cast<int>(s.strat));
    history h;
    execute(s, h);
    check_updates(s, h);
    if (s.strat == utl::parallel_error_strategy::CONTINUE_EXEC) {
      check_continue_mode(s, h);
    } else {
      check_stop_mode(s, h);
    }
    for (std::size_t j = 0; j < s.n; ++j) {
      if (h.jobs[j].updates && s.update_throws[j]) {
        sim::quiet q;
        sim::probe("a progress update threw");
        break;
      }
    }
  }
}

SIM_MAIN({"progress", progress})
