// Overlapping and failing submissions.
#include "pool.h"

using namespace pool;

static void submit(world& w, instance& p, std::size_t n, bool nested, int depth);

static void job_body(world& w, instance& p, pool::round& r, std::size_t i, int depth) {
  w.on_job(r, i);
  if (depth > 0 && (i + r.id) % 3 == 0) {
    sim::probe("submission from inside a job");
    submit(w, p, 1 + i % 3, true, depth - 1);
  }
  w.job_done(r, i);
}

static void submit(world& w, instance& p, std::size_t n, bool nested, int depth) {
  auto& r = new_round(w, n);
  r.nested = nested;
  if (nested) { r.sleepy = false; }
  {
    sim::quiet q;
    r.begin = w.tick();
    sim::event("round %zu: %zu jobs%s", r.id, n, nested ? " (from a job)" : "");
  }
  r.in_call = true;
  bool const faults = sim::enabled_faults() != 0;
  try {
    if (nested || sim::coin(1, 2)) {
      p.p_->execute(n, [&w, &p, &r, depth](std::size_t const i) {
        job_body(w, p, r, i, depth);
      });
    } else {
      std::string const pad(40, 'x');
      p.p_->execute(n, [&w, &p, &r, depth, pad](std::size_t const i) {
        SIM_CHECK(pad[i % 40] == 'x', "function-mixed", "job data is lost");
        job_body(w, p, r, i, depth);
      });
    }
    r.out = DONE;
  } catch (...) { r.out = REJECTED; }
  r.in_call = false;
  {
    sim::quiet q;
    r.end = w.tick();
    sim::event("round %zu %s", r.id, r.out == DONE ? "returns" : "is rejected");
  }
  if (r.out == DONE) {
    SIM_CHECK(!nested, "nested-accepted", "a submission from inside a job returned");
    check_complete(r);
  } else {
    for (std::size_t i = 0; i < n; ++i) {
      SIM_CHECK(r.starts[i] == 0, "rejected-but-run",
                "round %zu was rejected, its job %zu was run", r.id, i);
    }
    sim::quiet q;
    if (faults && sim::faults_fired(sim::F_ALLOC) != 0) {
      sim::probe("submission failed with memory exhaustion possible");
    }
  }
}

static void finish(world& w, bool faults) {
  sim::quiet q;
  unsigned done = 0, rejected = 0;
  for (auto const& r : w.rounds) {
    (r.out == DONE ? done : rejected)++;
    if (r.out == DONE) { continue; }
    for (std::size_t i = 0; i < r.n; ++i) {
      SIM_CHECK(r.starts[i] == 0, "rejected-but-run",
                "round %zu was rejected, its job %zu was run", r.id, i);
    }
    if (faults || r.nested) { continue; }
    // rejected: some other submission must have been under way
    bool overlap = false;
    for (auto const& o : w.rounds) {
      overlap |= &o != &r && o.begin < r.end && r.begin < o.end;
    }
    SIM_CHECK(overlap, "rejected-alone",
              "round %zu was rejected although it was the only one", r.id);
  }
  if (rejected) { sim::probe("a submission was rejected"); }
  if (rejected && done > 1) { sim::probe("rounds completed beside a rejected one"); }
  sim::sample("[%u processors, %u rounds done, %u rejected] ", w.procs, done,
              rejected);
}

static void overlapping() {
  if (procs() > 8) { sim::set_processors(8); }
  capture_stream(std::clog);
  world w;
  {
    instance p{w};
    auto const s = 1 + sim::pick(3);
    std::vector<std::thread> t;
    for (std::uint64_t i = 0; i < s; ++i) {
      t.emplace_back([&] {
        auto const k = 1 + sim::pick(3);
        for (std::uint64_t j = 0; j < k; ++j) {
          submit(w, p, 1 + sim::pick_size(6), false, 0);
        }
      });
    }
    auto const k = 1 + sim::pick(3);
    for (std::uint64_t j = 0; j < k; ++j) {
      submit(w, p, 1 + sim::pick_size(6), false, 0);
    }
    for (auto& x : t) { x.join(); }
    run_round(w, p, sim::pick_size(8));  // the pool is still usable
  }
  finish(w, false);
  check_end(w, true, true);
}

static void nested() {
  if (procs() > 8) { sim::set_processors(8); }
  capture_stream(std::clog);
  world w;
  {
    instance p{w};
    std::optional<std::thread> t;
    if (sim::coin(1, 3)) {
      t.emplace([&] { submit(w, p, 1 + sim::pick_size(6), false, 1); });
    }
    auto const k = 1 + sim::pick(3);
    for (std::uint64_t j = 0; j < k; ++j) {
      submit(w, p, 1 + sim::pick_size(6), false, 1);
    }
    if (t) { t->join(); }
    run_round(w, p, sim::pick_size(8));
  }
  finish(w, false);
  check_end(w, true, true);
}

static void out_of_memory() {
  if (procs() > 8) { sim::set_processors(8); }
  capture_stream(std::clog);
  world w;
  {
    instance p{w};
    sim::enable_faults(sim::bit(sim::F_ALLOC));
    std::optional<std::thread> t;
    if (sim::coin(1, 3)) {
      t.emplace([&] {
        sim::watch_allocs(true);
        submit(w, p, 1 + sim::pick_size(6), false, 0);
      });
    }
    sim::watch_allocs(true);
    auto const k = 1 + sim::pick(4);
    for (std::uint64_t j = 0; j < k; ++j) {
      submit(w, p, 1 + sim::pick_size(6), false, 0);
    }
    sim::watch_allocs(false);
    if (t) { t->join(); }
    sim::enable_faults(0);
    // neither the failed submissions' jobs nor their functions come back
    auto const m = 1 + sim::pick(3);
    for (std::uint64_t j = 0; j < m; ++j) { run_round(w, p, sim::pick_size(8)); }
  }
  finish(w, true);
  check_end(w, true, true);
}

SIM_MAIN({"overlapping", overlapping}, {"nested", nested},
         {"out_of_memory", out_of_memory})
