// Failing jobs and failing progress callbacks for the parallel loop checks.
#pragma once

#include "loops.h"

namespace loops {

inline void pick_failures(spec& s, bool jobs, bool updates) {
  s.throws.assign(s.n, 0);
  s.update_throws.assign(s.n, 0);
  if (s.n == 0 || !sim::coin(9, 10)) { return; }
  auto const mark = [&](std::vector<unsigned char>& v) {
    auto const kind = [] { return static_cast<unsigned char>(1 + sim::pick(5)); };
    switch (sim::pick(6)) {
      case 0: break;
      case 1: v[sim::pick(s.n)] = kind(); break;  // one job
      case 2:  // several
        for (auto k = 1 + sim::pick(5); k > 0; --k) { v[sim::pick(s.n)] = kind(); }
        break;
      case 3: {  // dense
        auto const d = 2 + sim::pick(4);
        for (auto& x : v) { x = sim::pick(d) == d - 1 ? kind() : 0; }
        break;
      }
      case 4: {  // all
        auto const k = kind();
        for (auto& x : v) { x = k; }
        break;
      }
      case 5:  // the first few, or the last
        if (sim::coin(1, 2)) {
          for (std::size_t i = 0; i < s.n && i < 3; ++i) { v[i] = kind(); }
        } else {
          v[s.n - 1] = kind();
        }
        break;
    }
  };
  if (jobs) { mark(s.throws); }
  if (updates && s.with_progress) { mark(s.update_throws); }
}

inline bool failing(spec const& s, std::size_t i) {
  return s.throws[i] != 0 || (s.with_progress && s.update_throws[i] != 0);
}

// did job i, or its progress update, throw in this execution?
inline bool failed(spec const& s, history const& h, std::size_t i) {
  return h.jobs[i].fails != 0 ||
         (h.jobs[i].updates != 0 && s.update_throws[i] != 0);
}

inline bool is_bad_alloc(std::exception_ptr const& e) {
  sim::quiet q;
  if (!e) { return false; }
  try {
    std::rethrow_exception(e);
  } catch (std::bad_alloc const&) { return true; } catch (...) { return false; }
}

// The loop ended because there was no memory to report a failure: nothing else
// is excused, and this only if an allocation did fail after a job's failure.
inline bool out_of_memory(spec const& s, history& h) {
  if (!h.threw || !s.no_memory || h.alloc_faults == 0 ||
      !is_bad_alloc(h.thrown)) {
    return false;
  }
  std::size_t n_failed = 0;
  for (std::size_t i = 0; i < s.n; ++i) { n_failed += failed(s, h, i); }
  SIM_CHECK(n_failed != 0, "throws", "bad_alloc, although no job failed");
  sim::probe("no memory to report a failure");
  check_effects(s, h);
  return true;
}

inline void check_stop_mode(spec const& s, history& h) {
  if (out_of_memory(s, h)) { return; }
  std::size_t n_failed = 0;
  for (std::size_t i = 0; i < s.n; ++i) { n_failed += failed(s, h, i); }
  if (n_failed == 0) {
    SIM_CHECK(!h.threw, "throws", "the loop threw although no job did");
    SIM_CHECK(h.errors.empty(), "errors", "the loop reports %zu errors",
              h.errors.size());
    check_all_ran(s, h);
  } else {
    SIM_CHECK(h.threw, "swallowed", "%zu job(s) threw, the loop did not",
              n_failed);
    bool match = false;
    for (std::size_t i = 0; i < s.n && !match; ++i) {
      match = failed(s, h, i) && is_error_of(h.thrown, i);
    }
    SIM_CHECK(match, "wrong-exception",
              "the loop threw something that none of its jobs threw");
    sim::quiet q;
    if (n_failed > 1) { sim::probe("several jobs failed before the stop"); }
    std::size_t started = 0;
    for (auto const& j : h.jobs) { started += j.starts; }
    if (started < s.n) { sim::probe("jobs skipped after a failure"); }
  }
  check_effects(s, h);
}

inline void check_continue_mode(spec const& s, history& h) {
  if (out_of_memory(s, h)) { return; }
  SIM_CHECK(!h.threw, "throws", "a continue-on-error loop threw");
  check_all_ran(s, h);
  check_effects(s, h);
  sim::quiet q;
  std::vector<unsigned> reported(s.n);
  for (auto const& [idx, e] : h.errors) {
    SIM_CHECK(idx < s.n, "error-index", "an error is reported for job %zu of %zu",
              idx, s.n);
    SIM_CHECK(failed(s, h, idx), "error-index",
              "an error is reported for job %zu, which did not fail", idx);
    SIM_CHECK(++reported[idx] == 1, "error-twice",
              "two errors are reported for job %zu", idx);
    SIM_CHECK(is_error_of(e, idx), "error-exception",
              "the error reported for job %zu is not what it threw", idx);
  }
  std::size_t n_failed = 0;
  for (std::size_t i = 0; i < s.n; ++i) {
    if (failed(s, h, i)) {
      ++n_failed;
      SIM_CHECK(reported[i] == 1, "error-lost", "no error is reported for job %zu",
                i);
    }
  }
  if (n_failed > 1) { sim::probe("several failures reported"); }
  if (n_failed != 0 && n_failed == s.n) { sim::probe("every job failed"); }
}

inline void check_states(spec const& s, history& h) {
  if (s.kind != THREADLOCAL) { return; }
  sim::quiet q;
  std::map<int, unsigned> per_worker;
  for (auto const& r : h.states) {
    SIM_CHECK(r->made == 1 && r->gone == 1, "state-leaked",
              "a state made by T%d was constructed %u times, destroyed %u times",
              r->made_by, r->made, r->gone);
    SIM_CHECK(r->gone_by == r->made_by, "state-foreign",
              "a state made by T%d was destroyed by T%d", r->made_by, r->gone_by);
    for (auto const u : r->users) {
      SIM_CHECK(u == r->made_by, "state-shared",
                "the state of T%d was used by T%d", r->made_by, u);
    }
    SIM_CHECK(r->jobs == 0 || r->died > r->last_job, "state-early",
              "a state was destroyed before the last job of T%d", r->made_by);
    if (r->jobs != 0 && !r->copy) {
      SIM_CHECK(++per_worker[r->made_by] == 1, "state-second",
                "worker T%d used two state objects", r->made_by);
    }
    if (r->jobs > 1) { sim::probe("a state served several jobs"); }
  }
  std::size_t jobs = 0, in_states = 0;
  for (auto const& j : h.jobs) { jobs += j.starts; }
  for (auto const& r : h.states) { in_states += r->jobs; }
  SIM_CHECK(jobs == in_states, "state-missing",
            "%zu jobs ran, the states count %zu", jobs, in_states);
  if (per_worker.size() > 1) { sim::probe("several workers with a state"); }
}

inline void check_updates(spec const& s, history& h) {
  if (!s.with_progress) { return; }
  for (std::size_t i = 0; i < s.n; ++i) {
    auto const& j = h.jobs[i];
    SIM_CHECK(j.updates == j.oks, "update-lost",
              "job %zu completed %u time(s), %u progress update(s)", i, j.oks,
              j.updates);
    SIM_CHECK(j.updates == 0 || j.updated > j.ended, "update-early",
              "progress update for job %zu before the job ended", i);
    // plain memory written by the update, read by the caller
    unsigned const e = h.update_effect[i];
    SIM_CHECK(e == j.updates, "update-effect-lost",
              "progress update %zu ran %u time(s), its effect is seen %u time(s)",
              i, j.updates, e);
  }
}

}  // namespace loops
