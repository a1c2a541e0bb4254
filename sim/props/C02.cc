#include "loops_fail.h"

using namespace loops;

static void stop_on_error() {
  capture_stream(std::clog);
  spec s = pick_spec(true);
  pick_failures(s, true, false);
  s.no_memory = s.kind != LOGGED && sim::coin(1, 4);
  sim::sample("[kind %d, %zu jobs, %u processors] ", s.kind, s.n, s.procs);
  history h;
  if (s.no_memory) { sim::enable_faults(sim::bit(sim::F_ALLOC)); }
  execute(s, h);
  sim::enable_faults(0);
  check_stop_mode(s, h);
}

// a failing loop inside a job of another loop: the inner error ends both
static void nested() {
  capture_stream(std::clog);
  if (pick_processors() > 16) { sim::set_processors(16); }
  auto const n = 1 + sim::pick(5), m = 1 + sim::pick(6);
  auto const bad_i = sim::pick(n), bad_j = sim::pick(m);
  bool const fail = sim::coin(4, 5);
  std::vector<std::vector<unsigned>> runs(n, std::vector<unsigned>(m));
  bool caught = false;
  try {
    utl::parallel_for_run(n, [&](std::size_t const i) {
      utl::parallel_for_run(m, [&](std::size_t const j) {
        SIM_CHECK(++runs[i][j] == 1, "job-twice", "inner job %zu/%zu runs again", i,
                  j);
        if (fail && i == bad_i && j == bad_j) {
          sim::note_fault(sim::F_JOB_THROW);
          throw job_error{i * 100 + j, 7};
        }
      });
    });
  } catch (job_error const& e) {
    caught = true;
    SIM_CHECK(e.idx == bad_i * 100 + bad_j && e.nonce == 7, "wrong-exception",
              "the exception was altered");
  }
  SIM_CHECK(sim::live_threads() == 0, "worker-left", "%u workers left",
            sim::live_threads());
  SIM_CHECK(caught == (fail && runs[bad_i][bad_j] == 1), "swallowed",
            "job ran %u times, exception %s", runs[bad_i][bad_j],
            caught ? "seen" : "not seen");
  if (!fail) {
    for (auto const& r : runs) {
      for (auto const x : r) {
        SIM_CHECK(x == 1, "job-lost", "an inner job ran %u times", x);
      }
    }
  }
}

// as many elements as it says, computed when they are looked at
struct numbers {
  struct iterator {
    using iterator_category = std::random_access_iterator_tag;
    using value_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using pointer = std::size_t const*;
    using reference = std::size_t;
    std::size_t operator*() const { return i; }
    std::size_t operator[](difference_type n) const { return i + static_cast<std::size_t>(n); }
    iterator& operator++() { ++i; return *this; }
    iterator operator++(int) { return {i++}; }
    iterator& operator--() { --i; return *this; }
    iterator operator--(int) { return {i--}; }
    iterator& operator+=(difference_type n) { i += static_cast<std::size_t>(n); return *this; }
    iterator& operator-=(difference_type n) { i -= static_cast<std::size_t>(n); return *this; }
    friend iterator operator+(iterator a, difference_type n) { return a += n; }
    friend iterator operator+(difference_type n, iterator a) { return a += n; }
    friend iterator operator-(iterator a, difference_type n) { return a -= n; }
    friend difference_type operator-(iterator a, iterator b) { return static_cast<difference_type>(a.i - b.i); }
    auto operator<=>(iterator const&) const = default;
    std::size_t i{};
  };
  iterator begin() const { return {0}; }
  iterator end() const { return {n}; }
  std::size_t operator[](std::size_t i) const { return i; }
  std::size_t size() const { return n; }
  bool empty() const { return n == 0; }
  std::size_t n;
};

// a loop over far more jobs than can be run, ended by a job that fails early
static void endless() {
  auto const procs = pick_processors();
  static constexpr std::size_t kBase[] = {
      std::size_t{1} << 8,  std::size_t{1} << 15, std::size_t{1} << 16,
      std::size_t{1} << 31, std::size_t{1} << 32, std::size_t{1} << 33,
      std::size_t{1} << 48, std::size_t{1} << 62, std::size_t{1} << 63};
  auto const n = kBase[sim::pick(9)] + sim::pick(4);
  auto const bad = sim::pick(60);
  bool const from_update = sim::coin(1, 3);
  auto const kind = sim::pick(5);
  capture_stream(std::clog);
  sim::sample("[%zu jobs, job %zu fails, %u processors] ", n,
              static_cast<std::size_t>(bad), procs);
  sim::set_step_limit(40000000);
  sim::sync_points_only(true);
  struct nothing {
    int unused{0};
  };
  std::map<std::size_t, unsigned> runs;
  std::map<int, unsigned> after;
  bool failed = false, caught = false;
  int failed_worker = -1;
  auto const job = [&](std::size_t const i) {
    bool now = false;
    {
      sim::quiet q;
      SIM_CHECK(i < n, "job-out-of-range", "job %zu of %zu was run", i, n);
      SIM_CHECK(++runs[i] == 1, "job-twice", "job %zu was run twice", i);
      now = i == bad;
      if (failed) {
        SIM_CHECK(sim::self() != failed_worker, "job-after-own-failure", "T%d runs job %zu after its earlier job failed", sim::self(), i);
        if (sim::thread_ended(failed_worker)) {
          SIM_CHECK(++after[sim::self()] <= 1, "does-not-stop",
                    "T%d runs on and on after job %zu failed and T%d has ended", sim::self(), static_cast<std::size_t>(bad), failed_worker);
        }
      }
    }
    sim::point();
    if (now && !from_update) {
      failed = true;
      failed_worker = sim::self();
      sim::note_fault(sim::F_JOB_THROW);
      throw job_error{i, 7};
    }
  };
  auto const upd = [&](std::size_t const i) {
    if (i == bad && from_update) {
      failed = true;
      failed_worker = sim::self();
      sim::note_fault(sim::F_JOB_THROW);
      throw job_error{i, 7};
    }
  };
  try {
    numbers c{n};
    switch (kind) {
      case 0:
        utl::parallel_for_run_threadlocal<nothing>(
            n, [&](nothing&, std::size_t const i) { job(i); }, upd);
        break;
      case 1: utl::parallel_for_run(n, job, upd); break;
      case 2: utl::parallel_for(c, job, upd); break;
      case 3: utl::parallel_for(std::as_const(c), job, upd); break;
      case 4: utl::parallel_for("loop", c, 1000000, job, upd); break;
    }
  } catch (job_error const& e) {
    caught = true;
    SIM_CHECK(e.idx == bad && e.nonce == 7, "wrong-exception",
              "the exception was altered");
  }
  SIM_CHECK(sim::live_threads() == 0, "worker-left", "%u workers left",
            sim::live_threads());
  SIM_CHECK(failed, "job-lost",
            "the loop over %zu jobs ended after %zu of them, none failed", n,
            runs.size());
  SIM_CHECK(caught, "swallowed", "job %zu threw, the loop did not",
            static_cast<std::size_t>(bad));
}

SIM_MAIN({"endless", endless}, {"stop", stop_on_error}, {"stop2", stop_on_error},
         {"stop3", stop_on_error}, {"nested", nested})
