// Concurrent updates of one tracker.
#include "tracker.h"

using namespace tracker;

struct tr {
  explicit tr(config const& c)
      : t{[this](utl::progress_tracker const&) {
          sim::quiet q;
          ++callbacks;
        }} {
    apply(t, c);
  }
  unsigned callbacks{0};
  utl::progress_tracker t;
};

static void check_out(tr& x, config const& c) {
  std::size_t const in = x.t.in_;
  float const out = x.t.out_;
  SIM_CHECK(defined_output(c, in, out), "stale-output",
            "input %zu of %zu, bounds %g to %g, step %g: the output is %g", in,
            c.in_high, c.low, c.high, c.mod, out);
  if (in >= c.in_high && c.in_high != 0) { sim::probe("maximum reached"); }
}

static std::size_t pick_inc() {
  static std::size_t const v[] = {1, 1, 1, 2, 5, 0, 17, 1000};
  return v[sim::pick(8)];
}

static void increments() {
  auto const c = pick_config(true);
  tr x{c};
  auto const n = 2 + sim::pick(3);
  auto const unit = pick_unit();
  std::size_t sum = 0;
  std::vector<std::vector<std::size_t>> plan(n);
  if (sim::coin(1, 3)) {
    x.t.update(sum = sim::pick(20) * unit);
  }
  for (auto& p : plan) {
    p.resize(1 + sim::pick_size(8));
    for (auto& v : p) { sum += (v = pick_inc() * unit); }
  }
  bool const by_fn = sim::coin(1, 4);
  auto const body = [&](std::vector<std::size_t> const& p) {
    auto f = x.t.increment_fn();
    for (auto const v : p) {
      if (by_fn && v == 1) { f(); } else if (v == 1) {
        x.t.increment();
      } else {
        x.t.increment(v);
      }
    }
  };
  std::vector<std::thread> ts;
  for (std::size_t i = 1; i < n; ++i) { ts.emplace_back([&, i] { body(plan[i]); }); }
  body(plan[0]);
  for (auto& t : ts) { t.join(); }
  SIM_CHECK(x.t.in_ == sum, "increment-lost", "the increments add up to %zu, the input is %zu",
            sum, x.t.in_.load());
  check_out(x, c);
  sim::sample("[%zu threads, input %zu of %zu] ", static_cast<std::size_t>(n), sum, c.in_high);
}

static void monotonic() {
  auto const c = pick_config(true);
  tr x{c};
  auto const n = 2 + sim::pick(3);
  auto const unit = pick_unit();
  std::size_t top = 0;
  std::vector<std::vector<std::size_t>> plan(n);
  if (sim::coin(1, 3)) { x.t.update(top = sim::pick(20) * unit); }
  for (auto& p : plan) {
    p.resize(1 + sim::pick_size(8));
    for (auto& v : p) { top = std::max<std::size_t>(top, v = sim::pick_size(150) * unit); }
    if (sim::coin(1, 2)) { std::sort(begin(p), end(p)); }
  }
  std::atomic_bool stop{false};
  std::vector<std::thread> ts;
  auto const body = [&](std::vector<std::size_t> const& p) {
    auto f = x.t.update_fn();
    for (std::size_t i = 0; i < p.size(); ++i) {
      if (i % 2) { f(p[i]); } else { x.t.update_monotonic(p[i]); }
      std::size_t const now = x.t.in_;
      SIM_CHECK(now >= p[i], "update-lost",
                "after a monotonic update to %zu the input is %zu", p[i], now);
    }
  };
  ts.emplace_back([&] {
    std::size_t last = 0;
    for (unsigned i = 0; i < 60 && !stop; ++i) {
      std::size_t const now = x.t.in_;
      SIM_CHECK(now >= last, "input-lowered", "the input went from %zu to %zu", last, now);
      last = now;
    }
  });
  for (std::size_t i = 1; i < n; ++i) { ts.emplace_back([&, i] { body(plan[i]); }); }
  body(plan[0]);
  for (std::size_t i = 1; i < ts.size(); ++i) { ts[i].join(); }
  stop = true;
  ts[0].join();
  SIM_CHECK(x.t.in_ == top, "update-lost", "the largest update is %zu, the input is %zu", top,
            x.t.in_.load());
  check_out(x, c);
  sim::sample("[%zu threads, input %zu of %zu] ", static_cast<std::size_t>(n), top, c.in_high);
}

// all kinds of updates and status changes, in phases with new bounds
static void mixed() {
  tr x{config{}};
  auto const phases = 1 + sim::pick(3);
  for (std::uint64_t ph = 0; ph < phases; ++ph) {
    auto const c = pick_config(true);
    apply(x.t, c);
    auto const n = 2 + sim::pick(3);
    std::vector<std::thread> ts;
    bool sets = sim::coin(1, 2);
    auto const unit = pick_unit();
    auto const body = [&](std::uint64_t k, std::uint64_t first) {
      for (std::uint64_t i = 0; i < k; ++i) {
        auto const v = (first * 7 + i * 13) % 40 * unit;
        switch ((first + i) % 4) {
          case 0: x.t.increment(v); break;
          case 1: x.t.update_monotonic(v * 3); break;
          case 2: if (sets) { x.t.update(v); } else { x.t.increment(); } break;
          case 3: x.t.status(i % 2 ? "a" : "b"); break;
        }
      }
    };
    for (std::size_t i = 1; i < n; ++i) {
      auto const k = 1 + sim::pick(5), f = sim::pick(8);
      ts.emplace_back([&, k, f] { body(k, f); });
    }
    body(1 + sim::pick(5), sim::pick(8));
    for (auto& t : ts) { t.join(); }
    check_out(x, c);
  }
}

SIM_MAIN({"increments", increments}, {"monotonic", monotonic}, {"mixed", mixed})
