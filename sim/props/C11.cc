// Bounds of the output, and notification of every change.
#include "tracker.h"

using namespace tracker;

namespace {

struct view {
  float out;
  std::string status;
  bool show;
  float low, high;
  bool operator==(view const&) const = default;
};

struct observed {
  observed()
      : t{[this](utl::progress_tracker const& x) { on_callback(x); }} {}

  void on_callback(utl::progress_tracker const& x) {
    {
      sim::quiet q;
      SIM_CHECK(&x == &t, "wrong-tracker", "callback with another tracker");
      ++started;
      sim::event("callback");
    }
    view v;
    v.out = x.out_;
    {
      // blocks for ever (a deadlock report) if the caller holds the lock
      std::lock_guard<std::mutex> const l{x.mutex_};
      v.status = x.status_;
      v.show = x.show_progress_;
      v.low = x.out_low_;
      v.high = x.out_high_;
    }
    SIM_CHECK(v.out >= v.low && v.out <= v.high, "out-of-bounds",
              "callback: output %g, bounds %g to %g", v.out, v.low, v.high);
    for (unsigned i = 0; i < work; ++i) { sim::point(); }
    sim::quiet q;
    seen.push_back(std::move(v));
  }

  view now() {
    std::lock_guard<std::mutex> const l{t.mutex_};
    return {t.out_, t.status_, t.show_progress_, t.out_low_, t.out_high_};
  }

  unsigned started{0}, work{0};
  std::vector<view> seen;
  utl::progress_tracker t;
};

}  // namespace

// one thread: the exact history against a model
static void history() {
  observed o;
  config c;
  view m{0.F, "", true, 0.F, 100.F};
  std::size_t in = 0;
  static char const* const words[] = {"", "a", "b", "longer status text, not inline"};
  auto const unit = pick_unit();
  auto const steps = 1 + sim::pick_size(30);
  sim::sample("[%zu calls] ", static_cast<std::size_t>(steps));
  for (std::uint64_t s = 0; s < steps; ++s) {
    auto const calls = o.started;
    bool changed = false, threw = false, restart = false;
    bool bounds_touched = false, status_touched = false;  // within a chain
    std::string st = m.status;
    bool show = m.show;
    config n = c;
    auto const before = o.now();
    auto const in_before = in;
    auto const op = sim::pick(16);
    bool const updates = op >= 10 && op < 14;
    switch (op) {
      case 0: o.t.status(st = words[sim::pick(4)]); break;
      case 1: o.t.show_progress(show = sim::coin(1, 2)); break;
      case 2: o.t.reset_bounds(); n = config{}; break;
      case 3: n = pick_config(true); o.t.out_bounds(n.low, n.high); n.mod = c.mod; n.in_high = c.in_high; break;
      case 4: n.in_high = pick_config(true).in_high; o.t.in_high(n.in_high); break;
      case 5: n.mod = pick_config(false).mod; o.t.out_mod(n.mod); break;
      case 6:
        n = pick_config(true);
        o.t.status(st = words[sim::pick(4)])
            .show_progress(show = sim::coin(1, 2))
            .out_bounds(n.low, n.high)
            .out_mod(n.mod)
            .in_high(n.in_high);
        break;
      case 7: {  // an update object that is moved, and kept for a while
        auto u = o.t.status(st = words[sim::pick(4)]);
        auto w = std::move(u);
        n.in_high = pick_config(true).in_high;
        {
          auto x = w.in_high(n.in_high).show_progress(show = sim::coin(1, 2));
          SIM_CHECK(o.started == calls, "called-under-lock",
                    "the callback was called while the update was not finished");
        }
        break;
      }
      case 8:  // rejected: what came before it in the chain holds
        try {
          o.t.status(st = words[sim::pick(4)]).out_bounds(5.F, 4.F);
        } catch (std::runtime_error const&) { threw = true; }
        SIM_CHECK(threw, "no-throw", "bounds 5 to 4 were accepted");
        break;
      case 9:
        try {
          o.t.out_mod(sim::coin(1, 2) ? 0.F : -1.F);
        } catch (std::runtime_error const&) { threw = true; }
        SIM_CHECK(threw, "no-throw", "a step that is not positive was accepted");
        break;
      case 10: o.t.update(in = sim::pick_size(150) * unit); break;
      case 11: {
        auto const v = sim::pick_size(30) * unit;
        o.t.increment(v);
        in += v;
        break;
      }
      case 12: o.t.increment(); ++in; break;
      case 13: {
        auto const v = sim::pick_size(150) * unit;
        o.t.update_monotonic(v);
        in = std::max<std::size_t>(in, v);
        break;
      }
      default: {  // a chain in any order, also with values that are set already
        auto u = o.t.status(st = sim::coin(1, 2) ? m.status : words[sim::pick(4)]);
        status_touched = st != m.status;
        for (auto k = sim::pick(6); k > 0; --k) {
          auto const same = sim::coin(1, 2);
          auto const x = same ? n : pick_config(true);
          switch (sim::pick(6)) {
            case 0: u = u.status(st = same ? st : words[sim::pick(4)]); break;
            case 1: u = u.show_progress(show = same ? show : !show); break;
            case 2:
              u = u.out_bounds(x.low, x.high);
              n.low = x.low;
              n.high = x.high;
              break;
            case 3: u = u.in_high(n.in_high = x.in_high); break;
            case 4: u = u.out_mod(n.mod = x.mod); break;
            case 5:
              if (sim::coin(1, 4)) {
                u = u.reset_bounds();
                n = config{};
              }
              break;
          }
          bounds_touched |= n != c;
          status_touched |= st != m.status || show != m.show;
          SIM_CHECK(o.started == calls, "called-under-lock",
                    "the callback was called while the update was not finished");
        }
        break;
      }
    }
    bool const n_same = n == c;
    if (!n_same) {
      restart = true;
      in = 0;
      c = n;
      m.low = c.low;
      m.high = c.high;
    } else if (bounds_touched && o.t.in_ == 0) {  // changed, and back again
      restart = true;
      in = 0;
    }
    bool const undone = n_same && (bounds_touched || status_touched);
    m.status = st;
    m.show = show;
    auto const after = o.now();
    sim::quiet q;
    SIM_CHECK(after.status == m.status && after.show == m.show, "state",
              "status or visibility is not what was set");
    SIM_CHECK(after.low == m.low && after.high == m.high, "state",
              "bounds %g to %g, set were %g to %g", after.low, after.high, m.low, m.high);
    SIM_CHECK(o.t.in_ == in, "state", "input %zu, given %zu", o.t.in_.load(), in);
    SIM_CHECK(after.out >= m.low && after.out <= m.high, "out-of-bounds",
              "output %g, bounds %g to %g", after.out, m.low, m.high);
    if (restart) {
      SIM_CHECK(after.out == m.low, "restart", "new bounds or maximum: output %g, lower bound %g",
                after.out, m.low);
    } else if (in != in_before || updates) {
      SIM_CHECK(defined_output(c, in, after.out), "output",
                "input %zu of %zu, bounds %g to %g, step %g: output %g", in, c.in_high, c.low,
                c.high, c.mod, after.out);
    } else {
      SIM_CHECK(after.out == before.out, "output", "output changed by call %d",
                static_cast<int>(op));
    }
    changed = restart || !(before == after);
    if (undone && before == after) {
      SIM_CHECK(o.started - calls <= 1, "notified-for-nothing", "%u callbacks for one chain", o.started - calls);
      sim::probe("chain that takes its change back");
      continue;
    }
    SIM_CHECK(o.started - calls == (changed ? 1 : 0), changed ? "not-notified" : "notified-for-nothing",
              "call %d changed %s, %u callback(s)", static_cast<int>(op),
              changed ? "something" : "nothing", o.started - calls);
    if (changed) {
      SIM_CHECK(o.seen.back() == after, "callback-early",
                "call %d: the callback saw output %g, it is %g", static_cast<int>(op),
                o.seen.back().out, after.out);
    }
    if (c.in_high == 0 && updates) { sim::probe("update with maximum zero"); }
    if (threw && changed) { sim::probe("rejected chain with a change before it"); }
  }
}

// several threads, an observer
static void concurrent() {
  observed o;
  auto const c = pick_config(true);
  apply(o.t, c);
  o.work = static_cast<unsigned>(sim::pick(4));
  auto const n = 2 + sim::pick(3);
  static char const* const words[] = {"", "a", "b", "longer status text, not inline"};
  auto const first = o.now();
  auto const unit = pick_unit();
  auto const before = o.started;
  std::atomic<unsigned> calls{0};
  auto const body = [&](std::uint64_t k, std::uint64_t f) {
    for (std::uint64_t i = 0; i < k; ++i) {
      auto const v = (f * 7 + i * 13) % 40;
      ++calls;
      switch ((f + i) % 6) {
        case 0: o.t.increment(v * unit); break;
        case 1: o.t.update_monotonic(v * unit * 3); break;
        case 2: o.t.update(v * unit); break;
        case 3: o.t.status(words[v % 4]); break;
        case 4: o.t.show_progress(v % 2 == 0).status(words[v % 3]); break;
        case 5: o.t.increment(); break;
      }
    }
  };
  std::vector<std::thread> ts;
  std::atomic_bool stop{false};
  ts.emplace_back([&] {
    for (unsigned i = 0; i < 40 && !stop; ++i) {
      float const x = o.t.out_;
      SIM_CHECK(x >= c.low && x <= c.high, "out-of-bounds", "output %g, bounds %g to %g", x,
                c.low, c.high);
    }
  });
  for (std::size_t i = 1; i < n; ++i) {
    auto const k = 1 + sim::pick(5), f = sim::pick(12);
    ts.emplace_back([&, k, f] { body(k, f); });
  }
  body(1 + sim::pick(5), sim::pick(12));
  stop = true;
  for (auto& t : ts) { t.join(); }
  auto const last = o.now();
  sim::quiet q;
  auto const n_calls = o.started - before;
  if (n_calls == 0) {
    SIM_CHECK(last == first, "not-notified", "the state changed, the callback was never called");
  } else {
    bool found = false;
    for (auto const& v : o.seen) { found |= v == last; }
    SIM_CHECK(found, "not-notified",
              "no callback saw the final state (output %g, status '%s')", last.out,
              last.status.c_str());
  }
  SIM_CHECK(n_calls <= calls, "notified-for-nothing", "%u callbacks after %u calls", n_calls,
            calls.load());
  sim::sample("[%u calls, %u callbacks] ", calls.load(), n_calls);
}

// one thread reconfigures and updates, others look (as a redraw does)
static void reconfigured() {
  observed o;
  o.work = static_cast<unsigned>(sim::pick(3));
  std::atomic_bool stop{false};
  std::vector<std::thread> ts;
  for (auto k = 1 + sim::pick(2); k > 0; --k) {
    ts.emplace_back([&] {
      for (unsigned i = 0; i < 60 && !stop; ++i) {
        auto const v = o.now();
        SIM_CHECK(v.out >= v.low && v.out <= v.high, "out-of-bounds", "an observer: output %g, bounds %g to %g", v.out, v.low, v.high);
      }
    });
  }
  auto const steps = 1 + sim::pick_size(12);
  for (std::uint64_t s = 0; s < steps; ++s) {
    auto const c = pick_config(true);
    switch (sim::pick(8)) {
      case 0: o.t.out_bounds(c.low, c.high); break;
      case 1: o.t.status("x").out_bounds(c.low, c.high).out_mod(c.mod); break;
      case 2: o.t.reset_bounds(); break;
      case 3: o.t.in_high(c.in_high); break;
      case 4: {
        auto u = o.t.out_bounds(c.low, c.high);
        sim::point();
        u.in_high(c.in_high);
        break;
      }
      default: o.t.update(sim::pick_size(200) * pick_unit()); break;
    }
  }
  stop = true;
  for (auto& t : ts) { t.join(); }
  sim::sample("[%zu reconfigurations and updates] ", static_cast<std::size_t>(steps));
}

SIM_MAIN({"history", history}, {"concurrent", concurrent}, {"concurrent2", concurrent}, {"reconfigured", reconfigured})
