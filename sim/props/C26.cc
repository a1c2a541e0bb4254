// C26: operations on objects of their own do not affect each other, on
// several threads or inside each other's user functions, and operations that
// only read may share what they read.
#include "ops.h"

namespace {

struct call {
  ops::op const* o;
  ops::lcg r;
  ops::ctx done, alone, model;
  char const* thrown{""};
  ops::op const* inner{nullptr};
  ops::lcg inner_r;
};

call make_call(ops::pool const* shared) {
  call c;
  c.o = &ops::list[sim::pick(ops::n_ops)];
  c.r.s = sim::pick(1U << 30);
  c.done.shared = c.alone.shared = c.model.shared = shared;
  if (sim::pick(4) == 0) {
    c.inner = sim::pick(2) ? c.o : &ops::list[sim::pick(ops::n_ops)];
    c.inner_r.s = sim::pick(1U << 30);
    c.done.nest_at = static_cast<int>(sim::pick(6));
  }
  return c;
}

void check(ops::op const& o, ops::ctx const& c, ops::lcg r, char const* when) {
  sim::quiet q;
  ops::ctx m;
  m.shared = c.shared;
  o.model(m, r);
  SIM_CHECK(c.sem == m.sem, "wrong-result", "%s %s: %s instead of %s", o.name, when, ops::show(c.sem).c_str(),
            ops::show(m.sem).c_str());
}

void nested(ops::ctx& outer) {
  auto& c = *static_cast<call*>(outer.user);
  ops::ctx in;
  in.shared = outer.shared;
  ops::attempt(*c.inner, in, c.inner_r);
  check(*c.inner, in, c.inner_r, "inside a user function");
  sim::probe("nested");
  sim::quiet q;
  in.sem = {};
  in.log = {};
}

void perform(call& c) {
  if (c.inner) {
    c.done.user = &c;
    c.done.nested = nested;
  }
  c.thrown = ops::attempt(*c.o, c.done, c.r);
}

void verify_done(call& c) {
  if (*c.thrown) {
    sim::quiet q;
    ops::ctx m;
    m.shared = c.done.shared;
    c.o->model(m, c.r);
    SIM_CHECK(ops::prefix(c.done.sem, m.sem), "wrong-calls", "%s: calls before a failure %s instead of %s", c.o->name,
              ops::show(c.done.sem).c_str(), ops::show(m.sem).c_str());
    sim::probe("failed");
  } else {
    check(*c.o, c.done, c.r, "among others");
  }
}

void alone(call& c) {
  ops::attempt(*c.o, c.alone, c.r);
  check(*c.o, c.alone, c.r, "alone");
}

void threads() {
  auto const n = 2 + sim::pick(3);
  auto const pool = [] {
    sim::quiet q;
    return std::make_unique<ops::pool>(sim::pick(1U << 30));
  }();
  auto const before = [&] { sim::quiet q; return pool->digest(); }();
  // 0: all threads do the same, 1: the same kind of operation, 2, 3: anything
  auto const kind = sim::pick(4);
  std::vector<std::vector<call>> todo(n);
  std::size_t total = 0;
  {
    sim::quiet q;
    auto const m = 1 + sim::pick(4);
    std::vector<call> same;
    for (auto j = 0U; j != m; ++j) { same.push_back(make_call(nullptr)); }
    for (auto& t : todo) {
      bool const shared = sim::pick(3) != 0;
      for (auto j = 0U; j != m; ++j, ++total) {
        auto c = kind == 0 ? same[j] : make_call(nullptr);
        if (kind == 1) { c.o = same[j].o; }
        c.done.shared = c.alone.shared = shared ? pool.get() : nullptr;
        t.push_back(std::move(c));
      }
    }
  }
  bool const first = sim::pick(2) == 0;
  auto const all_alone = [&] {
    for (auto& t : todo) { for (auto& c : t) { alone(c); } }
  };
  if (first) { all_alone(); }
  auto const faults = sim::pick(4);
  if (faults == 0) {
    for (auto& t : todo) { for (auto& c : t) { c.done.faulty = true; } }
    sim::enable_faults(sim::bit(sim::F_JOB_THROW) | sim::bit(sim::F_ALLOC));
  }
  {
    std::vector<std::thread> v;
    v.reserve(n);
    for (auto& t : todo) {
      v.emplace_back([&t] {
        for (auto& c : t) {
          sim::event("%s", c.o->name);
          perform(c);
        }
        SIM_CHECK(ops::item::live == 0, "leak", "%ld elements are left in a thread", ops::item::live);
      });
    }
    for (auto& t : v) { t.join(); }
  }
  sim::enable_faults(0);
  for (auto& t : todo) { for (auto& c : t) { verify_done(c); } }
  if (!first) { all_alone(); }
  sim::quiet q;
  SIM_CHECK(pool->digest() == before, "input-changed", "shared input that is only read was %s, now it is %s",
            before.c_str(), pool->digest().c_str());
  // an algorithm may have another way without the memory (std::stable_sort has)
  bool const no_memory = sim::faults_fired(sim::F_ALLOC) != 0;
  for (auto& t : todo) {
    for (auto& c : t) {
      SIM_CHECK(no_memory || *c.thrown || c.done.log == c.alone.log, "wrong-calls", "%s: calls among others %s, alone %s", c.o->name,
                ops::show(c.done.log).c_str(), ops::show(c.alone.log).c_str());
    }
  }
  sim::sample("[%lu threads, %zu operations] ", static_cast<unsigned long>(n), total);
}

}  // namespace

SIM_MAIN({"threads", threads})
