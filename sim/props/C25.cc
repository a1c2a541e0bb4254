// C25: what a user function throws, or a failed allocation, passes cleanly
// through the operations on collections, texts and ranges.
#include "ops.h"

namespace {

void one() {
  auto const& o = ops::list[sim::pick(ops::n_ops)];
  ops::lcg const r{sim::pick(1U << 30)};
  auto const faults = sim::pick(4);
  sim::event("%s", o.name);
  auto const live = ops::item::live;
  auto base = ~std::uint64_t{0};
  auto const clean = [&](char const* when) {
    SIM_CHECK(ops::item::live == live, "leak", "%s: %ld elements too many %s", o.name, ops::item::live - live, when);
    SIM_CHECK(sim::live_blocks() <= base, "leak", "%s: %ld memory blocks are left %s", o.name,
              static_cast<long>(sim::live_blocks() - base), when);
  };

  ops::ctx model, first, second, third;
  {
    sim::quiet q;
    o.model(model, r);
  }
  sim::enable_faults(0);
  ops::attempt(o, first, r);
  auto const defined = [&](ops::ctx const& c, char const* when) {
    sim::quiet q;
    SIM_CHECK(c.sem == model.sem, "wrong-result", "%s %s: %s instead of %s", o.name, when, ops::show(c.sem).c_str(),
              ops::show(model.sem).c_str());
  };
  defined(first, "without faults");
  clean("without faults");
  base = sim::live_blocks();  // what is kept from the first use on may stay
  if (faults == 0) { return; }

  auto const fired = sim::faults_fired(sim::F_ALLOC);
  sim::enable_faults((faults & 1 ? sim::bit(sim::F_JOB_THROW) : 0) | (faults & 2 ? sim::bit(sim::F_ALLOC) : 0));
  second.faulty = true;
  auto const* const what_thrown = ops::attempt(o, second, r);
  sim::enable_faults(0);
  auto const no_memory = sim::faults_fired(sim::F_ALLOC) != fired;
  if (*what_thrown) {
    sim::event("%s throws: %s", o.name, what_thrown);
    sim::probe(*what_thrown == 'n' ? "allocation failed" : "user function threw");
  }
  SIM_CHECK(*what_thrown != 'n' || no_memory, "wrong-exception", "%s: out of memory though memory is available",
            o.name);
  clean("after a failure");
  if (*what_thrown) {
    sim::quiet q;
    SIM_CHECK(ops::prefix(second.sem, first.sem), "wrong-calls", "%s: calls before a failure %s instead of %s", o.name,
              ops::show(second.sem).c_str(), ops::show(first.sem).c_str());
    SIM_CHECK(no_memory || ops::prefix(second.log, first.log), "wrong-calls", "%s: calls before a failure %s instead of %s",
              o.name, ops::show(second.log).c_str(), ops::show(first.log).c_str());
  } else {
    defined(second, "with memory running out in between");
  }
  ops::attempt(o, third, r);
  defined(third, "after a failure");
  clean("at the end");
  sim::quiet q;
  SIM_CHECK(third.log == first.log, "wrong-calls", "%s: calls after a failure %s instead of %s", o.name,
            ops::show(third.log).c_str(), ops::show(first.log).c_str());
}

void operations() {
  {
    sim::quiet q;
    utl::time(0);  // the C library keeps some memory from the first use on
  }
  auto n = 2 + sim::pick(6);
  for (auto i = n; i > 0; --i) { one(); }
  sim::sample("[%lu operations] ", static_cast<unsigned long>(n));
}

}  // namespace

SIM_MAIN({"operations", operations})
