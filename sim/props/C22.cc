// Generators: coroutines advanced by a consumer.
#include <concepts>
#include <coroutine>
#include <exception>
#include <optional>
#include <utility>
#include <vector>

#include "utl/generator.h"

#include "common.h"

namespace {

// an object inside a coroutine: life time is counted
int alive, made;
struct local {
  local() { ++alive; ++made; }
  local(local const& o) : magic{o.magic} { ok(o); ++alive; ++made; }
  local(local&& o) noexcept : magic{o.magic} { ok(o); ++alive; ++made; }
  local& operator=(local const&) = default;
  ~local() {
    SIM_CHECK(magic == 0x600D, "double-destroy", "an object inside a coroutine is destroyed twice");
    magic = 0xDEAD;
    --alive;
  }
  static void ok(local const& o) {
    SIM_CHECK(o.magic == 0x600D, "use-after-destroy", "a destroyed object inside a coroutine is used");
  }
  int magic{0x600D};
};

struct my_error {
  int id;
};

enum what : unsigned char { YIELD, THROW, YIELD_LVALUE, INNER };
struct plan {
  std::vector<what> steps;
  int first{};
};

template <typename T>
struct value;
template <>
struct value<int> {
  static int make(int i) { return i; }
  static int read(int const& v) { return v; }
};
template <>
struct value<std::string> {
  static std::string make(int i) { return "a value that is long enough to be allocated " + std::to_string(i); }
  static int read(std::string const& s) { return s.size() > 44 ? atoi(s.c_str() + 44) : -1; }
};
template <>
struct value<std::unique_ptr<int>> {
  static std::unique_ptr<int> make(int i) { return std::make_unique<int>(i); }
  static int read(std::unique_ptr<int> const& p) { return p ? *p : -1; }
};
struct tracked {
  tracked() = default;
  explicit tracked(int x) : i{x} {}
  int i{-1};
  local l;
};
template <>
struct value<tracked> {
  static tracked make(int i) { return tracked{i}; }
  static int read(tracked const& t) { local::ok(t.l); return t.i; }
};

template <typename T>
utl::generator<T> counting(plan const* p, local param, int n) {
  local const l;
  for (int i = 0; i < n; ++i) {
    local::ok(param);
    co_yield value<T>::make(p->first + i);
  }
}

template <typename T>
utl::generator<T> run_plan(plan const* p, local param) {
  local const outer;
  int next = p->first;
  for (auto const s : p->steps) {
    local const l;
    local::ok(param);
    switch (s) {
      case YIELD: co_yield value<T>::make(next++); break;
      case YIELD_LVALUE:
        if constexpr (std::is_copy_constructible_v<T>) {
          auto const v = value<T>::make(next++);
          co_yield v;
          SIM_CHECK(value<T>::read(v) == next - 1, "altered", "an object inside the coroutine was changed");
        } else {
          co_yield value<T>::make(next++);
        }
        break;
      case INNER: {
        plan const q{{}, next};
        auto g = counting<T>(&q, local{}, 2);
        while (g) { co_yield g(); }
        next += 2;
        break;
      }
      case THROW: sim::note_fault(sim::F_JOB_THROW); throw my_error{p->first};
    }
    local::ok(outer);
  }
}

// what a consumer must see: values, then end or exception
struct model {
  int next{}, left{};
  bool throws{}, done{};
};

plan make_plan(int id, model& m) {
  plan p;
  p.first = id * 1000;
  m = {p.first, 0, false, false};
  bool const big = sim::coin(1, 40);  // more values than any small buffer holds
  for (auto k = big ? 8 + sim::pick_size(700) : sim::pick(7); k > 0; --k) {
    auto const s = sim::pick(big && k > 1 ? 14 : 16);
    if (s == 15 || s == 14) {
      p.steps.push_back(THROW);
      m.throws = true;
      break;
    }
    auto const w = s < 8 ? YIELD : s < 12 ? YIELD_LVALUE : INNER;
    p.steps.push_back(w);
    m.left += w == INNER ? 2 : 1;
  }
  return p;
}

bool faults;
struct watch {
  watch() { sim::watch_allocs(faults); }
  ~watch() { sim::watch_allocs(false); }
};

template <typename T>
struct consumer {
  static constexpr unsigned N = 3;
  std::array<std::optional<utl::generator<T>>, N> slot;
  std::array<plan*, N> plans{};
  std::array<model, N> m;
  std::array<bool, N> owns{};
  int ids{1};
  std::vector<std::unique_ptr<plan>> all;

  void failed(unsigned a, bool own, int id, char const* op) {
    auto& x = m[a];
    if (own) {
      SIM_CHECK(x.left == 0 && x.throws && !x.done, "wrong-exception", "%s throws with %d values left", op, x.left);
      SIM_CHECK(id == plans[a]->first, "wrong-exception", "the exception of another generator");
    } else {
      SIM_CHECK(sim::faults_fired(sim::F_ALLOC) > 0, "wrong-exception", "%s throws something else", op);
      sim::probe("allocation inside a coroutine failed");
    }
    x.done = true;
    x.left = 0;
  }

  template <typename Fn>
  void guarded(unsigned a, char const* op, Fn&& fn) {
    try {
      fn();
    } catch (my_error const& e) {
      sim::watch_allocs(false);
      sim::event("generator %u: %s throws", a, op);
      failed(a, true, e.id, op);
    } catch (std::bad_alloc const&) {
      sim::watch_allocs(false);
      sim::event("generator %u: %s: out of memory", a, op);
      failed(a, false, 0, op);
    }
  }

  void create(unsigned a) {
    {
      sim::quiet q;
      all.push_back(std::make_unique<plan>());
    }
    auto* const p = all.back().get();
    {
      sim::quiet q;
      *p = make_plan(ids++, m[a]);
    }
    plans[a] = p;
    auto const live = alive;
    try {
      watch const w;
      slot[a].emplace(run_plan<T>(p, local{}));
      owns[a] = true;
      sim::event("generator %u created: %d values%s", a, m[a].left, m[a].throws ? ", then exception" : "");
    } catch (std::bad_alloc const&) {
      sim::probe("coroutine not created");
      SIM_CHECK(sim::faults_fired(sim::F_ALLOC) > 0, "refused", "no coroutine though memory is available");
      SIM_CHECK(alive == live, "leak", "a coroutine that was not created leaves %d objects", alive - live);
    }
  }

  void ask(unsigned a) {
    auto& x = m[a];
    guarded(a, "check", [&] {
      bool r = false;
      {
        watch const w;
        r = static_cast<bool>(*slot[a]);
      }
      SIM_CHECK(x.left != 0 || !x.throws || x.done, "exception-lost", "a check returns %d where the coroutine throws", r);
      SIM_CHECK(r == (x.left > 0), "wrong-availability", "a check returns %d, %d values are left", r, x.left);
      if (!r) { x.done = true; }
    });
  }
  void take(unsigned a) {
    auto& x = m[a];
    if (x.done || (x.left == 0 && !x.throws)) { return; }  // not allowed
    guarded(a, "take", [&] {
      std::optional<T> v;
      {
        watch const w;
        v.emplace((*slot[a])());
      }
      SIM_CHECK(x.left > 0, "exception-lost", "a value is taken where the coroutine throws");
      SIM_CHECK(value<T>::read(*v) == x.next, "wrong-value", "the value is %d, should be %d", value<T>::read(*v), x.next);
      ++x.next;
      --x.left;
    });
  }
  void rest(unsigned a) {
    auto& x = m[a];
    guarded(a, "to_vec", [&] {
      std::vector<T> v;
      {
        watch const w;
        v = slot[a]->to_vec();
      }
      SIM_CHECK(x.done || !x.throws, "exception-lost", "to_vec returns though the coroutine throws");
      SIM_CHECK(static_cast<int>(v.size()) == x.left, "wrong-count", "to_vec gives %zu values, %d are left", v.size(), x.left);
      for (auto const& e : v) {
        SIM_CHECK(value<T>::read(e) == x.next, "wrong-value", "the value is %d, should be %d", value<T>::read(e), x.next);
        ++x.next;
      }
      x.left = 0;
      x.done = true;
    });
    if (sim::faults_fired(sim::F_ALLOC) > 0) {  // the failed allocation may have been the vector's
      slot[a].reset();
      owns[a] = false;
    }
  }

  unsigned history() {
    unsigned steps = 0;
    for (auto k = 4 + sim::pick(30); k > 0; --k, ++steps) {
      auto const a = static_cast<unsigned>(sim::pick(N)), b = static_cast<unsigned>(sim::pick(N));
      switch (sim::pick(10)) {
        case 0:
        case 1: if (!slot[a]) { create(a); } break;
        case 2:
        case 3: if (owns[a]) { ask(a); } break;
        case 4:
        case 5:
        case 6: if (owns[a]) { take(a); } break;
        case 7:
          if (owns[a] && sim::coin(1, 3)) {
            if (m[a].throws && m[a].left > 0) {  // the values are lost with the exception
              m[a].next += m[a].left;
              m[a].left = 0;
            }
            rest(a);
          }
          break;
        case 8:
          if (owns[a] && a == b && sim::coin(1, 2)) {
            sim::event("generator %u move-assigned to itself", a);
            auto& self = *slot[a];
            *slot[a] = std::move(self);
            sim::probe("moved to itself");
            if (sim::coin(1, 2)) {  // whatever it is now, it can be destroyed
              slot[a].reset();
              owns[a] = false;
            } else {
              owns[a] = false;
            }
          } else if (owns[a] && a != b) {
            auto const live = alive;
            if (!slot[b]) {
              sim::event("generator %u moved to %u", a, b);
              slot[b].emplace(std::move(*slot[a]));
              SIM_CHECK(alive == live, "leak", "moving destroys or creates objects of the coroutine");
              sim::probe("moved");
            } else {
              sim::event("generator %u move-assigned to %u", a, b);
              *slot[b] = std::move(*slot[a]);
              sim::probe("move-assigned");
            }
            m[b] = m[a];
            plans[b] = plans[a];
            owns[b] = true;
            owns[a] = false;
          }
          break;
        case 9:
          if (slot[a]) {
            if (owns[a] && !m[a].done) {
              sim::probe("abandoned");
              sim::note_fault(sim::F_ABANDON);
            }
            sim::event("generator %u destroyed", a);
            slot[a].reset();
            owns[a] = false;
          }
          break;
      }
      if (std::none_of(begin(slot), end(slot), [](auto const& x) { return x.has_value(); })) {
        SIM_CHECK(alive == 0, "leak", "%d objects of destroyed coroutines are alive", alive);
      }
    }
    for (auto& s : slot) { s.reset(); }
    return steps;
  }
};

template <typename T>
void run() {
  faults = sim::coin(1, 3);
  alive = made = 0;
  auto const base = sim::live_blocks();
  unsigned n = 0;
  sim::enable_faults(faults ? sim::bit(sim::F_ALLOC) : 0);
  {
    consumer<T>* c = nullptr;
    {
      sim::quiet q;
      c = new consumer<T>;
    }
    n = c->history();
    sim::quiet q;
    delete c;
  }
  SIM_CHECK(alive == 0, "leak", "%d objects of destroyed coroutines are alive", alive);
  SIM_CHECK(sim::live_blocks() == base, "leak", "%ld memory blocks are left", static_cast<long>(sim::live_blocks() - base));
  sim::sample("[%u steps, %d objects] ", n, made);
}

}  // namespace

#ifdef SIM_PORTABLE
SIM_MAIN({"ints", run<int>}, {"strings", run<std::string>}, {"tracked", run<tracked>})
#else
SIM_MAIN({"ints", run<int>}, {"strings", run<std::string>}, {"pointers", run<std::unique_ptr<int>>}, {"tracked", run<tracked>})
#endif
