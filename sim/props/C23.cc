// Scope guards and scoped resources.
#include <functional>
#include <optional>

#include "utl/raii.h"

#include "common.h"

namespace {

std::vector<int> ran;  // clean-ups so far
void cleanup(int id) {
  sim::quiet q;
  sim::event("clean-up %d", id);
  ran.push_back(id);
}

// a clean-up action with its own life time
struct action {
  explicit action(int i) : id{i}, data{std::make_unique<int>(i)} {}
  action(action&& o) noexcept : id{std::exchange(o.id, -1)}, data{std::move(o.data)} {}
  action& operator=(action&& o) noexcept {
    id = std::exchange(o.id, -1);
    data = std::move(o.data);
    return *this;
  }
#ifdef SIM_PORTABLE
  action(action const& o) : id{o.id}, data{o.data ? std::make_unique<int>(*o.data) : nullptr} {}
  action& operator=(action const& o) {
    id = o.id;
    data = o.data ? std::make_unique<int>(*o.data) : nullptr;
    return *this;
  }
#endif
  ~action() { magic = 0xDEAD; }
  void operator()() const {
    SIM_CHECK(magic == 0x600D, "use-after-destroy", "a destroyed clean-up action runs");
    SIM_CHECK(data != nullptr && *data == id, "moved-from", "a clean-up action runs that was moved away");
    cleanup(id);
  }
  int id;
  std::unique_ptr<int> data;
  int magic{0x600D};
};

void expect(std::vector<int> const& want, char const* when) {
  sim::quiet q;
  for (std::size_t i = 0; i < std::min(want.size(), ran.size()); ++i) {
    SIM_CHECK(want[i] == ran[i], "wrong-order", "%s: clean-up number %zu is that of guard %d, should be that of %d", when, i, ran[i],
              want[i]);
  }
  SIM_CHECK(ran.size() >= want.size(), "clean-up-lost", "%s: %zu clean-ups ran, should be %zu (next: %d)", when, ran.size(),
            want.size(), want[std::min(ran.size(), want.size() - 1)]);
  SIM_CHECK(ran.size() <= want.size(), "extra-clean-up", "%s: %zu clean-ups ran, should be %zu (next: %d)", when, ran.size(),
            want.size(), ran[std::min(want.size(), ran.size() - 1)]);
}

// ---- histories of moves ------------------------------------------------------
template <typename F, typename Make>
void history(Make&& make) {
  constexpr unsigned N = 4;
  using G = utl::finally<F>;
  std::array<std::optional<G>, N> slot;
  std::array<int, N> owner{};  // 0: armed for nothing
  std::array<bool, N> exists{};
  std::vector<int> want;
  int ids = 0;
  unsigned moves = 0;
  auto const destroy = [&](unsigned a) {
    if (owner[a] != 0) {
      sim::quiet q;
      want.push_back(owner[a]);
    }
    slot[a].reset();
    exists[a] = false;
    owner[a] = 0;
  };
  for (auto k = 4 + sim::pick(24); k > 0; --k) {
    auto const a = static_cast<unsigned>(sim::pick(N)), b = static_cast<unsigned>(sim::pick(N));
    switch (sim::pick(7)) {
      case 0:
      case 1:
        if (!exists[a]) {
          owner[a] = ++ids;
          slot[a].emplace(make(ids));
          exists[a] = true;
        }
        break;
      case 2:
        if (exists[a] && !exists[b]) {
          sim::event("guard %u moved to new %u", a, b);
          slot[b].emplace(std::move(*slot[a]));
          exists[b] = true;
          owner[b] = std::exchange(owner[a], 0);
          ++moves;
        }
        break;
      case 3:
      case 4:
        if (exists[a] && exists[b]) {
          sim::event("guard %u moved to %u", a, b);
          if constexpr (std::is_move_assignable_v<F>) {
            if (a != b && owner[b] != 0) {
              // the action that is replaced has no other owner left
              sim::quiet q;
              sim::probe("assigned over an armed guard");
              want.push_back(owner[b]);
            }
            *slot[b] = std::move(*slot[a]);
            if (a != b) { owner[b] = std::exchange(owner[a], 0); }
            ++moves;
          }
        }
        break;
      case 5:
        if (exists[a]) {
          sim::event("guard %u disarmed", a);
          slot[a]->exec_ = false;
          owner[a] = 0;
        }
        break;
      case 6:
        if (exists[a]) {
          sim::event("guard %u destroyed", a);
          destroy(a);
        }
        break;
    }
    expect(want, "after a step");
  }
  for (unsigned a = 0; a < N; ++a) {
    if (exists[a]) { destroy(a); }
    expect(want, "at the end");
  }
  sim::sample("[%d guards, %u moves] ", ids, moves);
}

void moves() {
  ran.clear();
  auto const base = sim::live_blocks();
  switch (sim::pick(3)) {
    case 0: history<action>([](int id) { return utl::finally<action>{action{id}}; }); break;
    case 1:
      history<std::function<void()>>([](int id) {
        // large enough to be allocated
        std::array<long, 4> big{id, 2, 3, 4};
        return utl::finally<std::function<void()>>{std::function<void()>{[big] { cleanup(static_cast<int>(big[0])); }}};
      });
      break;
    case 2: {
      auto const make = [](int id) { return [id] { cleanup(id); }; };
      history<decltype(make(0))>([&](int id) { return utl::make_finally(make(id)); });
      break;
    }
  }
  sim::quiet q;
  std::vector<int>{}.swap(ran);
  (void)base;
}

// ---- scopes left by exceptions -------------------------------------------------
struct resource {
  int id;
#ifdef SIM_PORTABLE
  std::shared_ptr<int> data;
#else
  std::unique_ptr<int> data;
#endif
};
struct leave {
  int id;
};

int ids;
unsigned budget;
std::vector<int>* stack;  // the clean-ups that must run, innermost last
std::vector<int> want;

void push(int id) {
  sim::quiet q;
  stack->push_back(id);
}
void owe(std::size_t upto) {  // the scope above `upto` is being left
  sim::quiet q;
  while (stack->size() > upto) {
    if (stack->back() != 0) { want.push_back(stack->back()); }
    stack->pop_back();
  }
}
void may_throw() {
  if (sim::pick(10) == 9) {
    sim::note_fault(sim::F_JOB_THROW);
    sim::event("exception");
    throw leave{ids};
  }
}

void scope(unsigned depth);

// runs code in a scope of its own and settles what it must have cleaned up
template <typename Fn>
void in_scope(Fn&& fn) {
  auto const mark = stack->size();
  bool thrown = false;
  int what = 0;
  try {
    fn();
  } catch (leave const& l) {
    thrown = true;
    what = l.id;
  }
  owe(mark);
  expect(want, thrown ? "after a scope left by an exception" : "after a scope");
  if (thrown && sim::coin(1, 2)) { throw leave{what}; }  // passed on
}

void inside(unsigned depth) {
  may_throw();
  for (auto k = sim::pick(3); k > 0; --k) {
    if (depth > 0 && budget > 0) { scope(depth - 1); }
    may_throw();
  }
}

void scope(unsigned depth) {
  --budget;
  in_scope([&] {
    switch (sim::pick(12)) {
      case 0: {
        auto const id = ++ids;
        UTL_FINALLY(([id] { cleanup(id); }))
        push(id);
        inside(depth);
        break;
      }
      case 1: {
        auto const a = ++ids, b = ++ids;
        auto const g = utl::make_finally(action{a});
        push(a);
        may_throw();
        auto const h = utl::make_finally([b] { cleanup(b); });
        push(b);
        inside(depth);
        break;
      }
      case 2: {  // the action is an object of the caller
        auto const id = ++ids;
        action act{id};
        auto const g = utl::make_finally(act);
        push(id);
        inside(depth);
        break;
      }
      case 3: {
        auto const id = ++ids;
        auto r = utl::make_raii(resource{id, std::make_unique<int>(id)}, [id](resource& x) {
          SIM_CHECK(x.id == id && x.data && *x.data == id, "wrong-resource", "the clean-up does not receive the resource");
          cleanup(id);
        });
        push(id);
        SIM_CHECK(r.get().id == id && *r.get().data == id, "wrong-resource", "get() is not the resource");
        inside(depth);
        if (sim::coin(1, 4)) {
          sim::event("resource %d disarmed", id);
          r.omit_destruct_ = true;
          sim::quiet q;
          stack->back() = 0;
        }
        inside(depth);
        break;
      }
      case 4: {  // a resource of the caller
        auto const id = ++ids;
        resource mine{id, std::make_unique<int>(id)};
        auto const r = utl::make_raii(mine, [&mine, id](resource& x) {
          SIM_CHECK(&x == &mine, "wrong-resource", "the clean-up receives a copy of the resource");
          cleanup(id);
        });
        push(id);
        inside(depth);
        break;
      }
      case 5: {  // moved on within the scope
        auto const id = ++ids;
        auto g = utl::make_finally(action{id});
        push(id);
        may_throw();
        auto h = std::move(g);
        may_throw();
        auto i = std::move(h);
        inside(depth);
        if (sim::coin(1, 3)) {
          i.exec_ = false;
          sim::quiet q;
          stack->back() = 0;
          auto j = std::move(i);
        }
        inside(depth);
        break;
      }
      case 6: {  // moved into an inner scope, which ends first
        auto const id = ++ids;
        auto g = utl::make_finally(action{id});
        in_scope([&] {
          push(id);
          auto h = std::move(g);
          inside(depth);
        });
        inside(depth);
        break;
      }
      case 7: {  // returned out of a function
        auto const a = ++ids;
        auto const make = [](int id, bool armed) {
          auto g = utl::make_finally(action{id});
          g.exec_ = armed;
          may_throw();
          return g;
        };
        bool const armed = sim::coin(3, 4);
        if (armed) { push(a); }
        auto const g = make(a, armed);
        inside(depth);
        int const b = ++ids;
        int value = b;
        auto const r = utl::make_raii(std::move(value), [b](int& v) {
          SIM_CHECK(v == b, "wrong-resource", "the clean-up receives %d, the resource is %d", v, b);
          cleanup(b);
        });
        push(b);
        inside(depth);
        break;
      }
      case 8: {  // handles, 0 is one of them
        auto const id = ++ids;
        int handle = static_cast<int>(sim::pick(4)) - 1;
        auto const h = handle;
        auto const r = utl::make_raii(std::move(handle), [h, id](int& v) {
          SIM_CHECK(v == h, "wrong-resource", "the clean-up receives %d, the resource is %d", v, h);
          cleanup(id);
        });
        push(id);
        inside(depth);
        break;
      }
      case 9: {  // null pointers and other empty values are resources, too
        auto const id = ++ids;
        int target = 1;
        int* p = sim::coin(1, 2) ? &target : nullptr;
        auto r = utl::make_raii(p, [&p, id](int*& x) {
          SIM_CHECK(&x == &p, "wrong-resource", "the clean-up receives another pointer");
          cleanup(id);
        });
        push(id);
        SIM_CHECK(r.get() == p, "wrong-resource", "get() is not the resource");
        inside(depth);
        if (sim::coin(1, 2)) { p = nullptr; }  // the resource changes while it is held
        break;
      }
      case 10: {
        auto const a = ++ids, b = ++ids;
        bool flag = sim::coin(1, 2);
        auto const r = utl::make_raii(std::move(flag), [a](bool&) { cleanup(a); });
        push(a);
        may_throw();
        auto const q = utl::make_raii(std::string{}, [b](std::string& x) {
          SIM_CHECK(x.empty(), "wrong-resource", "the clean-up receives another string");
          cleanup(b);
        });
        push(b);
        inside(depth);
        break;
      }
      case 11: {  // changed through get() and disarmed or armed again
        auto const id = ++ids;
        auto r = utl::make_raii(7, [id](int& v) {
          SIM_CHECK(v == 0, "wrong-resource", "the clean-up receives %d, the resource is 0", v);
          cleanup(id);
        });
        push(id);
        r.get() = 0;
        SIM_CHECK(static_cast<int>(r) == 0, "wrong-resource", "the resource is not what get() was set to");
        r.omit_destruct_ = sim::coin(1, 2);
        sim::point();
        r.omit_destruct_ = false;
        inside(depth);
        break;
      }
    }
  });
}

void nested() {
  {
    sim::quiet q;
    stack = new std::vector<int>;
    want.clear();
    ran.clear();
  }
  ids = 0;
  budget = 12;
  auto const base = sim::live_blocks();
  for (auto k = 1 + sim::pick(3); k > 0; --k) {
    try {
      scope(3);
    } catch (leave const&) {}
    expect(want, "outside of all scopes");
  }
  SIM_CHECK(sim::live_blocks() <= base, "leak", "memory blocks are left");
  sim::sample("[%d guards, %zu clean-ups] ", ids, ran.size());
}

}  // namespace

SIM_MAIN({"nested", nested}, {"moves", moves}, {"nested2", nested})
