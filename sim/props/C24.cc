// Look-up-or-create helpers against a model.
#include <string>
#include <unordered_map>

#include "utl/get_or_create.h"
#include "utl/get_or_create_index.h"

#include "common.h"

namespace {

bool faults;
struct watch {
  watch() { sim::watch_allocs(faults); }
  ~watch() { sim::watch_allocs(false); }
};
struct unwatch {
  unwatch() { sim::watch_allocs(false); }
  ~unwatch() { sim::watch_allocs(faults); }
};

struct my_error {
  int id;
};

// a map without emplace_hint
template <typename K, typename V>
struct flat {
  using key_type = K;
  using mapped_type = V;
  using value_type = std::pair<K, V>;
  using list = std::vector<std::unique_ptr<value_type>>;
  struct iterator {
    value_type& operator*() const { return **it; }
    value_type* operator->() const { return it->get(); }
    bool operator==(iterator const& o) const { return it == o.it; }
    typename list::iterator it;
  };
  iterator begin() { return {v.begin()}; }
  iterator end() { return {v.end()}; }
  friend iterator begin(flat& f) { return f.begin(); }
  friend iterator end(flat& f) { return f.end(); }
  iterator find(K const& k) {
    return {std::find_if(v.begin(), v.end(), [&](auto const& e) { return e->first == k; })};
  }
  std::pair<iterator, bool> emplace(K k, V x) {
    auto const it = find(k);
    if (it != end()) { return {it, false}; }
    v.push_back(std::make_unique<value_type>(std::move(k), std::move(x)));
    return {{std::prev(v.end())}, true};
  }
  template <typename P>
  std::pair<iterator, bool> insert(P&& p) { return emplace(std::forward<P>(p).first, std::forward<P>(p).second); }
  template <typename... A>
  std::pair<iterator, bool> try_emplace(K k, A&&... a) {
    auto const it = find(k);
    if (it != end()) { return {it, false}; }
    return emplace(std::move(k), V(std::forward<A>(a)...));
  }
  V& operator[](K const& k) { return try_emplace(k).first->second; }
  V& at(K const& k) {
    auto const it = find(k);
    if (it == end()) { throw std::out_of_range{"flat"}; }
    return it->second;
  }
  bool contains(K const& k) { return find(k) != end(); }
  std::size_t count(K const& k) { return contains(k); }
  bool empty() const { return v.empty(); }
  std::size_t size() const { return v.size(); }
  void erase(iterator i) { v.erase(i.it); }
  list v;
};

template <typename K>
K key(int i);
template <>
int key<int>(int i) { return i < 13 ? i * 7 % 13 : i; }
template <>
std::string key<std::string>(int i) { return std::to_string(i) + (i % 2 ? " a key that is long enough to be allocated" : ""); }

#ifdef SIM_PORTABLE
using value = std::shared_ptr<int>;
#else
using value = std::unique_ptr<int>;
#endif

template <typename Map>
struct harness {
  using K = typename Map::key_type;
  Map m;
  std::map<int, std::pair<int, value*>> model;  // key number -> content, address
  std::set<int> creating;  // keys whose creation functions are running
  int next{1};

  void compare(char const* when) {
    sim::quiet q;
    SIM_CHECK(m.size() == model.size(), "wrong-size", "%s: %zu entries, should be %zu", when, m.size(), model.size());
    for (auto const& [k, x] : model) {
      auto const it = m.find(key<K>(k));
      SIM_CHECK(it != m.end(), "entry-lost", "%s: key %d is missing", when, k);
      SIM_CHECK(it->second != nullptr && *it->second == x.first, "wrong-value", "%s: the value of key %d changed", when, k);
      SIM_CHECK(&it->second == x.second, "moved-value", "%s: the value of key %d is not where it was", when, k);
    }
  }

  // how: bit 0 creator throws, bit 1 creator looks up another key
  void look_up(int k, unsigned depth) {
    bool const present = model.contains(k);
    int calls = 0;
    bool const throws = sim::pick(6) == 5;
    bool const recursive = depth > 0 && sim::pick(4) == 3;
    int const content = next++;
    auto const fired = sim::faults_fired(sim::F_ALLOC);
    auto const create = [&]() -> value {
      unwatch const u;
      ++calls;
      SIM_CHECK(!present, "created-again", "the creation function is called for a key that is present");
      SIM_CHECK(calls == 1, "created-twice", "the creation function is called twice");
      if (recursive) {
        { sim::quiet q; creating.insert(k); }
        auto const other = static_cast<int>(sim::pick(12));
        if (!creating.contains(other)) { look_up(other, depth - 1); }
        sim::quiet q;
        creating.erase(k);
      }
      if (throws) {
        sim::note_fault(sim::F_JOB_THROW);
        sim::event("key %d: creation throws", k);
        throw my_error{content};
      }
      sim::quiet q;
      return std::make_unique<int>(content);
    };
    auto const settle = [&](value& v) {
      SIM_CHECK(calls == (present ? 0 : 1), "wrong-calls", "the creation function was called %d times, the key was%s present", calls,
                present ? "" : " not");
      SIM_CHECK(present || !throws, "swallowed", "the creation function threw and nothing was thrown");
      sim::quiet q;
      if (!present) { model[k] = {content, &v}; }
      SIM_CHECK(v != nullptr && *v == model[k].first, "wrong-value", "the value returned for key %d is not its value", k);
      SIM_CHECK(&v == model[k].second, "copy", "what is returned for key %d is not the stored value", k);
      sim::event("key %d: %s", k, present ? "found" : "created");
      if (sim::coin(1, 4)) {  // changed through the reference
        *v = model[k].first = next++;
      }
    };
    try {
      K kk = [&] {
        sim::quiet q;
        return key<K>(k);
      }();
      if (sim::coin(1, 2)) {
        K const& ck = kk;
        value* v = nullptr;
        {
          watch const w;
          v = &utl::get_or_create(m, ck, create);
        }
        settle(*v);
        SIM_CHECK(kk == key<K>(k), "key-changed", "the caller's key was changed");
      } else {
        value* v = nullptr;
        {
          watch const w;
          v = &utl::get_or_create(m, std::move(kk), create);
        }
        settle(*v);
      }
    } catch (my_error const& e) {
      SIM_CHECK(throws && e.id == content, "wrong-exception", "not the exception of the creation function");
      sim::probe("creation failed");
    } catch (std::bad_alloc const&) {
      SIM_CHECK(sim::faults_fired(sim::F_ALLOC) != fired, "refused", "out of memory though memory is available");
      sim::probe("allocation failed");
      sim::event("key %d: out of memory", k);
    }
    compare("after a look-up");
  }
};

template <typename Map>
void run() {
  faults = sim::coin(1, 2);
  auto const base = sim::live_blocks();
  unsigned steps = 0;
  {
    harness<Map> h;
    sim::enable_faults(faults ? sim::bit(sim::F_ALLOC) : 0);
    for (auto k = 3 + sim::pick(25); k > 0; --k, ++steps) { h.look_up(static_cast<int>(sim::pick(12)), 2); }
    sim::quiet q;
    h.model.clear();
  }
  SIM_CHECK(sim::live_blocks() <= base, "leak", "%ld memory blocks are left", static_cast<long>(sim::live_blocks() - base));
  sim::sample("[%u look-ups] ", steps);
}

template <typename Map>
void index() {
  faults = sim::coin(1, 2);
  using K = typename Map::key_type;
  unsigned steps = 0;
  bool const big = sim::coin(1, 30);
  auto const range = big ? 300 + sim::pick(1000) : 4 + sim::pick(60);
  {
    Map m;
    std::map<int, std::size_t> model;
    sim::enable_faults(faults ? sim::bit(sim::F_ALLOC) : 0);
    for (auto n = big ? 300 + sim::pick(1000) : 3 + sim::pick(60); n > 0; --n, ++steps) {
      auto const k = static_cast<int>(sim::pick(range));
      K kk = [&] {
        sim::quiet q;
        return key<K>(k);
      }();
      auto const fired = sim::faults_fired(sim::F_ALLOC);
      std::size_t got = 0;
      try {
        watch const w;
        got = utl::get_or_create_index(m, kk);
      } catch (std::bad_alloc const&) {
        SIM_CHECK(sim::faults_fired(sim::F_ALLOC) != fired, "refused", "out of memory though memory is available");
        SIM_CHECK(m.size() == model.size(), "half-done", "a failed look-up leaves %zu entries, there were %zu", m.size(), model.size());
        sim::probe("allocation failed");
        continue;
      }
      sim::quiet q;
      auto const [it, added] = model.emplace(k, model.size());
      SIM_CHECK(got == it->second, "wrong-index", "key %d has index %zu, should be %zu", k, got, it->second);
      SIM_CHECK(m.size() == model.size(), "wrong-size", "%zu entries, should be %zu", m.size(), model.size());
      if (big && n % 128 != 1) { continue; }
      for (auto const& [mk, mi] : model) {
        auto const f = m.find(key<K>(mk));
        SIM_CHECK(f != m.end() && static_cast<std::size_t>(f->second) == mi, "wrong-index", "key %d changed its index", mk);
      }
    }
    sim::quiet q;
    model.clear();
  }
  sim::sample("[%u look-ups] ", steps);
}

void ordered() { run<std::map<std::string, value>>(); }
void ordered_int() { run<std::map<int, value, std::greater<>>>(); }
#if SIM_PORTABLE >= 2
void hashed() { run<std::map<std::string, value>>(); }
void no_hint() { run<std::map<int, value>>(); }
template <typename V>
using hash_index = std::map<std::string, V>;
#else
void hashed() { run<std::unordered_map<std::string, value>>(); }
void no_hint() { run<flat<std::string, value>>(); }
template <typename V>
using hash_index = std::unordered_map<std::string, V>;
#endif
void many_indices() {
  sim::set_step_limit(200000000);
  sim::enable_faults(0);
  sim::sync_points_only(true);
  std::map<int, std::size_t> m;
  auto const n = 65530 + static_cast<int>(sim::pick(3000)), last = n - 1;
  for (auto i = 0; i != n; ++i) {
    auto const got = utl::get_or_create_index(m, i * 7);
    SIM_CHECK(got == static_cast<std::size_t>(i), "wrong-index", "key %d has index %zu, should be %d", i * 7, got, i);
  }
  auto const first = utl::get_or_create_index(m, 0), end = utl::get_or_create_index(m, last * 7);
  SIM_CHECK(first == 0 && end == static_cast<std::size_t>(last) && m.size() == static_cast<std::size_t>(n), "wrong-index", "keys changed their index");
  sim::probe("many keys");
}
void indices() {
  if (sim::coin(1, 1000)) { return many_indices(); }
  switch (sim::pick(3)) {
    case 0: index<std::map<std::string, std::size_t>>(); break;
    case 1: index<hash_index<unsigned>>(); break;
    case 2: index<std::map<std::string, std::uint16_t, std::greater<>>>(); break;
  }
}

}  // namespace

SIM_MAIN({"ordered", ordered}, {"ordered_int", ordered_int}, {"hashed", hashed}, {"no_hint", no_hint}, {"indices", indices})
