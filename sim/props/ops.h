// The library's operations on data of their own, each with the calls and the
// result that its definition demands (C25, C26).
#pragma once

#include <deque>
#include <numeric>
#include <span>
#include <optional>
#include <sstream>

#include "utl/cmd_line_parser.h"
#include "utl/concat.h"
#include "utl/enumerate.h"
#include "utl/equal_ranges.h"
#include "utl/equal_ranges_linear.h"
#include "utl/erase.h"
#include "utl/erase_duplicates.h"
#include "utl/erase_if.h"
#include "utl/for_each_bit_set.h"
#include "utl/generator.h"
#include "utl/get_or_create.h"
#include "utl/get_or_create_index.h"
#include "utl/helpers/algorithm.h"
#include "utl/init_from.h"
#include "utl/insert_sorted.h"
#include "utl/is_uniform.h"
#include "utl/iterator_facade.h"
#include "utl/join.h"
#include "utl/logging.h"
#include "utl/match.h"
#include "utl/nwise.h"
#include "utl/overloaded.h"
#include "utl/pairwise.h"
#include "utl/parser/arg_parser.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/buffer.h"
#include "utl/parser/csv.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/line_range.h"
#include "utl/parser/split.h"
#include "utl/pipes.h"
#include "utl/power_set_intersection.h"
#include "utl/printable_enum.h"
#include "utl/repeat_n.h"
#include "utl/sort_by.h"
#include "utl/sorted_diff.h"
#include "utl/to_set.h"
#include "utl/to_vec.h"
#include "utl/verify.h"
#include "utl/zip.h"

#include "common.h"

namespace ops {

struct failure : std::runtime_error {
  explicit failure(int t) : std::runtime_error{"callback failed"}, token{t} {}
  int token;
};
struct oddity {  // not an std::exception
  int token;
};

struct lcg {
  std::uint64_t s;
  std::uint64_t next() {
    s = s * 6364136223846793005ULL + 1442695040888963407ULL;
    return (s ^ (s >> 29)) * 0xbf58476d1ce4e5b9ULL >> 16;
  }
  unsigned below(std::uint64_t n) { return static_cast<unsigned>(next() % n); }
  bool coin() { return below(2) != 0; }
};

struct pool;

struct ctx {
  static thread_local ctx* cur;

  void hit(bool fixed, char const* what, std::string text = {}) {
    if (!armed) { return; }
    {
      sim::quiet q;
      SIM_CHECK(!dead || what == copy_mark, "called-after-failure",
                "%s: a user function is called (%s %s) after one has thrown", name, what, text.c_str());
      auto s = std::string{what} + " " + text;
      if (fixed) { sem.push_back(s); }
      log.push_back(std::move(s));
    }
    sim::point();
    if (nested && calls == nest_at) {
      armed = false;
      sim::watch_allocs(false);
      nested(*this);
      armed = true;
      sim::watch_allocs(faulty);
      cur = this;
    }
    ++calls;
    if (faulty && !dead && sim::fault(sim::F_JOB_THROW, nullptr)) {
      dead = true;
      token = calls;
      sim::event("%s: user function throws", name);
      disarm();
      if (calls % 3 == 0) { throw oddity{token}; }
      throw failure{token};
    }
  }
  void result(std::string s) {
    sim::quiet q;
    sem.push_back("= " + s);
  }
  void arm() {
    cur = this;
    armed = true;
    if (faulty) { sim::watch_allocs(true); }
  }
  void disarm() {
    // calls made from now on are still looked at if something was thrown
    sim::watch_allocs(false);
    if (!dead) { armed = false; }
  }

  static constexpr char const* copy_mark = "copy";
  char const* name{""};
  std::vector<std::string> log, sem;
  bool armed{false}, faulty{false}, dead{false};
  int calls{0}, token{0}, nest_at{-1};
  bool own_less{false}, own_eq{false};
  void (*nested)(ctx&){nullptr};
  void* user{nullptr};
  pool const* shared{nullptr};
};
inline thread_local ctx* ctx::cur = nullptr;

struct armed {
  explicit armed(ctx& x) : c{x} { c.arm(); }
  ~armed() { c.disarm(); }
  ctx& c;
};

// The elements' own order (or equality) is not that of the given functions.
struct foreign {
  explicit foreign(ctx& x, bool eq = false) : c{x} {
    c.own_less = true;
    c.own_eq = eq;
  }
  ~foreign() { c.own_less = c.own_eq = false; }
  ctx& c;
};

// An element: equal and ordered by its key, told apart by its number.
struct item {
  static thread_local long live;
  item() : item(0, 0) {}
  item(int key, int number) : k{key}, id{number}, box{new int{number}} { ++live; }
  item(item const& o) : k{o.k}, id{o.id} {
    if (ctx::cur) { ctx::cur->hit(false, ctx::copy_mark, {}); }
    o.alive();
    box = o.box ? new int{*o.box} : nullptr;
    ++live;
  }
  item(item&& o) noexcept : k{o.k}, id{o.id}, box{std::exchange(o.box, nullptr)} {
    o.alive();
    ++live;
  }
  item& operator=(item const& o) {
    o.alive();
    alive();
    if (this != &o) {
      if (ctx::cur) { ctx::cur->hit(false, ctx::copy_mark, {}); }
      auto* b = o.box ? new int{*o.box} : nullptr;
      delete box;
      box = b;
      k = o.k;
      id = o.id;
    }
    return *this;
  }
  item& operator=(item&& o) noexcept {
    o.alive();
    alive();
    if (this != &o) {
      delete box;
      box = std::exchange(o.box, nullptr);
      k = o.k;
      id = o.id;
    }
    return *this;
  }
  ~item() {
    alive();
    magic = 0xDEAD;
    delete box;
    --live;
  }
  void alive() const {
    SIM_CHECK(magic == 0x11FE, "dead-element", "%s: an element is used or destroyed that does not exist",
              ctx::cur ? ctx::cur->name : "");
  }
  bool whole() const { return magic == 0x11FE && box && *box == id; }
  friend bool operator<(item const& a, item const& b) {
    if (ctx::cur) { ctx::cur->hit(false, "less", {}); }
    return ctx::cur && ctx::cur->own_less ? b.k < a.k : a.k < b.k;
  }
  friend bool operator==(item const& a, item const& b) {
    if (ctx::cur) { ctx::cur->hit(false, "equal", {}); }
    return a.k == b.k && !(ctx::cur && ctx::cur->own_eq);
  }
  friend bool operator!=(item const& a, item const& b) { return !(a == b); }

  unsigned magic{0x11FE};
  int k, id;
  int* box{};
};
inline thread_local long item::live = 0;

using items = std::vector<item>;

inline std::string str(item const& x) {
  return std::to_string(x.k) + "#" + std::to_string(x.id) + (x.whole() ? "" : "!");
}
inline std::string str(int x) { return std::to_string(x); }
inline std::string str(unsigned x) { return std::to_string(x); }
inline std::string str(std::size_t x) { return std::to_string(x); }
inline std::string str(bool x) { return x ? "true" : "false"; }
inline std::string str(double x) { return std::to_string(x); }
inline std::string str(std::string const& x) { return "'" + x + "'"; }
inline std::string str(std::string_view x) { return "'" + std::string{x} + "'"; }
inline std::string str(utl::cstr x) { return "'" + (x.str ? x.to_str() : std::string{}) + "'"; }
template <typename A, typename B>
std::string str(std::pair<A, B> const& p);
template <typename T>
std::string str(std::vector<T> const& v) {
  std::string s = "[";
  for (auto const& x : v) { s += (s.size() > 1 ? "," : "") + str(x); }
  return s + "]";
}
template <typename T>
std::string str(std::set<T> const& v) {
  std::string s = "{";
  for (auto const& x : v) { s += (s.size() > 1 ? "," : "") + str(x); }
  return s + "}";
}
template <typename A, typename B>
std::string str(std::pair<A, B> const& p) { return "(" + str(p.first) + " " + str(p.second) + ")"; }
template <typename It>
std::string strs(It a, It b) {
  std::string s = "[";
  for (; a != b; ++a) { s += (s.size() > 1 ? "," : "") + str(*a); }
  return s + "]";
}
// the same elements in any order
inline std::string bag(items const& v) {
  std::vector<std::string> x;
  for (auto const& i : v) { x.push_back(str(i)); }
  std::sort(begin(x), end(x));
  std::string s;
  for (auto const& i : x) { s += i + " "; }
  return s;
}
template <typename It>
std::string bag(It a, It b) {
  std::vector<std::string> x;
  for (; a != b; ++a) { x.push_back(str(*a)); }
  std::sort(begin(x), end(x));
  std::string s;
  for (auto const& i : x) { s += i + " "; }
  return s;
}

// mostly few; now and then more than fits into any small buffer
inline unsigned how_many(lcg& r, unsigned max) {
  auto const x = r.below(32);
  return x == 0 ? max + r.below(70) : x == 1 && max > 10 ? r.below(700) : r.below(max + 1);
}
inline items make_items(lcg& r, unsigned max, unsigned keys, bool sorted) {
  items v;
  auto const n = how_many(r, max);
  if (n > 10 && r.coin()) { keys *= 12; }
  std::vector<int> k;
  for (auto i = 0U; i != n; ++i) { k.push_back(static_cast<int>(r.below(keys))); }
  if (sorted) { std::sort(begin(k), end(k)); }
  auto const base = static_cast<int>(r.below(10) * 100);
  v.reserve(n);
  for (auto i = 0U; i != n; ++i) { v.emplace_back(k[i], base + static_cast<int>(i)); }
  return v;
}
inline std::string make_text(lcg& r, char const* alphabet, unsigned max) {
  std::string s;
  auto const n = how_many(r, max), k = static_cast<unsigned>(strlen(alphabet));
  for (auto i = 0U; i != n; ++i) { s += alphabet[r.below(k)]; }
  return s;
}

// data that several threads read at the same time
struct pool {
  explicit pool(std::uint64_t seed) {
    lcg r{seed};
    for (auto& v : sorted) { v = make_items(r, 6, 4, true); }
    for (auto& v : unsorted) { v = make_items(r, 6, 4, false); }
    for (auto& t : text) { t = make_text(r, "ab,\n \r\"", 20); }
    for (auto& v : ints) {
      v.resize(how_many(r, 6));
      for (auto& x : v) { x = static_cast<int>(r.below(5)); }
    }
  }
  std::string digest() const {
    std::string s;
    for (auto const& v : sorted) { s += str(v); }
    for (auto const& v : unsorted) { s += str(v); }
    for (auto const& v : ints) { s += str(v); }
    for (auto const& t : text) { s += str(t); }
    return s;
  }
  std::array<items, 3> sorted, unsorted;
  std::array<std::vector<int>, 3> ints;
  std::array<std::string, 3> text;
};

// input that is only read: shared between threads if there is a pool
template <typename T>
struct input {
  input(ctx& x, T mine, T const* theirs) : c{x}, own{std::move(mine)}, p{theirs ? const_cast<T*>(theirs) : &own} {
    sim::quiet q;
    before = str(*p);
  }
  ~input() {
    sim::quiet q;
    SIM_CHECK(str(*p) == before, "input-changed", "%s: input that is only read was %s, now it is %s", c.name,
              before.c_str(), str(*p).c_str());
  }
  T& operator*() { return *p; }
  ctx& c;
  T own;
  T* p;
  std::string before;
};
inline input<items> sorted(ctx& c, lcg& r, unsigned max = 6) {
  sim::quiet q;
  auto const i = r.below(3);
  return {c, c.shared ? items{} : make_items(r, max, 4, true), c.shared ? &c.shared->sorted[i] : nullptr};
}
inline input<items> unsorted(ctx& c, lcg& r, unsigned max = 6) {
  sim::quiet q;
  auto const i = r.below(3);
  return {c, c.shared ? items{} : make_items(r, max, 4, false), c.shared ? &c.shared->unsorted[i] : nullptr};
}
inline input<std::vector<int>> ints(ctx& c, lcg& r) {
  sim::quiet q;
  auto const i = r.below(3);
  std::vector<int> v;
  if (!c.shared) {
    v.resize(how_many(r, 6));
    for (auto& x : v) { x = static_cast<int>(r.below(5)); }
  }
  return {c, v, c.shared ? &c.shared->ints[i] : nullptr};
}
inline input<std::string> text(ctx& c, lcg& r, char const* alphabet = "ab,\n \r") {
  sim::quiet q;
  auto const i = r.below(3);
  return {c, c.shared ? std::string{} : make_text(r, alphabet, 20), c.shared ? &c.shared->text[i] : nullptr};
}

// which of the operations of a family
inline unsigned kind(lcg& r, unsigned n) {
  auto const k = r.below(n);
  sim::event("  kind %u", k);
  return k;
}

struct op {
  char const* name;
  void (*real)(ctx&, lcg);
  void (*model)(ctx&, lcg);
};

// ---- joins -------------------------------------------------------------------
struct by_key {
  template <typename A, typename B>
  bool operator()(A const& a, B const& b) const {
    ctx::cur->hit(false, "cmp", {});
    return a.k < b.k;
  }
};
// an order of its own: several keys are equivalent
struct coarse_descending {
  template <typename A, typename B>
  bool operator()(A const& a, B const& b) const {
    ctx::cur->hit(false, "cmp", {});
    return a.k / 3 > b.k / 3;
  }
};
inline std::string quiet_strs(auto a, auto b) {
  sim::quiet q;
  return strs(a, b);
}
inline std::string quiet_str(auto const& x) {
  sim::quiet q;
  return str(x);
}

template <int Kind>  // 0 inner, 1 left, 2 full
void join_real(ctx& c, lcg r) {
  auto a = sorted(c, r), b = sorted(c, r);
  auto& va = *a;
  auto& vb = *b;
  auto const both = [&](auto a0, auto a1, auto b0, auto b1) {
    c.hit(true, "match", quiet_strs(a0, a1) + quiet_strs(b0, b1));
  };
  auto const left = [&](auto a0, auto a1) { c.hit(true, "left", quiet_strs(a0, a1)); };
  auto const right = [&](auto a0, auto a1) { c.hit(true, "right", quiet_strs(a0, a1)); };
  auto const v = r.below(4);
  armed const x{c};
  if constexpr (Kind == 0) {
    switch (v) {
      case 0: utl::inner_join(va, vb, both); break;
      case 1: { foreign f{c}; utl::inner_join(va, vb, by_key{}, both); break; }
      case 2: utl::inner_join(va.begin(), va.end(), vb.begin(), vb.end(), both); break;
      case 3: { foreign f{c}; utl::inner_join(va.begin(), va.end(), vb.begin(), vb.end(), by_key{}, both); break; }
    }
  } else if constexpr (Kind == 1) {
    switch (v) {
      case 0: utl::left_join(va, vb, both, left); break;
      case 1: { foreign f{c}; utl::left_join(va, vb, by_key{}, both, left); break; }
      case 2: utl::left_join(va.begin(), va.end(), vb.begin(), vb.end(), both, left); break;
      case 3: { foreign f{c}; utl::left_join(va.begin(), va.end(), vb.begin(), vb.end(), by_key{}, both, left); break; }
    }
  } else {
    switch (v) {
      case 0: utl::full_join(va, vb, both, left, right); break;
      case 1: { foreign f{c}; utl::full_join(va, vb, by_key{}, both, left, right); break; }
      case 2: utl::full_join(va.begin(), va.end(), vb.begin(), vb.end(), both, left, right); break;
      case 3: { foreign f{c}; utl::full_join(va.begin(), va.end(), vb.begin(), vb.end(), by_key{}, both, left, right); break; }
    }
  }
}
template <int Kind>
void join_model(ctx& c, lcg r) {
  auto a = sorted(c, r), b = sorted(c, r);
  for (int k = 0; k < 48; ++k) {
    std::string l, m;
    items x, y;
    for (auto const& i : *a) { if (i.k == k) { x.push_back(i); } }
    for (auto const& i : *b) { if (i.k == k) { y.push_back(i); } }
    if (!x.empty() && !y.empty()) { c.sem.push_back("match " + str(x) + str(y)); }
    else if (!x.empty() && Kind > 0) { c.sem.push_back("left " + str(x)); }
    else if (!y.empty() && Kind > 1) { c.sem.push_back("right " + str(y)); }
  }
}

inline void diff_real(ctx& c, lcg r) {
  auto a = sorted(c, r), b = sorted(c, r);
  // one element per key
  items x, y;
  {
    sim::quiet q;
    for (auto const& i : *a) { if (x.empty() || x.back().k < i.k) { x.push_back(i); } }
    for (auto const& i : *b) { if (y.empty() || y.back().k < i.k) { y.push_back(i); } }
  }
  auto const fn = utl::overloaded{[&](utl::op o, item const& i) { c.hit(true, "one", std::string{utl::to_str(o)} + quiet_str(i)); },
                                  [&](item const& i, item const& j) { c.hit(true, "changed", quiet_str(i) + quiet_str(j)); }};
  struct both {
    void operator()(utl::op o, item const& i) const { c.hit(true, "one", std::string{utl::to_str(o)} + quiet_str(i)); }
    void operator()(item const& i, item const& j) const { c.hit(true, "changed", quiet_str(i) + quiet_str(j)); }
    ctx& c;
  };
  auto const same = [&](item const& i, item const& j) {
    c.hit(false, "deep", {});
    return i.id % 2 == j.id % 2;
  };
  (void)fn;
  auto const v = r.below(2);
  armed const g{c};
  foreign const f{c, true};
  if (v == 0) { utl::sorted_diff(x, y, by_key{}, same, both{c}); }
  else { utl::sorted_diff(x.begin(), x.end(), y.begin(), y.end(), by_key{}, same, both{c}); }
}
inline void diff_model(ctx& c, lcg r) {
  auto a = sorted(c, r), b = sorted(c, r);
  std::map<int, std::pair<item const*, item const*>> m;
  for (auto const& i : *a) { auto& e = m[i.k]; if (!e.first) { e.first = &i; } }
  for (auto const& i : *b) { auto& e = m[i.k]; if (!e.second) { e.second = &i; } }
  for (auto const& [k, e] : m) {
    if (!e.second) { c.sem.push_back("one del" + str(*e.first)); }
    else if (!e.first) { c.sem.push_back("one add" + str(*e.second)); }
    else if (e.first->id % 2 != e.second->id % 2) { c.sem.push_back("changed " + str(*e.first) + str(*e.second)); }
  }
}

inline void power_real(ctx& c, lcg r) {
  auto a = sorted(c, r, 4), b = sorted(c, r, 4);
  auto& va = *a;
  auto& vb = *b;
  std::vector<std::string> pairs;
  auto const fn = [&](item const& i, item const& j) {
    c.hit(false, "pair", quiet_str(i) + quiet_str(j));
    sim::quiet q;
    pairs.push_back(str(i) + str(j));
  };
  auto const v = r.below(2);
  {
    armed const g{c};
    if (v == 0) { utl::power_set_intersection(va, vb, fn); }
    else {
      foreign const f{c};
      utl::power_set_intersection(va.begin(), va.end(), vb.begin(), vb.end(), fn, by_key{});
    }
  }
  sim::quiet q;
  std::sort(begin(pairs), end(pairs));
  c.result(str(pairs));
  std::vector<std::string>{}.swap(pairs);
}
inline void power_model(ctx& c, lcg r) {
  auto a = sorted(c, r, 4), b = sorted(c, r, 4);
  std::vector<std::string> pairs;
  for (auto const& i : *a) {
    for (auto const& j : *b) {
      if (i.k == j.k) { pairs.push_back(str(i) + str(j)); }
    }
  }
  std::sort(begin(pairs), end(pairs));
  c.result(str(pairs));
}

// ---- groups ------------------------------------------------------------------
inline void ranges_real(ctx& c, lcg r) {
  auto a = unsorted(c, r);
  auto v = [&] { sim::quiet q; return *a; }();
  auto const fn = [&](auto x, auto y) {
    std::string s;
    {
      sim::quiet q;
      s = bag(x, y);
    }
    c.hit(true, "group", s);
  };
  auto const k = kind(r, 3);
  armed const g{c};
  switch (k) {
    case 0: utl::equal_ranges(v, fn); break;
    case 1: { foreign const f{c, true}; utl::equal_ranges(v, by_key{}, fn); break; }
    case 2: utl::equal_ranges(v, coarse_descending{}, fn); break;
  }
}
inline void ranges_model(ctx& c, lcg r) {
  auto a = unsorted(c, r);
  bool const coarse = r.below(3) == 2;
  for (int k = 0; k < 48; ++k) {
    items g;
    for (auto const& i : *a) { if (coarse ? 47 - i.k / 3 == k : i.k == k) { g.push_back(i); } }
    if (!g.empty()) { c.sem.push_back("group " + bag(g)); }
  }
}
inline void linear_real(ctx& c, lcg r) {
  auto a = unsorted(c, r);
  auto& v = *a;
  auto const fn = [&](auto x, auto y) { c.hit(true, "group", quiet_strs(x, y)); };
  auto const eq = [&](item const& x, item const& y) {
    c.hit(false, "eq", {});
    return x.k == y.k;
  };
  auto const k = kind(r, 4);
  armed const g{c};
  switch (k) {
    case 0: utl::equal_ranges_linear(v, fn); break;
    case 1: { foreign const f{c, true}; utl::equal_ranges_linear(v, eq, fn); break; }
    case 2: utl::equal_ranges_linear(v.begin(), v.end(), fn); break;
    case 3: { foreign const f{c, true}; utl::equal_ranges_linear(v.begin(), v.end(), eq, fn); break; }
  }
}
inline void linear_model(ctx& c, lcg r) {
  auto a = unsorted(c, r);
  auto const& v = *a;
  for (std::size_t i = 0; i < v.size();) {
    auto j = i;
    while (j < v.size() && v[j].k == v[i].k) { ++j; }
    c.sem.push_back("group " + strs(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(j)));
    i = j;
  }
}
inline void uniform_real(ctx& c, lcg r) {
  auto a = unsorted(c, r, 3);
  auto b = ints(c, r);
  auto const odd = [&](item const& x) {
    c.hit(false, "pred", {});
    return x.k % 2;
  };
  auto const k = kind(r, 3);
  auto& v = *a;
  bool u = false;
  {
    armed const g{c};
    switch (k) {
      case 0: u = v.empty() || utl::is_uniform(v); break;
      case 1: u = v.empty() || utl::is_uniform(v.begin(), v.end(), odd); break;
      case 2: u = (*b).empty() || utl::is_uniform((*b).begin(), (*b).end()); break;
    }
  }
  c.result(str(u));
}
inline void uniform_model(ctx& c, lcg r) {
  auto a = unsorted(c, r, 3);
  auto b = ints(c, r);
  auto const k = r.below(3);
  std::set<int> s;
  if (k == 2) { s.insert(begin(*b), end(*b)); }
  else { for (auto const& i : *a) { s.insert(k == 0 ? i.k : i.k % 2); } }
  c.result(str(s.size() <= 1));
}

// ---- texts -------------------------------------------------------------------
inline std::string view(std::string const& t, utl::cstr s) {
  sim::quiet q;
  // an empty view may lie anywhere
  SIM_CHECK(s.len == 0 || (s.str >= t.data() && s.str + s.len <= t.data() + t.size()), "foreign-view",
            "%s: a view points outside of the text", ctx::cur->name);
  return str(s);
}
inline std::vector<std::string> pieces(std::string const& t, char sep) {
  std::vector<std::string> v;
  std::size_t at = 0;
  while (at < t.size()) {
    auto const e = std::min(t.find(sep, at), t.size());
    v.push_back(t.substr(at, e - at));
    at = e + 1;
  }
  return v;
}
inline std::string no_cr(std::string s) {
  if (!s.empty() && s.back() == '\r') { s.pop_back(); }
  return s;
}
inline void tokens_real(ctx& c, lcg r) {
  auto t = text(c, r);
  auto const& s = *t;
  auto const k = kind(r, 11), stop = r.below(4);
  auto n = 0U;
  auto const n_lines = [&] { sim::quiet q; return pieces(s, '\n').size(); }();
  auto const with_nul = [&](char const* x) { sim::quiet q; return s + std::string(1, '\0') + x; };
  auto const one = with_nul("1"), two = with_nul("2"), same = with_nul("1");
  armed const g{c};
  switch (k) {
    case 0: utl::for_each_token(s, ',', [&](utl::cstr x) { c.hit(true, "token", view(s, x)); }); break;
    case 1:
      utl::for_each_token(s, ',', [&](utl::cstr x) {
        c.hit(true, "token", view(s, x));
        return n++ == stop ? utl::continue_t::kBreak : utl::continue_t::kContinue;
      });
      break;
    case 2: utl::for_each_token_numbered(s, ',', [&](utl::cstr x, int i) { c.hit(true, "token", std::to_string(i) + view(s, x)); }); break;
    case 3: utl::for_each_line(s, [&](utl::cstr x) { c.hit(true, "line", view(s, x)); }); break;
    case 4: utl::for_each_line_numbered(s, [&](utl::cstr x, unsigned i) { c.hit(true, "line", std::to_string(i) + view(s, x)); }); break;
    case 5: {
      auto const rest = utl::skip_lines(s, [&](utl::cstr x) {
        c.hit(true, "skip", view(s, x));
        return n++ != stop;
      });
      c.result(view(s, rest));
      break;
    }
    case 6: for (auto const& x : utl::lines{s}) { c.hit(true, "line", view(s, x)); } break;
    case 7: {
      utl::cstr const x{s};
      c.result(view(s, x.trim()) + view(s, x.substr(stop, utl::size{3})) + view(s, x.substr(stop, std::size_t{5})) +
               str(x.contains("a,")) + str(x.starts_with("a")) + str(utl::cstr{s}.substr_offset("b") < s.size()) +
               view(s, utl::get_line(x)) + str(x == utl::cstr{s + ""}));
      break;
    }
    case 8: {
      utl::cstr x{s};
      while (x) {
        c.hit(true, "rest", view(s, x));
        utl::skip_line(x);
      }
      break;
    }
    case 9: {
      utl::cstr const x{s}, a{one}, b{two}, d{same};
      c.result(str(a == b) + str(a != b) + str(a < b) + str(b < a) + str(a == d) + str(a != d) + str(a < d) + str(x == a) + str(x < a) + str(a < x) +
               str(a.starts_with(x)) + str(a.starts_with(b)) + str(a.starts_with(d)) + str(x.starts_with(a)) + str(a.contains(b)) + str(a.contains(x)) +
               str(utl::cstr{one}.substr_offset(utl::cstr{two})  < one.size()));
      break;
    }
    case 10: {
      if (n_lines == 0) { break; }
      utl::lines const l{s};
      auto it = begin(l);
      auto const m = static_cast<std::ptrdiff_t>(std::min<std::size_t>(stop, n_lines - 1));
      auto const j = it + m;
      c.hit(true, "later", view(s, *j));
      c.hit(true, "first", view(s, *it));
      auto e = it;
      e += static_cast<std::ptrdiff_t>(n_lines);
      c.hit(true, "end", str(e == end(l)) + str(it == begin(l)) + str(it == end(l)) + str(j != it));
      auto const old = it++;
      c.hit(true, "old", view(s, *old) + (n_lines > 1 ? view(s, *it) : std::string{}));
      break;
    }
  }
}
inline void tokens_model(ctx& c, lcg r) {
  auto t = text(c, r);
  auto const k = r.below(11), stop = r.below(4);
  auto const p = pieces(*t, k < 3 ? ',' : '\n');
  if (k == 9) {
    c.result("falsetruetruefalse" "truefalsefalse" "falsetruefalse" "truefalsetruefalse" "falsetruefalse");
    return;
  }
  if (k == 10) {
    if (!p.empty()) {
      auto const m = std::min<std::size_t>(stop, p.size() - 1);
      c.sem.push_back("later " + str(no_cr(p[m])));
      c.sem.push_back("first " + str(no_cr(p[0])));
      c.sem.push_back("end truetruefalse" + str(m != 0));
      c.sem.push_back("old " + str(no_cr(p[0])) + (p.size() > 1 ? str(no_cr(p[1])) : std::string{}));
    }
    return;
  }
  auto n = 0U;
  std::size_t used = 0;
  for (auto const& x : p) {
    switch (k) {
      case 0: case 1: c.sem.push_back("token " + str(x)); break;
      case 2: c.sem.push_back("token " + std::to_string(n + 1) + str(x)); break;
      case 3: c.sem.push_back("line " + str(no_cr(x))); break;
      case 4: c.sem.push_back("line " + std::to_string(n + 1) + str(no_cr(x))); break;
      case 5: c.sem.push_back("skip " + str(no_cr(x))); break;
      case 6: c.sem.push_back("line " + str(no_cr(x))); break;
      case 8: c.sem.push_back("rest " + str((*t).substr(used))); break;
    }
    if ((k == 1 || k == 5) && n == stop) { break; }
    ++n;
    used += x.size() + 1;
  }
  if (k == 7) {
    auto const& s = *t;
    std::size_t i = 0, j = s.size();
    auto const space = [&](std::size_t x) { return s[x] == ' ' || s[x] == '\n'; };
    while (i < j && space(i)) { ++i; }
    while (j > i && space(j - 1)) { --j; }
    auto const from = std::min<std::size_t>(stop, s.size()), to = std::min<std::size_t>(5, s.size());
    c.result(str(s.substr(i, j - i)) + str(s.substr(from, 3)) + str(s.substr(from, to - from)) +
             str(s.find("a,") != std::string::npos) + str(s.rfind("a", 0) == 0) + str(s.find("b") != std::string::npos) +
             str(no_cr(s.substr(0, s.find('\n')))) + "true");
  }
  if (k == 5) { c.result(str(used < (*t).size() ? (*t).substr(used) : std::string{})); }
}

// ---- views -------------------------------------------------------------------
struct squares : utl::iterator_facade<squares> {
  squares() = default;
  explicit squares(int i) : n{i} {}
  int dereference() const { return n * n; }
  void advance(std::ptrdiff_t d) { n += static_cast<int>(d); }
  std::ptrdiff_t distance_to(squares const& o) const { return o.n - n; }
  bool equal_to(squares const& o) const { return n == o.n; }
  int n{0};
};
inline void views_real(ctx& c, lcg r) {
  auto a = ints(c, r), b = ints(c, r);
  auto x = unsorted(c, r);
  auto& va = *a;
  auto& vb = *b;
  auto const& vx = *x;
  auto const k = kind(r, 18);
  armed const g{c};
  switch (k) {
    case 0:
      try {
        for (auto const& [i, j] : utl::zip(va, vb)) { c.hit(true, "zip", str(i) + " " + str(j)); }
      } catch (failure const&) { throw; } catch (std::bad_alloc const&) { throw;
      } catch (std::exception const& e) {
        c.hit(true, "mismatch", e.what());
      }
      break;
    case 1:
      for (auto const& [i, j] : utl::zip(va, va)) {
        c.hit(true, "zip", str(&i == &j) + str(i) + str(static_cast<std::size_t>(&i - va.data())));
      }
      break;
    case 2: for (auto const& [i, j] : utl::pairwise(va)) { c.hit(true, "pair", str(i) + " " + str(j)); } break;
    case 3: for (auto const& [i, j, l] : utl::nwise<3>(va)) { c.hit(true, "three", str(i) + " " + str(j) + " " + str(l)); } break;
    case 4:
      for (auto const& [n, i] : utl::enumerate(vx)) {
        c.hit(true, "nth", str(n) + quiet_str(i) + str(static_cast<std::size_t>(&i - vx.data())));
      }
      break;
    case 5: {
      auto copy = va;
      for (auto const& [n, i] : utl::enumerate(std::move(copy))) { c.hit(true, "nth", str(n) + " " + str(i)); }
      break;
    }
    case 6: {
      auto copy = va;
      for (auto const& [i, j] : utl::pairwise(std::move(copy))) { c.hit(true, "pair", str(i) + " " + str(j)); }
      break;
    }
    case 7: {
      auto const z = utl::czip(va, va);
      auto n = std::size_t{0};
      for (auto const& [i, j] : z) {
        auto const& [p, q] = z[n];
        c.hit(true, "zip", str(i + j) + " " + str(p + q) + " " + str(z.size()));
        ++n;
      }
      break;
    }
    case 8:
      for (auto const& [i, j, l] : utl::zip(va, va, vx.empty() ? va : va)) { c.hit(true, "three", str(i) + str(j) + str(l)); }
      break;
    case 9: {
      auto copy = va;
      for (auto&& [n, i] : utl::enumerate(copy)) {
        c.hit(true, "nth", str(n));
        i += static_cast<int>(n);
      }
      c.result(str(copy));
      break;
    }
    case 10: {
      auto p = va, q = va;
      for (auto&& [i, j] : utl::zip(p, q)) {
        c.hit(true, "zip", {});
        std::swap(i, j);
        i += 10;
      }
      c.result(str(p) + str(q));
      break;
    }
    case 11: {
      auto p = va;
      for (auto const& [i, j] : utl::zip(std::move(p), va)) { c.hit(true, "zip", str(i) + str(j)); }
      break;
    }
    case 12: {
      auto it = utl::pairwise_begin(va);
      auto const e = utl::pairwise_end(va);
      if (va.size() > 1) {
        for (; it != e; ++it) {
          auto const [i, j] = *it;
          c.hit(true, "pair", str(i) + str(j));
        }
      }
      c.result(str(utl::nwise<4>(va).size()) + str(utl::pairwise(va).size()));
      break;
    }
    case 13: {
      auto w = utl::enumerate(va);
      auto it = w.begin();
      auto const e = w.end();
      auto n = static_cast<long>(va.size());
      if (n >= 2) {
        it += n - 1;
        c.hit(true, "last", str(std::get<0>(*it)) + str(std::get<1>(*it)));
        it -= n - 2;
        c.hit(true, "second", str(std::get<0>(*it)) + str(std::get<1>(*it)));
        --it;
        c.hit(true, "first", str(std::get<0>(*it)) + str(std::get<1>(*it)));
        ++it;
        c.hit(true, "second", str(std::get<0>(*it)) + str(std::get<1>(*it)) + str(it != e));
      }
      c.hit(true, "distance", str(static_cast<int>(e - w.begin())) + str(static_cast<int>(w.begin() - e)));
      for (auto back = w.end(); back != w.begin();) {
        --back;
        c.hit(true, "back", str(std::get<0>(*back)) + str(std::get<1>(*back)));
      }
      {
        std::set<int> const l(va.begin(), va.end());
        auto wl = utl::enumerate(l);
        for (auto back = wl.end(); back != wl.begin();) {
          --back;
          c.hit(true, "set", str(std::get<0>(*back)) + str(std::get<1>(*back)));
        }
      }
      break;
    }
    case 14: {
      std::vector<item const*> p;
      for (auto const& i : vx) { p.push_back(&i); }
      for (auto const& [n, i] : utl::enumerate(p)) { c.hit(true, "nth", str(n) + quiet_str(*i)); }
      break;
    }
    case 15: {
      auto const z = utl::zip_no_size_check(va, vb);
      auto it = z.begin();
      for (std::size_t n = 0; n < std::min(va.size(), vb.size()); ++n, ++it) {
        auto const& [i, j] = *it;
        c.hit(true, "zip", str(i) + str(j));
      }
      while (it != z.begin()) {
        --it;
        auto const& [i, j] = *it;
        c.hit(true, "back", str(i) + str(j));
      }
      break;
    }
    case 16: {
      std::array<int, 3> const fixed{7, 8, 9};
      for (auto const& [i, j] : utl::pairwise(fixed)) { c.hit(true, "pair", str(i) + str(j)); }
      std::map<int, int> const m{{1, 2}, {3, 4}};
      for (auto const& [n, e] : utl::enumerate(m)) { c.hit(true, "nth", str(n) + str(e.first) + str(e.second)); }
      break;
    }
    case 17: {
      squares const b{0}, e{static_cast<int>(va.size())};
      auto it = b;
      for (; it != e; ++it) { c.hit(true, "square", str(*it)); }
      if (!va.empty()) {
        auto old = it--;
        c.hit(true, "back", str(*it) + str(old == e) + str(old - it == 1) + str(static_cast<int>(e - b)));
      }
      break;
    }
  }
}
inline void views_model(ctx& c, lcg r) {
  auto a = ints(c, r), b = ints(c, r);
  auto x = unsorted(c, r);
  auto const k = r.below(18);
  auto const& v = *a;
  auto const n = v.size();
  switch (k) {
    case 0:
      if (n != (*b).size()) {
        c.sem.push_back("mismatch utl::zip container size mismatch " + std::to_string((*b).size()) + " vs " + std::to_string(n));
      } else {
        for (std::size_t i = 0; i < n; ++i) { c.sem.push_back("zip " + str(v[i]) + " " + str((*b)[i])); }
      }
      break;
    case 1: for (std::size_t i = 0; i < n; ++i) { c.sem.push_back("zip true" + str(v[i]) + str(i)); } break;
    case 2: case 6: for (std::size_t i = 1; i < n; ++i) { c.sem.push_back("pair " + str(v[i - 1]) + " " + str(v[i])); } break;
    case 3: for (std::size_t i = 2; i < n; ++i) { c.sem.push_back("three " + str(v[i - 2]) + " " + str(v[i - 1]) + " " + str(v[i])); } break;
    case 4: for (std::size_t i = 0; i < (*x).size(); ++i) { c.sem.push_back("nth " + str(i) + str((*x)[i]) + str(i)); } break;
    case 5: for (std::size_t i = 0; i < n; ++i) { c.sem.push_back("nth " + str(i) + " " + str(v[i])); } break;
    case 7: for (std::size_t i = 0; i < n; ++i) { c.sem.push_back("zip " + str(2 * v[i]) + " " + str(2 * v[i]) + " " + str(n)); } break;
    case 8: for (std::size_t i = 0; i < n; ++i) { c.sem.push_back("three " + str(v[i]) + str(v[i]) + str(v[i])); } break;
    case 9: {
      auto o = v;
      for (std::size_t i = 0; i < n; ++i) {
        c.sem.push_back("nth " + str(i));
        o[i] += static_cast<int>(i);
      }
      c.result(str(o));
      break;
    }
    case 10: {
      auto p = v;
      for (auto& i : p) {
        c.sem.push_back("zip ");
        i += 10;
      }
      c.result(str(p) + str(v));
      break;
    }
    case 11: for (auto i : v) { c.sem.push_back("zip " + str(i) + str(i)); } break;
    case 12:
      for (std::size_t i = 1; i < n; ++i) { c.sem.push_back("pair " + str(v[i - 1]) + str(v[i])); }
      c.result(str(n < 4 ? 0 : n - 3) + str(n < 2 ? 0 : n - 1));
      break;
    case 13:
      if (n >= 2) {
        c.sem.push_back("last " + str(n - 1) + str(v.back()));
        c.sem.push_back("second 1" + str(v[1]));
        c.sem.push_back("first 0" + str(v[0]));
        c.sem.push_back("second 1" + str(v[1]) + "true");
      }
      c.sem.push_back("distance " + str(static_cast<int>(n)) + str(-static_cast<int>(n)));
      for (auto i = n; i-- > 0;) { c.sem.push_back("back " + str(i) + str(v[i])); }
      {
        std::set<int> const l(v.begin(), v.end());
        auto i = l.size();
        for (auto x = l.rbegin(); x != l.rend(); ++x) { c.sem.push_back("set " + str(--i) + str(*x)); }
      }
      break;
    case 14: for (std::size_t i = 0; i < (*x).size(); ++i) { c.sem.push_back("nth " + str(i) + str((*x)[i])); } break;
    case 15: {
      auto const m = std::min(n, (*b).size());
      for (std::size_t i = 0; i < m; ++i) { c.sem.push_back("zip " + str(v[i]) + str((*b)[i])); }
      for (auto i = m; i-- > 0;) { c.sem.push_back("back " + str(v[i]) + str((*b)[i])); }
      break;
    }
    case 16:
      for (auto const* t : {"pair 78", "pair 89", "nth 012", "nth 134"}) { c.sem.push_back(t); }
      break;
    case 17:
      for (std::size_t i = 0; i < n; ++i) { c.sem.push_back("square " + str(i * i)); }
      if (n != 0) { c.sem.push_back("back " + str((n - 1) * (n - 1)) + "truetrue" + str(n)); }
      break;
  }
}

// ---- pipelines ---------------------------------------------------------------
inline void pipes_real(ctx& c, lcg r) {
  auto x = unsorted(c, r);
  auto y = ints(c, r);
  auto& v = *x;
  auto& w = *y;
  auto const odd = [&](item const& i) { c.hit(false, "remove?", {}); return i.k % 2 == 1; };
  auto const iodd = [&](int i) { c.hit(false, "remove?", {}); return i % 2 == 1; };
  auto const twice = [&](int i) { c.hit(false, "transform", {}); return 2 * i; };
  auto const key = [&](item const& i) { c.hit(false, "transform", {}); return i.k; };
  auto const k = kind(r, 26);
  std::string s;
  {
    armed const g{c};
    switch (k) {
      case 0: { auto const o = utl::all(v) | utl::remove_if(odd) | utl::vec(); c.disarm(); s = quiet_str(o); break; }
      case 1: { auto const o = utl::all(v) | utl::transform(key) | utl::vec(); s = quiet_str(o); break; }
      case 2: { auto const o = utl::all(w) | utl::transform(twice) | utl::remove_if([&](int i) { c.hit(false, "remove?", {}); return i == 4; }) | utl::vec(); s = quiet_str(o); break; }
      case 3: { auto const o = utl::all(w) | utl::unique() | utl::vec(); s = quiet_str(o); break; }
      case 4: utl::all(v) | utl::remove_if(odd) | utl::for_each([&](item const& i) { c.hit(true, "each", quiet_str(i)); }); break;
      case 5: { auto const o = utl::all(w) | utl::remove_if(iodd) | utl::sum(); s = str(static_cast<std::size_t>(o)); break; }
      case 6: { auto const o = utl::all(v) | utl::count(odd); s = str(o); break; }
      case 7: { auto const o = utl::all(w) | utl::find([&](int i) { c.hit(false, "find?", {}); return i > 2; }); s = o ? str(*o) : "none"; break; }
      case 8: { auto const o = utl::all(w) | utl::transform(twice) | utl::accumulate([&](int a, int b) { c.hit(false, "acc", {}); return 3 * a + b; }, 1); s = str(o); break; }
      case 9: for (auto i : utl::all(w) | utl::transform(twice) | utl::iterable()) { c.hit(true, "each", str(i)); } break;
      case 10: { auto const o = utl::iota(0U, static_cast<unsigned>(w.size())) | utl::transform([&](unsigned i) { c.hit(false, "transform", {}); return w[i]; }) | utl::vec(); s = quiet_str(o); break; }
      case 11: { auto i = 0; auto const o = utl::generate([&] { c.hit(false, "generate", {}); return i++; }) | utl::take_while([&](int j) { c.hit(false, "take?", {}); return j < 4; }) | utl::vec(); s = quiet_str(o); break; }
      case 12: { auto const o = utl::all(w) | utl::transform([&](int i) { c.hit(false, "transform", {}); return static_cast<double>(i); }) | utl::max<double>{-1.0}; s = str(o); break; }
      case 13: { auto const o = utl::all(w) | utl::insert<std::set<int>>(); s = quiet_str(o); break; }
      case 14: { auto const o = utl::all(v) | utl::emplace_back<std::vector<item>>(); c.disarm(); s = quiet_str(o); break; }
      case 15: if (!w.empty()) { auto const o = utl::all(w) | utl::transform(twice) | utl::avg(); s = str(o); } break;
      case 16: { auto const o = utl::all(w) | utl::transform(twice) | utl::unique() | utl::transform(twice) | utl::vec(); s = quiet_str(o); break; }
      case 17: { auto const o = utl::all(w) | utl::remove_if(iodd) | utl::transform(twice) | utl::emplace<std::set<int>>(); s = quiet_str(o); break; }
      case 18: { auto const o = utl::all(w) | utl::take_while([&](int j) { c.hit(false, "take?", {}); return j < 3; }) | utl::vec(); s = quiet_str(o); break; }
      case 19: { auto const o = utl::all(w) | utl::transform(twice) | utl::take_while([&](int j) { c.hit(false, "take?", {}); return j < 100; }) | utl::vec(); s = quiet_str(o); break; }
      case 20: { auto const o = utl::all(std::vector<int>{5, 4, 4, 6}) | utl::unique() | utl::vec(); s = quiet_str(o); break; }
      case 21: {
        std::map<int, std::string> const m{{1, "one"}, {2, "two"}, {3, "three"}};
        auto const o = utl::all(m) | utl::remove_if([&](auto const& e) { c.hit(false, "remove?", {}); return e.first == 2; }) | utl::transform([&](auto const& e) { c.hit(false, "transform", {}); return e.second; }) | utl::vec();
        s = quiet_str(o);
        break;
      }
      case 22: { auto const o = utl::all(w) | utl::transform([&](int i) { c.hit(false, "transform", {}); return std::make_pair(i, 2 * i); }) | utl::emplace<std::map<int, int>>(); for (auto const& [a, b] : o) { s += str(a) + ":" + str(b) + " "; } break; }
      case 23: { auto const o = utl::all(w) | utl::remove_if([](int) { return true; }) | utl::unique() | utl::vec(); s = quiet_str(o); break; }
      case 24: { auto const o = utl::all(w.begin(), w.end()) | utl::remove_if(iodd) | utl::to<std::set<int>>(); s = quiet_str(o); break; }
      case 25: { auto const o = v | utl::count([&](item const& i) { c.hit(false, "count?", {}); return i.k == 1; }); auto const f = v | utl::find([&](item const& i) { c.hit(false, "find?", {}); return i.k == 2; }); c.disarm(); s = str(o) + (f ? quiet_str(*f) : "none"); break; }
    }
  }
  c.result(s);
}
inline void pipes_model(ctx& c, lcg r) {
  auto x = unsorted(c, r);
  auto y = ints(c, r);
  auto& v = *x;
  auto& w = *y;
  auto const k = r.below(26);
  std::string s;
  std::vector<int> o;
  items vo;
  switch (k) {
    case 0: case 4:
      for (auto const& i : v) {
        if (i.k % 2 != 1) {
          vo.push_back(i);
          if (k == 4) { c.sem.push_back("each " + str(i)); }
        }
      }
      if (k == 0) { s = str(vo); }
      break;
    case 1: for (auto const& i : v) { o.push_back(i.k); } s = str(o); break;
    case 2: for (auto i : w) { if (i != 2) { o.push_back(2 * i); } } s = str(o); break;
    case 3: for (auto i : w) { if (o.empty() || o.back() != i) { o.push_back(i); } } s = str(o); break;
    case 5: { std::size_t t = 0; for (auto i : w) { if (i % 2 == 0) { t += static_cast<std::size_t>(i); } } s = str(t); break; }
    case 6: { std::size_t t = 0; for (auto const& i : v) { t += i.k % 2 == 1; } s = str(t); break; }
    case 7: { s = "none"; for (auto i : w) { if (i > 2) { s = str(i); break; } } break; }
    case 8: { int t = 1; for (auto i : w) { t = 3 * t + 2 * i; } s = str(t); break; }
    case 9: for (auto i : w) { c.sem.push_back("each " + str(2 * i)); } break;
    case 10: s = str(w); break;
    case 11: s = "[0,1,2,3]"; break;
    case 12: { double m = -1; for (auto i : w) { m = std::max(m, static_cast<double>(i)); } s = str(m); break; }
    case 13: s = str(std::set<int>(begin(w), end(w))); break;
    case 14: s = str(v); break;
    case 15: if (!w.empty()) { std::size_t t = 0; for (auto i : w) { t += static_cast<std::size_t>(2 * i); } s = str(static_cast<double>(t) / static_cast<double>(w.size())); } break;
    case 16: for (auto i : w) { if (o.empty() || o.back() != 4 * i) { o.push_back(4 * i); } } s = str(o); break;
    case 17: { std::set<int> t; for (auto i : w) { if (i % 2 == 0) { t.insert(2 * i); } } s = str(t); break; }
    case 18: for (auto i : w) { if (i >= 3) { break; } o.push_back(i); } s = str(o); break;
    case 19: for (auto i : w) { o.push_back(2 * i); } s = str(o); break;
    case 20: s = "[5,4,6]"; break;
    case 21: s = "['one','three']"; break;
    case 22: for (auto i : std::set<int>(begin(w), end(w))) { s += str(i) + ":" + str(2 * i) + " "; } break;
    case 23: s = "[]"; break;
    case 24: { std::set<int> t; for (auto i : w) { if (i % 2 == 0) { t.insert(i); } } s = str(t); break; }
    case 25: {
      std::size_t t = 0;
      auto f = std::string{"none"};
      for (auto const& i : v) { t += i.k == 1; }
      for (auto const& i : v) { if (i.k == 2) { f = str(i); break; } }
      s = str(t) + f;
      break;
    }
  }
  c.result(s);
}

// ---- conversions and containers -----------------------------------------------
inline void convert_real(ctx& c, lcg r) {
  auto x = unsorted(c, r), y = unsorted(c, r);
  auto& v = *x;
  auto& w = *y;
  auto const half = [&](item const& i) { c.hit(true, "op", quiet_str(i)); return i.k / 2; };
  auto const same = [&](item const& i) { c.hit(true, "op", quiet_str(i)); return i; };
  auto const k = kind(r, 16), n = r.below(5);
  std::string s;
  switch (k) {
    case 0: { armed const g{c}; auto const o = utl::to_vec(v, half); s = quiet_str(o); break; }
    case 1: { armed const g{c}; auto const o = utl::to_vec(v.begin(), v.end(), same); c.disarm(); s = quiet_str(o); break; }
    case 2: { armed const g{c}; auto const o = utl::to_vec(v); c.disarm(); s = quiet_str(o); break; }
    case 3: { armed const g{c}; auto const o = utl::transform_to<std::vector<int>>(v, half); s = quiet_str(o); break; }
    case 4: { std::vector<item> o; armed const g{c}; utl::transform_to(v, o, same); c.disarm(); s = quiet_str(o); break; }
    case 5: { armed const g{c}; auto const o = utl::to_set(v, half); auto const i = utl::to_set(v.begin(), v.end(), half); c.disarm(); s = quiet_str(o) + quiet_str(i); break; }
    case 6: {
      auto o = [&] { sim::quiet q; return v; }();
      armed const g{c};
      auto const& ref = utl::concat(o, w);
      c.disarm();
      s = str(&ref == &o) + quiet_str(o);
      break;
    }
    case 7: {
      item const e{1, 77};
      armed const g{c};
      auto const o = utl::repeat_n(e, n);
      c.disarm();
      s = quiet_str(o);
      break;
    }
    case 8: {
      armed const g{c};
      bool const any = utl::any_of(v, [&](item const& i) { c.hit(false, "any?", {}); return i.k == 2; });
      bool const all = utl::all_of(v, [&](item const& i) { c.hit(false, "all?", {}); return i.k < 3; });
      bool const none = utl::none_of(v, [&](item const& i) { c.hit(false, "none?", {}); return i.k == 1; });
      auto const cnt = utl::count_if(v, [&](item const& i) { c.hit(false, "cnt?", {}); return i.k != 0; });
      auto const f = utl::find_if(v, [&](item const& i) { c.hit(false, "find?", {}); return i.k == 3; }) - v.begin();
      s = str(any) + str(all) + str(none) + str(static_cast<int>(cnt)) + "," + str(static_cast<int>(f));
      break;
    }
    case 9: {
      auto const bits = (std::uint64_t{n} << 60) | v.size() * 37;
      armed const g{c};
      utl::for_each_set_bit(bits, [&](unsigned b) { c.hit(true, "bit", str(b)); });
      utl::for_each_set_bit(static_cast<std::uint8_t>(bits), [&](unsigned b) { c.hit(true, "bit8", str(b)); });
      break;
    }
    case 10: {
      armed const g{c};
      bool less = false;
      std::ptrdiff_t big = 0, small = 0;
      {
        foreign const f{c, true};
        less = utl::is_sorted(v, by_key{});
        big = utl::max_element(v, by_key{}) - v.begin();
        small = utl::min_element(v, by_key{}) - v.begin();
      }
      bool const same_keys = utl::equal(v, w);
      auto const at = utl::find(v, item{2, 0}) - v.begin();
      s = str(less) + str(static_cast<int>(big)) + "," + str(static_cast<int>(small)) + str(same_keys) + str(static_cast<int>(at));
      break;
    }
    case 11: {
      auto o = [&] { sim::quiet q; return v; }();
      armed const g{c};
      utl::sort(o);
      if (!o.empty()) {
        auto const mid = o.size() / 2;
        auto const key = o[mid].k;
        std::reverse(o.begin(), o.end());
        foreign const f{c, true};
        utl::nth_element(o, mid, by_key{});
        s = str(key == o[mid].k);
      }
      utl::fill(o, item{3, 33});
      c.disarm();
      s += quiet_str(o);
      break;
    }
    // temporaries that do not own the elements
    case 13: { armed const g{c}; auto const o = utl::to_vec(std::span{v}); c.disarm(); s = quiet_str(o); break; }
    case 14: { armed const g{c}; auto const o = utl::to_vec(std::span{v}, same); c.disarm(); s = quiet_str(o); break; }
    case 15: { armed const g{c}; auto const o = utl::transform_to<items>(std::span{v}, same); c.disarm(); s = quiet_str(o); break; }
    case 12: {
      std::set<int> o{1, 2, 3};
      std::vector<int> l{1, 2, 3, 2};
      armed const g{c};
      utl::erase(o, 2);
      utl::erase(l, static_cast<int>(n));
      utl::concat(l, o);
      utl::erase_if(l, [&](int i) { c.hit(false, "erase?", {}); return i == 3; });
      s = str(o) + str(l);
      break;
    }
  }
  c.result(s);
}
inline void convert_model(ctx& c, lcg r) {
  auto x = unsorted(c, r), y = unsorted(c, r);
  auto const& v = *x;
  auto const k = r.below(16), n = r.below(5);
  if (k == 0 || k == 1 || k == 3 || k == 4 || k == 5 || k == 14 || k == 15) {
    for (auto n_calls = k == 5 ? 2 : 1; n_calls != 0; --n_calls) {
      for (auto const& i : v) { c.sem.push_back("op " + str(i)); }
    }
  }
  std::vector<int> h;
  for (auto const& i : v) { h.push_back(i.k / 2); }
  switch (k) {
    case 0: case 3: c.result(str(h)); break;
    case 1: case 2: case 4: case 13: case 14: case 15: c.result(str(v)); break;
    case 5: {
      std::set<int> const o(begin(h), end(h));
      c.result(str(o) + str(o));
      break;
    }
    case 6: { auto o = v; for (auto const& i : *y) { o.push_back(i); } c.result("true" + str(o)); break; }
    case 7: { items o; for (auto i = 0U; i != n; ++i) { o.emplace_back(1, 77); } c.result(str(o)); break; }
    case 8: {
      bool any = false, all = true, none = true;
      int cnt = 0, f = static_cast<int>(v.size());
      for (auto i = static_cast<int>(v.size()) - 1; i >= 0; --i) {
        auto const key = v[static_cast<std::size_t>(i)].k;
        any = any || key == 2;
        all = all && key < 3;
        none = none && key != 1;
        cnt += key != 0;
        if (key == 3) { f = i; }
      }
      c.result(str(any) + str(all) + str(none) + str(cnt) + "," + str(f));
      break;
    }
    case 10: {
      auto const& w = *y;
      bool less = true, same_keys = v.size() == w.size();
      std::size_t big = 0, small = 0, at = v.size();
      for (std::size_t i = 0; i < v.size(); ++i) {
        if (i > 0 && v[i].k < v[i - 1].k) { less = false; }
        if (v[i].k > v[big].k) { big = i; }
        if (v[i].k < v[small].k) { small = i; }
        if (v[i].k == 2 && at == v.size()) { at = i; }
        same_keys = same_keys && v[i].k == w[i].k;
      }
      c.result(str(less) + str(big) + "," + str(small) + str(same_keys) + str(at));
      break;
    }
    case 11: { items o; for (std::size_t i = 0; i < v.size(); ++i) { o.emplace_back(3, 33); } c.result((v.empty() ? "" : "true") + str(o)); break; }
    case 12: {
      std::vector<int> l;
      for (auto i : {1, 2, 3, 2, 1, 3}) { l.push_back(i); }
      std::vector<int> o;
      for (std::size_t i = 0; i < l.size(); ++i) { if (l[i] != 3 && (i >= 4 || l[i] != static_cast<int>(n))) { o.push_back(l[i]); } }
      c.result("{1,3}" + str(o));
      break;
    }
    case 9: {
      auto const bits = (std::uint64_t{n} << 60) | v.size() * 37;
      for (auto b = 0U; b < 64; ++b) { if (bits >> b & 1) { c.sem.push_back("bit " + str(b)); } }
      for (auto b = 0U; b < 8; ++b) { if (bits >> b & 1) { c.sem.push_back("bit8 " + str(b)); } }
      c.result("");
      break;
    }
  }
}

inline void modify_real(ctx& c, lcg r) {
  auto x = unsorted(c, r);
  auto y = sorted(c, r);
  auto const k = kind(r, 10), key = r.below(4);
  auto v = [&] { sim::quiet q; return k == 0 || k == 1 ? *y : *x; }();
  std::string s;
  {
    sim::quiet q;
    // one element per key where the order among equal ones is open
    if (k < 2) { v.erase(std::unique(begin(v), end(v), [](item const& a, item const& b) { return a.k == b.k; }), end(v)); }
  }
  item e{static_cast<int>(key), 99};
  auto const fin = [&] {
    c.disarm();
    s += quiet_str(v);
  };
  switch (k) {
    case 0: { armed const g{c}; auto const p = utl::insert_sorted(v, std::move(e)); c.disarm(); s = str(p.second) + str(static_cast<int>(p.first - v.begin())); fin(); break; }
    case 1: { armed const g{c}; foreign const f{c}; auto const p = utl::insert_sorted(v, std::move(e), by_key{}); c.disarm(); s = str(p.second) + str(static_cast<int>(p.first - v.begin())); fin(); break; }
    case 2: { armed const g{c}; utl::erase_if(v, [&](item const& i) { c.hit(false, "erase?", {}); return i.k == static_cast<int>(key); }); fin(); break; }
    case 3: {
      armed const g{c};
      utl::erase(v, e);
      fin();
      break;
    }
    case 4: {
      armed const g{c};
      utl::erase_duplicates(v);
      c.disarm();
      sim::quiet q;
      for (auto const& i : v) { s += std::to_string(i.k) + (i.whole() ? " " : "!"); }
      break;
    }
    case 5: {
      armed const g{c};
      foreign const f{c, true};
      utl::erase_duplicates(v, by_key{}, [&](item const& a, item const& b) { c.hit(false, "eq", {}); return a.k == b.k; });
      c.disarm();
      sim::quiet q;
      for (auto const& i : v) { s += std::to_string(i.k) + (i.whole() ? " " : "!"); }
      break;
    }
    case 6: {
      auto const half = static_cast<long>(v.size() / 2);
      armed const g{c};
      foreign const f{c, true};
      utl::erase_duplicates(v, v.begin() + static_cast<long>(v.size() / 4), v.begin() + half, by_key{}, [&](item const& a, item const& b) { c.hit(false, "eq", {}); return a.k == b.k; });
      c.disarm();
      sim::quiet q;
      for (auto const& i : v) { s += std::to_string(i.k) + (i.whole() ? " " : "!"); }
      break;
    }
    case 7: {
      armed const g{c};
      foreign const f{c, true};
      utl::sort(v, by_key{});
      c.disarm();
      sim::quiet q;
      for (auto const& i : v) { s += std::to_string(i.k) + (i.whole() ? " " : "!"); }
      s += bag(v);
      break;
    }
    case 8: {
      std::vector<int> order;
      for (auto i = 0U; i != v.size(); ++i) { order.push_back(static_cast<int>((i * 37 + 3 * key + 1) % 101)); }
      armed const g{c};
      auto const [o, sorted_items] = utl::sort_by(order, v);
      c.disarm();
      s = str(o) + quiet_str(sorted_items) + quiet_str(v) + str(order);
      break;
    }
    case 9: {  // by keys that occur several times, two further sequences
      std::vector<int> order, ids;
      for (auto const& i : v) {
        order.push_back(i.id % 3);
        ids.push_back(i.id);
      }
      armed const g{c};
      auto const [o, sorted_items, sorted_ids] = utl::sort_by(order, v, ids);
      c.disarm();
      sim::quiet q;
      bool fit = o.size() == v.size() && sorted_items.size() == v.size() && sorted_ids.size() == v.size();
      for (std::size_t i = 0; fit && i < v.size(); ++i) { fit = sorted_items[i].id == sorted_ids[i] && sorted_ids[i] % 3 == o[i]; }
      s = str(o) + bag(sorted_items) + str(fit) + str(order);
      break;
    }
  }
  c.result(s);
}
inline void modify_model(ctx& c, lcg r) {
  auto x = unsorted(c, r);
  auto y = sorted(c, r);
  auto const k = r.below(10), key = r.below(4);
  auto v = k == 0 || k == 1 ? *y : *x;
  if (k < 2) { v.erase(std::unique(begin(v), end(v), [](item const& a, item const& b) { return a.k == b.k; }), end(v)); }
  auto const ik = static_cast<int>(key);
  std::string s;
  switch (k) {
    case 0: case 1: {
      std::size_t at = 0;
      while (at < v.size() && v[at].k < ik) { ++at; }
      bool const neu = at == v.size() || v[at].k != ik;
      if (neu) { v.insert(v.begin() + static_cast<long>(at), item{ik, 99}); }
      s = str(neu) + str(at) + str(v);
      break;
    }
    case 2: case 3: {
      items o;
      for (auto const& i : v) { if (i.k != ik) { o.push_back(i); } }
      s = str(o);
      break;
    }
    case 4: case 5: {
      std::set<int> t;
      for (auto const& i : v) { t.insert(i.k); }
      for (auto i : t) { s += std::to_string(i) + " "; }
      break;
    }
    case 6: {
      std::set<int> t;
      for (auto i = v.size() / 4; i < v.size() / 2; ++i) { t.insert(v[i].k); }
      for (std::size_t i = 0; i < v.size() / 4; ++i) { s += std::to_string(v[i].k) + " "; }
      for (auto i : t) { s += std::to_string(i) + " "; }
      for (auto i = v.size() / 2; i < v.size(); ++i) { s += std::to_string(v[i].k) + " "; }
      break;
    }
    case 7: {
      std::vector<int> t;
      for (auto const& i : v) { t.push_back(i.k); }
      std::sort(begin(t), end(t));
      for (auto i : t) { s += std::to_string(i) + " "; }
      s += bag(v);
      break;
    }
    case 8: {
      std::vector<int> order;
      for (auto i = 0U; i != v.size(); ++i) { order.push_back(static_cast<int>((i * 37 + 3 * key + 1) % 101)); }
      std::vector<std::pair<int, std::size_t>> p;
      for (std::size_t i = 0; i < order.size(); ++i) { p.emplace_back(order[i], i); }
      std::sort(begin(p), end(p));
      std::vector<int> o;
      items vo;
      for (auto const& [a, b] : p) {
        o.push_back(a);
        vo.push_back(v[b]);
      }
      s = str(o) + str(vo) + str(v) + str(order);
      break;
    }
    case 9: {
      std::vector<int> order;
      for (auto const& i : v) { order.push_back(i.id % 3); }
      auto o = order;
      std::sort(begin(o), end(o));
      s = str(o) + bag(v) + "true" + str(order);
      break;
    }
  }
  c.result(s);
}

// ---- dynamic types -------------------------------------------------------------
struct base {
  virtual ~base() = default;
};
struct first : base {
  int a{1};
};
struct second : base {
  int b{2};
};
struct third : base {};
inline void match_real(ctx& c, lcg r) {
  first f;
  second s;
  third t;
  base* const all[] = {&f, &s, &t};
  auto const i = r.below(3);
  std::string res;
  armed const g{c};
  try {
    res = str(utl::match(all[i], [&](first* x) { c.hit(true, "first", str(x == &f)); return x->a; },
                         [&](second* x) { c.hit(true, "second", str(x == &s)); return x->b; }));
  } catch (failure const&) { throw; } catch (std::bad_alloc const&) { throw;
  } catch (std::runtime_error const& e) { res = e.what(); }
  c.result(res);
}
inline void match_model(ctx& c, lcg r) {
  auto const i = r.below(3);
  if (i == 0) { c.sem.push_back("first true"); }
  if (i == 1) { c.sem.push_back("second true"); }
  c.result(i == 2 ? "no matching class found" : str(i + 1));
}

// ---- values out of text ----------------------------------------------------------
PRINTABLE_ENUM(colour, red, green, blue)

struct from_a {
  int x;
  double y;
};
struct from_src {
  std::unique_ptr<double> d;
  int i;
};
struct row {
  utl::csv_col<utl::cstr, UTL_NAME("name")> name_;
  utl::csv_col<int, UTL_NAME("number")> number_;
  utl::csv_col<std::string, UTL_NAME("text")> text_;
};
struct flags {
  utl::cmd_line_flag<int, UTL_LONG("--number"), UTL_SHORT("-n"), UTL_DESC("a number")> number_;
  utl::cmd_line_flag<std::string, UTL_LONG("--word"), utl::required, UTL_DESC("a word")> word_;
  utl::cmd_line_flag<bool, UTL_LONG("--yes"), UTL_SHORT("-y"), UTL_DESC("a switch")> yes_;
};
struct file_flags {
  utl::cmd_line_flag<std::filesystem::path, UTL_LONG("--file"), UTL_SHORT("-f"), utl::required, UTL_DESC("a file")> file_;
  utl::cmd_line_flag<int, UTL_SHORT("-c"), UTL_DESC("a count")> count_{7};
};
struct short_flags {
  utl::cmd_line_flag<int, UTL_SHORT("-a"), utl::required, UTL_DESC("one")> a_{3};
  utl::cmd_line_flag<double, UTL_LONG("--b"), UTL_DESC("two")> b_{2.5};
};
inline std::string quote(std::string const& s) {
  std::string o = "\"";
  for (auto ch : s) {
    o += ch;
    if (ch == '"') { o += ch; }
  }
  return o + "\"";
}
struct table {
  struct line {
    std::string name, text;
    int number;
  };
  explicit table(lcg& r) {
    bool const crlf = r.coin(), other = r.coin(), bom = r.coin();
    auto const nl = crlf ? "\r\n" : "\n";
    text = std::string{other ? "number,unknown,text,name" : "name,number,text"} + nl;
    text_bom = (bom ? "\xEF\xBB\xBF" : "") + text;
    auto const n = r.below(5);
    for (auto i = 0U; i != n; ++i) {
      line l{"n" + make_text(r, "abc", 5), make_text(r, "xy ,\"", 6), static_cast<int>(r.below(2000)) - 1000};
      auto const t = r.coin() || l.text.find_first_of(",\"") != std::string::npos ? quote(l.text) : l.text;
      auto const name = r.coin() ? l.name : quote(l.name);
      auto const num = std::to_string(l.number);
      auto const fixed = other ? num + ",\"what, so\"," + t + "," + name : name + "," + num + "," + t;
      bool const last = i + 1 == n && r.coin();
      text += fixed + (last ? "" : nl);
      text_bom += fixed + (last ? "" : nl);
      lines.push_back(std::move(l));
    }
  }
  std::string text, text_bom;
  std::vector<line> lines;
};
inline void values_real(ctx& c, lcg r) {
  auto const k = kind(r, 20);
  auto const tab = [&] { sim::quiet q; return std::make_unique<table>(r); }();
  auto const n = static_cast<int>(r.below(5000)) - 2500;
  auto const text = [&] { sim::quiet q; return std::to_string(n); }();
  std::string s;
  armed const g{c};
  switch (k) {
    case 0: {
      using cols = std::tuple<std::string, int, std::string>;
      auto const rows = utl::read<cols>(tab->text, {{"name", "number", "text"}});
      for (auto const& [a, b, t] : rows) { c.hit(true, "row", str(a) + str(b) + str(t)); }
      break;
    }
    case 1:
      utl::line_range{utl::buf_reader{utl::cstr{tab->text_bom}}} | utl::csv<row>() | utl::for_each([&](row const& x) {
        c.hit(true, "row", str(*x.name_) + str(*x.number_) + str(*x.text_));
      });
      break;
    case 2: {
      char const* args[] = {"prog", "--word", "hello", "-n", text.c_str(), "-y"};
      auto const f = utl::parse_flags<flags>(n % 2 ? 6 : 5, args);
      s = str(f.number_.val()) + str(f.word_.val()) + str(f.yes_.val()) + utl::print_flags(f) + utl::description<flags>();
      break;
    }
    case 3: {
      char const* args[] = {"prog", "-n", text.c_str()};
      try {
        utl::parse_flags<flags>(3, args);
      } catch (std::bad_alloc const&) { throw; } catch (std::runtime_error const& e) { s = e.what(); }
      break;
    }
    case 4: {
      from_src src{std::make_unique<double>(n / 2.0), n};
      auto const o = utl::init_from<from_a>(src);
      src.d.reset();
      auto const none = utl::init_from<from_a>(src);
      s = str(o.has_value() && o->x == n && o->y == n / 2.0) + str(none.has_value());
      break;
    }
    case 5: s = as_string(static_cast<colour>(r.below(3))); break;
    case 6: s = str(utl::parse<int>(text)) + str(utl::parse_verify<int>(text)) + str(utl::parse<int>("x", 5)); break;
    case 7: {
      auto const [a, b, t] = utl::split<',', int, std::string, double>(utl::cstr{"17,word,-2.5"});
      s = str(a) + str(b) + str(t);
      break;
    }
    case 8: s = utl::time(1700000000 + n * 100000); break;
    case 9: {
      std::map<std::string, int> m;
      auto& a = utl::get_or_create(m, text, [&] { c.hit(true, "create", {}); return n; });
      auto& b = utl::get_or_create(m, text, [&] { c.hit(true, "create", {}); return n; });
      std::map<int, std::size_t> ix;
      s = str(&a == &b) + str(a) + str(utl::get_or_create_index(ix, 5)) + str(utl::get_or_create_index(ix, n)) + str(utl::get_or_create_index(ix, 5));
      break;
    }
    case 10:
      try {
        utl::buffer b{text.data(), text.size()};
        b.resize(b.size() + 3);
        auto const o = std::move(b);
        s = str(o.size()) + std::string{reinterpret_cast<char const*>(o.data()), text.size()};
      } catch (std::runtime_error const& e) {
        // how the first allocation of a buffer reports that there is no memory
        throw std::bad_alloc{};
      }
      break;
    case 11:
      try {
        utl::verify_silent(n == 4, "number {} of {}", n, text);
      } catch (std::bad_alloc const&) { throw; } catch (std::exception const& e) { s = e.what(); }
      break;
    case 12: {
      char const* args[] = {"prog", "-y", "--word", "w", "-n", nullptr};
      s = str(utl::parse_flags<flags>(n % 2 ? 4 : 5, args).number_.val()) + str(utl::parse_flags<flags>(4, args).word_.val());
      char const* late[] = {"prog", "--word", nullptr};
      try {
        utl::parse_flags<flags>(2, late);
      } catch (std::bad_alloc const&) { throw; } catch (std::runtime_error const& e) { s += e.what(); }
      break;
    }
    case 13:
      s = str(utl::parse<unsigned>("4000000000")) + str(utl::parse<double>("-12.5")) + str(utl::parse<bool>("TRUE")) + str(utl::parse<bool>("false")) +
          str(utl::parse<std::string>("a b")) + str(utl::parse<int>("+7")) + str(utl::parse<bool>("no")) +
          str(utl::parse<double>("3000000000.5")) + str(utl::parse<double>("12x")) + str(utl::parse_verify<double>("17"));
      try {
        utl::parse_verify<int>("12x");
      } catch (std::bad_alloc const&) { throw; } catch (std::exception const& e) { s += e.what(); }
      try {
        utl::parse_verify<double>("1.5x");
      } catch (std::bad_alloc const&) { throw; } catch (std::exception const& e) { s += e.what(); }
      try {
        utl::parse_verify<double>("12,5");
      } catch (std::bad_alloc const&) { throw; } catch (std::exception const& e) { s += e.what(); }
      break;
    case 14: {
      utl::cstr x{"1,2;3"};
      int a = 0, b = 0, d = 0;
      x >> a >> utl::expect_char<','>{} >> b >> utl::expect_char<';'>{} >> d;
      s = str(a) + str(b) + str(d) + str(x.empty());
      break;
    }
    case 15: {
      // more columns than the header names, fewer, none
      using cols = std::tuple<int, std::string>;
      auto const rows = utl::read<cols>("b,a\n" + text + ",1,x\n,2\n\"q\"\n", {{"a", "b"}});
      for (auto const& [a, b] : rows) { c.hit(true, "row", str(a) + str(b)); }
      break;
    }
    case 16: {
      auto const names = utl::to_vec(std::vector<colour>{colour::blue, colour::red}, [&](colour x) {
        c.hit(true, "name", {});
        std::ostringstream o;
        o.exceptions(std::ios_base::badbit);
        o << x;
        return o.str();
      });
      s = str(names);
      break;
    }
    case 17: {  // views that do not end with the text they are part of
      utl::cstr const x{"dir/file.txt,17.5,trueish,-12 "};
      s = str(utl::parse<std::filesystem::path>(x.substr(0, utl::size(12U))).string()) + str(utl::parse<std::filesystem::path>(x.substr(0, utl::size(3U))).string()) +
          str(utl::parse<std::filesystem::path>(utl::cstr{}).string()) + str(utl::parse<int>(x.substr(13, utl::size(1U)))) +
          str(utl::parse<double>(x.substr(13, utl::size(2U)))) + str(utl::parse<bool>(x.substr(18, utl::size(4U)))) +
          str(utl::parse<bool>(x.substr(18, utl::size(3U)))) + str(utl::parse<std::string>(x.substr(18, utl::size(3U)))) +
          str(utl::parse<int>(x.substr(26))) + str(utl::parse<int>(x.substr(26, utl::size(1U)), 9));
      break;
    }
    case 18: {
      char const* args[] = {"prog", "-f", "in.bin", "-c", text.c_str(), "--file", "out.bin", "-c", "77"};
      auto const a = utl::parse_flags<file_flags>(9, args), b = utl::parse_flags<file_flags>(8, args), d = utl::parse_flags<file_flags>(5, args),
                 e = utl::parse_flags<file_flags>(4, args);
      s = str(a.file_.val().string()) + str(*a.count_) + str(b.file_.val().string()) + str(*b.count_) + str(d.file_.val().string()) + str(*d.count_) +
          str(e.file_.val().string()) + str(*e.count_);
      break;
    }
    case 19: {
      char const* args[] = {"prog", "--what", "-f", nullptr};
      for (auto i : {1, 2, 3}) {
        try {
          s += str(utl::parse_flags<file_flags>(i, args).file_.val().string());
        } catch (std::bad_alloc const&) { throw; } catch (std::runtime_error const& e) { s += e.what(); }
      }
      s += utl::description<short_flags>() + utl::print_flags(short_flags{});
      break;
    }
  }
  c.result(s);
}
inline std::string date(std::time_t t) {  // proleptic Gregorian, by counting
  auto days = t / 86400, sec = t % 86400;
  auto y = 1970;
  auto const leap = [](int z) { return (z % 4 == 0 && z % 100 != 0) || z % 400 == 0; };
  while (days >= (leap(y) ? 366 : 365)) { days -= leap(y++) ? 366 : 365; }
  int const len[] = {31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  auto m = 0;
  while (days >= len[m]) { days -= len[m++]; }
  char buf[64];
  snprintf(buf, sizeof buf, "%04d-%02d-%02dT%02d:%02d:%02dZ+0000", y, m + 1, static_cast<int>(days) + 1,
           static_cast<int>(sec / 3600), static_cast<int>(sec / 60 % 60), static_cast<int>(sec % 60));
  return buf;
}
inline void values_model(ctx& c, lcg r) {
  auto const k = r.below(20);
  table const tab{r};
  auto const n = static_cast<int>(r.below(5000)) - 2500;
  auto const text = std::to_string(n);
  std::string s;
  switch (k) {
    case 0: case 1: for (auto const& l : tab.lines) { c.sem.push_back("row " + str(l.name) + str(l.number) + str(l.text)); } break;
    case 2: {
      auto const yes = n % 2 != 0;
      s = str(n) + str(std::string{"hello"}) + str(yes) + "        --number -n      " + text + "\n          --word       * hello\n           --yes -y      " +
          (yes ? "true" : "false") + "        --number -n      a number\n          --word       * a word\n           --yes -y      a switch";
      break;
    }
    case 3: s = "--word"; break;
    case 4: s = "truefalse"; break;
    case 5: { char const* names[] = {"red", "green", "blue"}; s = names[r.below(3)]; break; }
    case 6: s = str(n) + str(n) + "5"; break;
    case 7: s = "17'word'" + str(-2.5); break;
    case 8: s = date(1700000000 + n * 100000); break;
    case 9:
      c.sem.push_back("create ");
      s = "true" + str(n) + "0" + (n == 5 ? "0" : "1") + "0";
      break;
    case 10: s = str(text.size() + 3) + text; break;
    case 11: s = n == 4 ? "" : "number " + text + " of " + text; break;
    case 12: s = "0'w'--word"; break;
    case 13: s = "4000000000" + str(-12.5) + "truefalse'a b'7false" + str(3000000000.5) + str(12.0) + str(17.0) +
                    "could not read \"12x\" as icould not read \"1.5x\" as dcould not read \"12,5\" as d";
      break;
    case 14: s = "123true"; break;
    case 15:
      c.sem.push_back("row 1" + str(text));
      c.sem.push_back("row 2''");
      c.sem.push_back("row 0'q'");
      break;
    case 16:
      c.sem.push_back("name ");
      c.sem.push_back("name ");
      s = "['blue','red']";
      break;
    case 17: s = "'dir/file.txt''dir''""'""1" + str(17.0) + "truetrue'tru'-129"; break;
    case 18: s = "'out.bin'77'out.bin'" + str(n) + "'in.bin'" + str(n) + "'in.bin'7"; break;
    case 19: s = "--file--file--file  -a    * one\n             --b         two  -a    * 3\n             --b         2.5"; break;
  }
  c.result(s);
}

// ---- coroutines ----------------------------------------------------------------
inline utl::generator<int> count_up(ctx& c, int n) {
  for (int i = 0; i < n; ++i) {
    c.hit(true, "yield", str(i));
    co_yield i * i;
  }
}
inline void generate_real(ctx& c, lcg r) {
  auto const n = static_cast<int>(r.below(5)), m = static_cast<int>(r.below(3));
  armed const g{c};
  auto a = count_up(c, n);
  auto b = count_up(c, m);
  while (a) {
    c.hit(true, "value", str(a()));
    if (b) { c.hit(true, "other", str(b())); }
  }
}
inline void generate_model(ctx& c, lcg r) {
  auto const n = static_cast<int>(r.below(5)), m = static_cast<int>(r.below(3));
  for (int i = 0; i < n; ++i) {
    c.sem.push_back("yield " + str(i));
    c.sem.push_back("value " + str(i * i));
    if (i < m) {
      c.sem.push_back("yield " + str(i));
      c.sem.push_back("other " + str(i * i));
    }
  }
}

inline op const list[] = {
    {"inner_join", join_real<0>, join_model<0>},
    {"left_join", join_real<1>, join_model<1>},
    {"full_join", join_real<2>, join_model<2>},
    {"sorted_diff", diff_real, diff_model},
    {"power_set_intersection", power_real, power_model},
    {"equal_ranges", ranges_real, ranges_model},
    {"equal_ranges_linear", linear_real, linear_model},
    {"is_uniform", uniform_real, uniform_model},
    {"tokens and lines", tokens_real, tokens_model},
    {"views", views_real, views_model},
    {"pipeline", pipes_real, pipes_model},
    {"conversion", convert_real, convert_model},
    {"container algorithm", modify_real, modify_model},
    {"match", match_real, match_model},
    {"parsing", values_real, values_model},
    {"generators", generate_real, generate_model},
};
inline constexpr std::size_t n_ops = std::size(list);

// runs an operation; returns what came out of it, "" for a result
inline char const* attempt(op const& o, ctx& c, lcg r) {
  c.name = o.name;
  auto* thrown = "";
  try {
    o.real(c, r);
  } catch (failure const& e) {
    SIM_CHECK(c.dead && e.token == c.token, "wrong-exception", "%s: the exception is not the one thrown", o.name);
    thrown = "failure";
  } catch (oddity const& e) {
    SIM_CHECK(c.dead && e.token == c.token, "wrong-exception", "%s: the exception is not the one thrown", o.name);
    thrown = "oddity";
  } catch (std::bad_alloc const&) {
    thrown = "no memory";
  } catch (std::exception const& e) {
    SIM_CHECK(false, "wrong-exception", "%s: an exception of its own comes out: %s", o.name, e.what());
  }
  ctx::cur = nullptr;
  sim::watch_allocs(false);
  SIM_CHECK(!c.dead || *thrown, "swallowed", "%s: what a user function has thrown does not reach the caller", o.name);
  return thrown;
}
inline std::string show(std::vector<std::string> const& v) {
  std::string s;
  for (auto const& x : v) { s += x + "; "; }
  return s.substr(0, 600);
}
inline bool prefix(std::vector<std::string> const& a, std::vector<std::string> const& b) {
  return a.size() <= b.size() && std::equal(begin(a), end(a), begin(b));
}

}  // namespace ops
