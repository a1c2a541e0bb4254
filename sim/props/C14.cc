// Log statements.
#include "utl/logging.h"
#include "utl/parallel_for.h"
#include "utl/verify.h"

#include "wall.h"

#include <iomanip>
#include <sstream>

namespace {

struct expected {
  std::string level, text;
  int line{};
  wall::moment from{}, to{};
  int thread{};
  unsigned n{};  // number within the thread
};

std::vector<expected> want;
std::map<std::string, int> failed;
std::streambuf* out;

struct pending {
  std::size_t idx;
};

std::size_t begin(char const* level, int line, std::string text) {
  sim::quiet q;
  static std::map<int, unsigned> counts;
  want.push_back({level, std::move(text), line, wall::now(), {}, sim::self(), counts[sim::self()]++});
  sim::event("log statement %zu", want.size() - 1);
  return want.size() - 1;
}
void end(std::size_t i) {
  sim::quiet q;
  want[i].to = wall::now();
}

struct custom {
  int a, b;
  friend std::ostream& operator<<(std::ostream& o, custom const& c) {
    return o << "(" << c.a << "|" << c.b << ")";
  }
};

// a value whose computation logs
int computed(int x) {
  auto const i = begin("debg", __LINE__ + 1, "inner " + std::to_string(x));
  uLOG(utl::debug) << "inner " << x;
  end(i);
  return x * 2;
}

void statement(unsigned kind, int id) {
  auto const T = std::to_string(id);
  std::size_t i = 0;
  switch (kind % 19) {
    case 0: i = begin("info", __LINE__, "job " + T + " of 7"); uLOG(utl::info) << "job " << id << " of " << 7; break;
    case 1: i = begin("erro", __LINE__, T); uLOG(utl::err) << "" << id; break;
    case 2: i = begin("warn", __LINE__, T); uLOG(utl::warn) << id; break;
    case 3: i = begin("emrg", __LINE__, "a" + T + "b1.5c"); uLOG(utl::emrg) << 'a' << id << std::string{"b"} << 1.5 << std::string_view{"c"}; break;
    case 4: i = begin("alrt", __LINE__, "(" + T + "|-3)"); uLOG(utl::alrt) << custom{id, -3}; break;
    case 5: i = begin("crit", __LINE__, std::string(5000, 'x') + T); uLOG(utl::crit) << std::string(5000, 'x') << id; break;
    case 6: i = begin("note", __LINE__, "[brackets] and : colons ] " + T); uLOG(utl::notice) << "[brackets] and : colons ] " << id; break;
    case 7: {
      int const line = __LINE__ + 2;
      i = begin("info", line, "twice " + std::to_string(id * 2));
      uLOG(utl::info) << "twice " << computed(id);
      break;
    }
    case 8: {
      std::string s = "lvalue";
      i = begin("debg", __LINE__ + 1, "lvalue" + T + "0");
      uLOG(utl::debug) << s << id << std::size_t{0};
      break;
    }
    case 9: i = begin("info", __LINE__, "a longer line of text that does not fit into any small buffer " + T); uLOG(utl::info) << "a longer line of text " << "that does not fit " << "into any small buffer " << id; break;
    case 10:
      for (int k = 0; k < 2; ++k) {
        i = begin("info", __LINE__ + 1, "part " + std::to_string(k) + " of " + T);
        uLOG(utl::info) << "part " << k << " of " << id;
        if (k == 0) { end(i); }
      }
      break;
    case 11: i = begin("warn", __LINE__, "-1 18446744073709551615 " + T); uLOG(utl::warn) << -1 << " " << ~std::uint64_t{0} << " " << id; break;
    case 12: {  // manipulators hold for the rest of the line, and no longer
      std::ostringstream o;
      {
        sim::quiet q;
        o << std::hex << (id + 200) << ' ' << std::setw(7) << std::setfill('.') << id << std::boolalpha << true << std::fixed << std::setprecision(2) << 1.0;
      }
      i = begin("info", __LINE__ + 1, o.str());
      uLOG(utl::info) << std::hex << (id + 200) << ' ' << std::setw(7) << std::setfill('.') << id << std::boolalpha << true << std::fixed << std::setprecision(2) << 1.0;
      break;
    }
    case 13: {
      static std::size_t const sizes[] = {255, 511, 1023, 4095, 8191, 8192, 20000, 70000};
      auto const text = [&] { sim::quiet q; return std::string(sizes[static_cast<unsigned>(id) % 8], 'y') + T; }();
      i = begin("info", __LINE__ + 1, text);
      uLOG(utl::info) << text;
      break;
    }
    case 14: {  // any bytes
      auto const text = [&] { sim::quiet q; return std::string{"a\0b", 3} + "\t\xFF\x80%s%n{}" + T; }();
      i = begin("note", __LINE__ + 1, text);
      uLOG(utl::notice) << text;
      break;
    }
    case 15: {  // a line that is put together in several steps
      auto const put = [&](utl::log&& l) -> utl::log&& { return std::move(l) << " and more " << id; };
      i = begin("info", __LINE__ + 1, "first " + T + " and more " + T);
      put(uLOG(utl::info) << "first " << id);
      break;
    }
    case 16: {  // a line that is kept, and moved
      i = begin("warn", __LINE__ + 1, "kept " + T + " moved");
      auto l = uLOG(utl::warn) << "kept " << id;
      auto m = std::move(l);
      std::move(m) << " moved";
      break;
    }
    case 17: {  // one takes the place of another
      auto const one = begin("info", __LINE__ + 1, "replaced " + T);
      auto l = uLOG(utl::info) << "replaced " << id;
      i = begin("info", __LINE__ + 1, "replacing " + T);
      l = uLOG(utl::info) << "replacing " << id;
      end(one);
      break;
    }
    case 18: {  // another writer of whole lines
      sim::event("failed verification");
      {
        sim::quiet q;
        ++failed["[VERIFY FAIL] failed " + T];
      }
      bool caught = false;
      try {
        utl::verify(false, "failed {}", id);
      } catch (std::runtime_error const&) { caught = true; }
      SIM_CHECK(caught, "swallowed", "a failed verification did not throw");
      return;
    }
  }
  end(i);
}

void check_flushed() {
  if (!failed.empty()) { return; }  // verifications do not flush
  SIM_CHECK(sim::capture_flushed(out) == sim::capture_size(out), "not-flushed", "%zu of %zu bytes have left the stream's buffer",
            sim::capture_flushed(out), sim::capture_size(out));
}

void check() {
  sim::quiet q;
  check_flushed();
  auto const lines = split_lines(sim::capture_text(out));
  std::vector<bool> used(want.size());
  std::map<int, unsigned> next;
  for (auto const& s : lines) {
    if (auto const f = s.size() > 21 ? failed.find(s.substr(21)) : failed.end(); f != failed.end() && wall::parse(s) >= 0) {
      SIM_CHECK(f->second-- > 0, "line-twice", "written more often than issued: '%.200s'", s.c_str());
      continue;
    }
    auto const l = wall::parse_log(s);
    SIM_CHECK(l.ok, "garbled", "not a log line: '%.200s'", s.c_str());
    std::size_t best = want.size();
    bool shape = false;
    // the same text may be expected several times: the next one in its thread
    for (std::size_t i = 0; i < want.size(); ++i) {
      auto const& w = want[i];
      if (used[i] || w.text != l.text) { continue; }
      shape = true;
      if (w.level == l.level && w.line == l.line && l.file == "C14.cc" &&
          wall::was(l.sec, w.from, w.to) && (best == want.size() || w.n < want[best].n)) {
        best = i;
      }
    }
    SIM_CHECK(best != want.size(), shape ? "wrong-stamp" : "garbled",
              "%s: '%.200s'", shape ? "no statement with this level, time and place" : "no statement wrote this line",
              s.c_str());
    used[best] = true;
    if (want[best].text.find("twice") == std::string::npos &&
        want[best].text.find("inner") == std::string::npos) {
      auto& n = next[want[best].thread];
      SIM_CHECK(want[best].n >= n, "reordered", "out of order: '%.200s'", s.c_str());
      n = want[best].n;
    }
  }
  for (auto const& [text, n] : failed) {
    SIM_CHECK(n == 0, "line-lost", "no line '%s'", text.c_str());
  }
  for (std::size_t i = 0; i < want.size(); ++i) {
    SIM_CHECK(used[i], "line-lost", "no line '%s %.100s'", want[i].level.c_str(),
              want[i].text.c_str());
  }
}

void threads() {
  wall::init(true);
  out = capture_stream(std::clog);
  auto const n = 1 + sim::pick(4);
  std::vector<std::thread> ts;
  auto const body = [](unsigned k, unsigned seed, int base) {
    for (unsigned i = 0; i < k; ++i) { statement(seed + i * 5, base + static_cast<int>(i)); }
  };
  auto const jumps = sim::coin(1, 2) ? sim::pick(4) : 0;
  for (unsigned i = 1; i < n; ++i) {
    auto const k = static_cast<unsigned>(1 + sim::pick(4)), s = static_cast<unsigned>(sim::pick(190));
    ts.emplace_back([=] { body(k, s, static_cast<int>(i * 100)); });
  }
  if (jumps) {
    ts.emplace_back([=] {
      for (unsigned i = 0; i < jumps; ++i) {
        for (auto k = sim::pick(20); k > 0; --k) { sim::point(); }
        if (sim::coin(1, 2)) { std::this_thread::sleep_for(std::chrono::milliseconds(700)); }
        wall::random_jump();
      }
    });
  }
  body(static_cast<unsigned>(1 + sim::pick(4)), static_cast<unsigned>(sim::pick(190)), 0);
  for (auto& t : ts) { t.join(); }
  check();
  sim::sample("[%zu threads, %zu statements, %zu clock jumps] ", static_cast<std::size_t>(n), want.size(), wall::jumps.size());
}

// the logged parallel loop
void logged_loop() {
  wall::init(false);
  out = capture_stream(std::clog);
  auto p = pick_processors();
  if (p > 8) { sim::set_processors(8); }
  auto const n = sim::pick_size(20), mod = 1 + sim::pick(4);
  std::vector<int> jobs(n);
  auto const from = wall::now();
  utl::parallel_for(std::string{"load data"}, jobs, mod, [](int const&) { sim::point(); });
  auto const to = wall::now();
  sim::quiet q;
  check_flushed();
  std::vector<unsigned> seen(n);
  for (auto const& s : split_lines(sim::capture_text(out))) {
    auto const l = wall::parse_log(s);
    std::size_t a = 0, b = 0;
    int used = 0;
    SIM_CHECK(l.ok && l.level == "info" && l.file == "parallel_for.h" &&
                  sscanf(l.text.c_str(), "load data %zu/%zu%n", &a, &b, &used) == 2 &&
                  static_cast<std::size_t>(used) == l.text.size() && b == n && a < n && a % mod == 0,
              "garbled", "not a progress line: '%s'", s.c_str());
    SIM_CHECK(wall::was(l.sec, from, to), "wrong-stamp", "wrong time: '%s'", s.c_str());
    SIM_CHECK(++seen[a] == 1, "line-twice", "two lines for job %zu", a);
  }
  for (std::size_t i = 0; i < n; i += mod) {
    SIM_CHECK(seen[i] == 1, "line-lost", "no line for job %zu", i);
  }
}

// an operand that throws: the statement's line is not merged with the next one
void throwing_operand() {
  wall::init(false);
  out = capture_stream(std::clog);
  auto const bad = []() -> int { throw std::runtime_error{"x"}; };
  bool caught = false;
  try {
    uLOG(utl::info) << "value " << bad();
  } catch (std::runtime_error const&) { caught = true; }
  SIM_CHECK(caught, "swallowed", "the exception of an operand was lost");
  statement(0, 1);
  statement(2, 5);
  sim::quiet q;
  auto const lines = split_lines(sim::capture_text(out));
  SIM_CHECK(lines.size() >= 2 && lines.size() <= 3, "line-lost", "%zu lines", lines.size());
  for (auto const& s : lines) {
    SIM_CHECK(wall::parse_log(s).ok, "garbled", "not a log line: '%s'", s.c_str());
  }
  SIM_CHECK(wall::parse_log(lines[lines.size() - 2]).text == "job 1 of 7", "garbled", "not the line: '%s'", lines[lines.size() - 2].c_str());
  SIM_CHECK(wall::parse_log(lines.back()).text == "5", "garbled", "not the line: '%s'", lines.back().c_str());
}

}  // namespace

SIM_MAIN({"threads", threads}, {"threads2", threads}, {"threads3", threads},
         {"threads4", threads}, {"logged_loop", logged_loop},
         {"throwing_operand", throwing_operand})
