// Failing verifications.
#include "utl/logging.h"
#include "utl/verify.h"

#include "wall.h"

namespace {

struct expected {
  std::string text;  // empty: any log statement
  wall::moment from{}, to{};
  bool log{};
  int thread{};
};
std::vector<expected> want;
std::streambuf* out;

struct my_error : std::runtime_error {
  my_error(char const* m, int c) : std::runtime_error{m}, code{c} {}
  int code;
};

template <typename Fn>
void expect(std::string text, bool logged, Fn&& fn) {
  std::size_t i = 0;
  {
    sim::quiet q;
    i = want.size();
    want.push_back({text, wall::now(), {}, false, sim::self()});
    sim::event("verification: %.60s", text.c_str());
  }
  auto const before = sim::capture_size(out);
  bool threw = false;
  try {
    fn();
  } catch (std::runtime_error const& e) {
    threw = true;
    sim::quiet q;
    SIM_CHECK(text == e.what(), "wrong-message", "thrown is '%s', expected '%s'", e.what(), text.c_str());
  }
  SIM_CHECK(threw, "no-throw", "a failed verification did not throw");
  sim::quiet q;
  want[i].to = wall::now();
  if (!logged) { want[i].text.clear(); want[i].log = true; }
  else if (sim::live_threads() == 0 && sim::self() == 0) {
    SIM_CHECK(sim::capture_size(out) > before, "line-lost", "nothing was logged before the exception");
  }
}

void passes() {
  bool const alone = sim::live_threads() == 0;
  auto const before = sim::capture_size(out);
  int evaluated = 0;
  utl::verify(true, "fine {}", 1);
  utl_verify(true, "fine {}", ++evaluated);
  utl::verify_silent(true, "fine {}", 2);
  utl::verify_ex(true, std::runtime_error{"fine"});
  SIM_CHECK(evaluated == 0, "evaluated", "the arguments of a verification that holds were evaluated");
  if (alone) {
    SIM_CHECK(sim::capture_size(out) == before, "output", "a verification that holds wrote something");
  }
}

std::string long_text() {
  static std::size_t const edge[] = {80, 120, 127, 128, 255, 256, 500, 511, 512, 1023, 1024, 2048, 4096, 8192};
  auto const n = sim::coin(1, 2) ? edge[sim::pick(14)] - sim::pick(20) : sim::pick_size(6000);
  sim::quiet q;
  std::string s(n, ' ');
  for (std::size_t i = 0; i < n; ++i) { s[i] = static_cast<char>('a' + (i * 7 + n) % 26); }
  return s;
}

void one(unsigned kind, int id) {
  auto const T = std::to_string(id);
  switch (kind % 21) {
    case 0: expect("job " + T + " failed: 1.5", true, [&] { utl::verify(false, "job {} failed: {}", id, 1.5); }); break;
    case 1: expect("plain message " + T, true, [&] { utl::verify(id < 0, "plain message " + T); }); break;
    case 2: expect("macro " + T, true, [&] { utl_verify(id < 0, "macro {}", id); }); break;
    case 3: expect("silent " + T, false, [&] { utl::verify_silent(false, "silent {}", id); }); break;
    case 4:
      expect("object", false, [&] {
        try {
          utl::verify_ex(false, my_error{"object", id});
        } catch (my_error const& e) {
          SIM_CHECK(e.code == id, "wrong-object", "the exception object was not the one given");
          throw;
        }
      });
      break;
    case 5: {
      std::string const s(3000, 'y');
      expect("long " + s + "!" + T, true, [&] { utl::verify(false, "long {}!{}", s, id); });
      break;
    }
    case 6: expect("moved " + T + " a text that is long enough to be allocated", true, [&] { utl::verify(false, "moved {} {}", id, std::string{"a text that is long enough to be allocated"}); }); break;
    case 7: expect("braces {} in " + T, true, [&] { utl::verify(false, "braces {{}} in {}", id); }); break;
    case 8: passes(); break;
    case 9:  // fail() makes the exception, the caller throws it
      expect("made " + T, true, [&] { throw utl::fail("made {}", id); });
      break;
    case 11: expect("expected {} after key " + T, true, [&] { utl::verify(false, "expected {{}} after key " + T); }); break;
    case 12: expect("silent {}, no value", false, [&] { utl::verify_silent(id < 0, "silent {{}}, no value"); }); break;
    case 13: expect("}{" + T, true, [&] { throw utl::fail("}}{{" + T); }); break;
    case 14: {
      my_error const object{"an object of the caller", id};
      expect("an object of the caller", false, [&] {
        try {
          utl::verify_ex(id < 0, object);
        } catch (my_error const& e) {
          SIM_CHECK(e.code == id, "wrong-object", "the exception object was not the one given");
          throw;
        }
      });
      my_error again{"an object of the caller", id};
      expect("an object of the caller", false, [&] { utl::verify_ex(id < 0, again); });
      SIM_CHECK(again.code == id && again.what() == std::string_view{"an object of the caller"}, "object-changed",
                "the caller's exception object was changed");
      break;
    }
    case 15:
      expect("[" + std::string(6 - T.size(), ' ') + T + "] true text 2.50 0x1f", true, [&] {
        utl::verify(false, "[{:>6}] {} {} {:.2f} {:#x}", id, true, std::string_view{"text"}, 2.5, 31U);
      });
      break;
    case 16: {
      int evaluated = 0;
      expect("once 1 " + T, true, [&] { utl_verify(id + evaluated < 0, "once {} {}", ++evaluated, id); });
      SIM_CHECK(evaluated == 1, "evaluated", "the arguments of a failed verification are evaluated %d times", evaluated);
      break;
    }
    case 17: expect("", false, [&] { utl::verify_silent(false, "{}", ""); }); break;
    case 18: {  // whatever its length, the message is complete
      auto const m = long_text();
      expect("silent " + m + T, false, [&] { utl::verify_silent(id < 0, "silent {}{}", m, id); });
      break;
    }
    case 19: {
      auto const m = long_text();
      switch (id % 3) {
        case 0: expect(m + T, true, [&] { utl::verify(id < 0, m + T); }); break;
        case 1: expect("for " + m + "." + T, true, [&] { utl_verify(id < 0, "for {}.{}", m, id); }); break;
        case 2: expect(T + m, true, [&] { throw utl::fail("{}{}", id, m); }); break;
      }
      break;
    }
    case 20:  // in a clean-up, while another exception is on its way
      try {
        struct guard {
          ~guard() { expect("in a clean-up " + std::to_string(id_), id_ % 2 == 0, [&] {
            if (id_ % 2 == 0) { utl::verify(id_ < 0, "in a clean-up {}", id_); }
            utl::verify_silent(id_ < 0, "in a clean-up {}", id_);
          }); }
          int id_;
        } const g{id};
        expect("before the clean-up " + T, true, [&] {
          utl::verify(id < 0, "before the clean-up {}", id);
        });
        throw my_error{"underway", id};
      } catch (my_error const& e) {
        SIM_CHECK(e.code == id, "wrong-object", "the exception on its way was replaced");
      }
      break;
    case 10: {
      std::size_t i = 0;
      {
        sim::quiet q;
        i = want.size();
        want.push_back({"statement " + T, wall::now(), {}, true, sim::self()});
      }
      uLOG(utl::info) << "statement " << id;
      sim::quiet q;
      want[i].to = wall::now();
      break;
    }
  }
}

void check() {
  sim::quiet q;
  std::vector<bool> used(want.size());
  for (auto const& s : split_lines(sim::capture_text(out))) {
    auto const l = wall::parse_log(s);
    bool const log = l.ok;
    std::int64_t sec = l.sec;
    std::string text = l.text;
    if (!log) {
      sec = wall::parse(s);
      SIM_CHECK(sec >= 0, "garbled", "neither a log line nor a failure: '%.200s'", s.c_str());
      static std::string const mark = "FAIL] ";
      auto const m = s.find(mark);
      SIM_CHECK(m != std::string::npos && m < 50, "garbled", "no failure marker: '%.200s'", s.c_str());
      text = s.substr(m + mark.size());
    }
    bool found = false, text_ok = false;
    for (std::size_t i = 0; i < want.size() && !found; ++i) {
      if (used[i] || want[i].log != log || want[i].text.empty() || want[i].text != text) { continue; }
      text_ok = true;
      if (wall::was(sec, want[i].from, want[i].to)) { found = used[i] = true; }
    }
    SIM_CHECK(found, text_ok ? "wrong-stamp" : "garbled", "%s: '%.200s'",
              text_ok ? "wrong time" : "no verification or statement wrote this line", s.c_str());
  }
  for (std::size_t i = 0; i < want.size(); ++i) {
    SIM_CHECK(used[i] || want[i].text.empty(), "line-lost", "no line for '%.100s'", want[i].text.c_str());
  }
}

void run(std::uint64_t n) {
  wall::init(true);
  out = capture_stream(std::clog);
  std::vector<std::thread> ts;
  auto const body = [](unsigned k, unsigned seed, int base) {
    for (unsigned i = 0; i < k; ++i) { one(seed + i * 5, base + static_cast<int>(i)); }
  };
  auto const jumps = sim::coin(1, 3) ? sim::pick(4) : 0;
  for (unsigned i = 1; i < n; ++i) {
    auto const k = static_cast<unsigned>(1 + sim::pick(4)), s = static_cast<unsigned>(sim::pick(90));
    ts.emplace_back([=] { body(k, s, static_cast<int>(i * 100)); });
  }
  if (jumps && n > 1) {
    ts.emplace_back([=] {
      for (unsigned i = 0; i < jumps; ++i) {
        for (auto k = sim::pick(20); k > 0; --k) { sim::point(); }
        wall::random_jump();
      }
    });
  }
  for (auto k = 1 + sim::pick(3); k > 0; --k) {
    body(static_cast<unsigned>(1 + sim::pick(3)), static_cast<unsigned>(sim::pick(90)), static_cast<int>(k * 10));
    if (jumps && n == 1) { wall::random_jump(); }
  }
  for (auto& t : ts) { t.join(); }
  check();
  sim::sample("[%zu threads, %zu verifications] ", static_cast<std::size_t>(n), want.size());
}

void threads() { run(2 + sim::pick(3)); }
void alone() { run(1); }

}  // namespace

SIM_MAIN({"threads", threads}, {"threads2", threads}, {"threads3", threads}, {"alone", alone})
