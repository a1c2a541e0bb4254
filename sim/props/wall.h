// The simulated wall clock with the record of how it was set, time stamps.
#pragma once

#include <ctime>

#include "common.h"

namespace wall {

constexpr std::int64_t SEC = 1000000000LL;

struct jump {
  std::uint64_t at;  // tick
  std::int64_t before, after;
};
inline std::vector<jump> jumps;
inline std::uint64_t clock;

struct moment {
  std::uint64_t at;
  std::int64_t ns;
};

inline moment now() {
  sim::quiet q;
  return {++clock, sim::wall_ns()};
}

// instants around which calendar arithmetic goes wrong
inline std::int64_t pick_time() {
  static std::int64_t const s[] = {
      1700000000, 0,          1,          951782399,  951782400,  951868800,
      1078012799, 1230767999, 1330473600, 2147483647, 2147483648, 4102444800,
      1435708799, 1709164799, 1709251200, 7258118400, 946684799,  1318032069};
  return s[sim::pick(18)] * SEC + static_cast<std::int64_t>(sim::pick(3)) * 499999999;
}

inline void set(std::int64_t ns) {
  sim::quiet q;
  jumps.push_back({++clock, sim::wall_ns(), ns});
  sim::set_wall_ns(ns);
  sim::note_fault(sim::F_CLOCK_JUMP);
  sim::event("wall clock set");
}

inline void random_jump() {
  switch (sim::pick(5)) {
    case 0: set(sim::wall_ns() + SEC); break;
    case 1: if (sim::wall_ns() > 10 * SEC) { set(sim::wall_ns() - SEC); } break;
    case 2: set(sim::wall_ns() + 86400 * SEC * 400); break;
    case 3: set(pick_time()); break;
    case 4: if (sim::wall_ns() > 90000 * SEC) { set(sim::wall_ns() - 86400 * SEC); } break;
  }
}

inline void init(bool jumps_too) {
  jumps.clear();
  if (sim::coin(1, 2)) { sim::set_wall_ns(pick_time()); }
  if (sim::coin(1, 4)) {  // stamps are UTC wherever the machine is
    sim::quiet q;
    setenv("TZ", sim::coin(1, 2) ? "XYZ-5:30" : "EST5EDT,M3.2.0,M11.1.0", 1);
    tzset();
    sim::probe("local time zone other than UTC");
  }
  (void)jumps_too;
}

// was it `sec` on the wall clock at some moment between a and b?
inline bool was(std::int64_t sec, moment const& a, moment const& b) {
  std::int64_t from = a.ns;
  for (auto const& j : jumps) {
    if (j.at < a.at || j.at > b.at) { continue; }
    if (sec >= from / SEC && sec <= j.before / SEC) { return true; }
    from = j.after;
  }
  return sec >= from / SEC && sec <= b.ns / SEC;
}

// "2011-10-08T07:07:09Z" at the start of s; -1 if it is none
inline std::int64_t parse(std::string_view s) {
  static char const pat[] = "dddd-dd-ddTdd:dd:ddZ";
  if (s.size() < sizeof pat - 1) { return -1; }
  for (std::size_t i = 0; i < sizeof pat - 1; ++i) {
    if (pat[i] == 'd' ? !(s[i] >= '0' && s[i] <= '9') : s[i] != pat[i]) { return -1; }
  }
  auto const num = [&](std::size_t at, std::size_t n) {
    int v = 0;
    for (std::size_t i = at; i < at + n; ++i) { v = v * 10 + (s[i] - '0'); }
    return v;
  };
  auto const y = num(0, 4), m = num(5, 2), d = num(8, 2);
  // days since the epoch (civil calendar)
  int const yy = y - (m <= 2);
  int const era = yy / 400;
  int const yoe = yy - era * 400;
  int const doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  int const doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  std::int64_t const days = static_cast<std::int64_t>(era) * 146097 + doe - 719468;
  if (m < 1 || m > 12 || d < 1 || d > 31 || num(11, 2) > 23 || num(14, 2) > 59 || num(17, 2) > 60) {
    return -1;
  }
  return days * 86400 + num(11, 2) * 3600 + num(14, 2) * 60 + num(17, 2);
}

// "[info][2011-10-08T07:07:09Z...][file.cc:12] text"
struct log_line {
  std::string level, file, text;
  int line{-1};
  std::int64_t sec{-1};
  bool ok{false};
};

inline log_line parse_log(std::string const& s) {
  log_line l;
  auto at = s.find(']');
  if (s.empty() || s[0] != '[' || at == std::string::npos) { return l; }
  l.level = s.substr(1, at - 1);
  if (at + 1 >= s.size() || s[at + 1] != '[') { return l; }
  auto const e2 = s.find(']', at + 1);
  if (e2 == std::string::npos) { return l; }
  auto const stamp = s.substr(at + 2, e2 - at - 2);
  l.sec = parse(stamp);
  auto const rest = stamp.size() >= 20 ? stamp.substr(20) : "?";
  if (l.sec < 0 || !(rest.empty() || rest == "+0000" || rest == "+00:00" || rest == "Z")) { return l; }
  if (e2 + 1 >= s.size() || s[e2 + 1] != '[') { return l; }
  auto const e3 = s.find(']', e2 + 1);
  if (e3 == std::string::npos) { return l; }
  auto const loc = s.substr(e2 + 2, e3 - e2 - 2);
  auto const c = loc.rfind(':');
  if (c == std::string::npos) { return l; }
  l.file = loc.substr(0, c);
  l.line = std::atoi(loc.c_str() + c + 1);
  if (e3 + 1 >= s.size() || s[e3 + 1] != ' ') { return l; }
  l.text = s.substr(e3 + 2);
  l.ok = true;
  return l;
}

}  // namespace wall
