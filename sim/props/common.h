#pragma once

#include <algorithm>
#include <array>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <utility>
#include <vector>

#include "sim.h"

// number of processors the simulated platform reports
inline unsigned pick_processors() {
  static unsigned const common[] = {2, 3, 1, 4, 2, 3, 8, 5};
  static unsigned const rare[] = {0, 16, 33, 64, 128, 7};
  auto const k = sim::pick(16);
  unsigned const p = k < 13 ? common[k % 8] : rare[sim::pick(6)];
  sim::set_processors(p);
  return p;
}

// how long a job sleeps, in ms: now and then longer than any time limit
inline std::int64_t pick_nap() {
  static std::int64_t const naps[] = {1, 1, 100, 5000, 100000, 4000000, 100000000};
  return naps[sim::pick(7)];
}

// sends std::clog (or another stream) to a capture buffer for the whole run
inline std::streambuf* capture_stream(std::ostream& o) {
  auto* b = sim::make_capture();
  o.rdbuf(b);
  o.clear();
  return b;
}

inline std::vector<std::string> split_lines(std::string const& s) {
  std::vector<std::string> v;
  std::size_t at = 0;
  while (at < s.size()) {
    auto const nl = s.find('\n', at);
    if (nl == std::string::npos) {
      v.push_back(s.substr(at) + "<no newline>");
      break;
    }
    v.push_back(s.substr(at, nl - at));
    at = nl + 1;
  }
  return v;
}

#define SIM_MAIN(...)                                          \
  int main(int argc, char** argv) {                            \
    static sim::scenario const list[] = {__VA_ARGS__};         \
    return sim::sim_main(argc, argv, list, std::size(list));   \
  }
