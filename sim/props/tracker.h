// Shared by the progress tracker checks.
#pragma once

#include <cmath>
#include <limits>

#include "utl/progress_tracker.h"

#include "common.h"

namespace tracker {

struct config {
  float low{0.F}, high{100.F}, mod{1.F};
  std::size_t in_high{100};
  bool operator==(config const&) const = default;
};

inline config pick_config(bool with_zero) {
  static float const lows[] = {0, 0, 0, 5, 20.5F, 33, -10};
  static float const ranges[] = {100, 100, 10, 35, 67.5F, 1, 0};
  static float const mods[] = {1, 1, 1, .5F, 10, 30, .1F};
  static std::size_t const ins[] = {100, 10, 1, 7, 1000, 3, 1ULL << 40, (5ULL << 32) + 77};
  config c;
  c.low = lows[sim::pick(7)];
  c.high = c.low + ranges[sim::pick(7)];
  c.mod = mods[sim::pick(7)];
  c.in_high = ins[sim::pick(8)];
  if (with_zero && sim::coin(1, 8)) { c.in_high = 0; }
  return c;
}

// Inputs are file offsets as often as item numbers: a unit for all inputs of a
// run, so that they exceed 32 bits in some.
inline std::size_t pick_unit() {
  static std::size_t const v[] = {1, 1, 1, 1, 1, (1ULL << 26) + 3, (1ULL << 33) + 1};
  return v[sim::pick(7)];
}

// is `out` the value that the bounds and the step define for `in`?
inline bool defined_output(config const& c, std::size_t in, float out) {
  double const eps = 1e-4 * std::max({1.0, std::abs(double(c.low)),
                                      std::abs(double(c.high))});
  if (!(out >= c.low && out <= c.high)) { return false; }
  if (c.in_high == 0 && in == 0) { return true; }  // undefined: any in bounds
  if (c.in_high == 0) { return std::abs(out - c.high) <= eps; }
  double const x = (double(c.high) - double(c.low)) *
                   (double(in) / double(c.in_high)) / double(c.mod);
  double const f = std::floor(x);
  double const tol = 1e-4 * std::max(1.0, std::abs(x));
  auto const ok = [&](double steps) {
    double const v = std::min(double(c.high),
                              std::max(double(c.low), c.low + steps * c.mod));
    return std::abs(out - v) <= eps;
  };
  if (x - f < .5 + tol && ok(f)) { return true; }
  return x - f >= .5 - tol && ok(f + 1);
}

inline void apply(utl::progress_tracker& t, config const& c) {
  t.out_bounds(c.low, c.high).out_mod(c.mod).in_high(c.in_high);
}

}  // namespace tracker
