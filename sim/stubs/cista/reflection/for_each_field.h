// Stand-in for cista's reflection (cista is not installed here).
#pragma once

#include <tuple>
#include <utility>

#include "cista/reflection/to_tuple.h"

namespace cista {

template <typename T, typename Fn>
void for_each_field(T& t, Fn&& fn) {
  std::apply([&](auto&... f) { (static_cast<void>(fn(f)), ...); }, to_tuple(t));
}

template <typename T, typename Fn>
void for_each_field(Fn&& fn) {
  T t{};
  for_each_field(t, std::forward<Fn>(fn));
}

}  // namespace cista
