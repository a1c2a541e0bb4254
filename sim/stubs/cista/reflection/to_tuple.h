// Stand-in for cista's reflection (cista is not installed here): aggregates
// with up to eight members.
#pragma once

#include <cstddef>
#include <tuple>
#include <type_traits>
#include <utility>

namespace cista {
namespace detail {

template <typename T, typename = void>
struct has_cista_members : std::false_type {};
template <typename T>
struct has_cista_members<T, std::void_t<decltype(std::declval<T&>().cista_members())>> : std::true_type {};
template <typename T>
inline constexpr bool has_cista_members_v = has_cista_members<std::remove_cvref_t<T>>::value;

struct anything {
  template <typename T>
  operator T() const;
};
template <typename T, std::size_t... I>
constexpr bool takes(std::index_sequence<I...>) {
  return requires { T{(static_cast<void>(I), anything{})...}; };
}
template <typename T, std::size_t N = 8>
constexpr std::size_t members() {
  if constexpr (N == 0 || takes<T>(std::make_index_sequence<N>{})) {
    return N;
  } else {
    return members<T, N - 1>();
  }
}

}  // namespace detail

template <typename T>
auto to_tuple(T& t) {
  using U = std::remove_const_t<T>;
  if constexpr (detail::has_cista_members_v<U>) {
    return t.cista_members();
  } else {
    constexpr auto n = detail::members<U>();
    if constexpr (n == 0) {
      return std::tie();
    } else if constexpr (n == 1) {
      auto& [a] = t;
      return std::tie(a);
    } else if constexpr (n == 2) {
      auto& [a, b] = t;
      return std::tie(a, b);
    } else if constexpr (n == 3) {
      auto& [a, b, c] = t;
      return std::tie(a, b, c);
    } else if constexpr (n == 4) {
      auto& [a, b, c, d] = t;
      return std::tie(a, b, c, d);
    } else if constexpr (n == 5) {
      auto& [a, b, c, d, e] = t;
      return std::tie(a, b, c, d, e);
    } else if constexpr (n == 6) {
      auto& [a, b, c, d, e, f] = t;
      return std::tie(a, b, c, d, e, f);
    } else if constexpr (n == 7) {
      auto& [a, b, c, d, e, f, g] = t;
      return std::tie(a, b, c, d, e, f, g);
    } else {
      auto& [a, b, c, d, e, f, g, h] = t;
      return std::tie(a, b, c, d, e, f, g, h);
    }
  }
}

}  // namespace cista
