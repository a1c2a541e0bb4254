// Stand-in for cista's string (cista is not installed here): what utl uses.
#pragma once

#include <cstddef>
#include <string>
#include <string_view>

namespace cista::raw {

struct generic_string {
  generic_string() = default;
  generic_string(std::string_view s) { set_owning(s.data(), static_cast<unsigned>(s.size())); }
  void set_non_owning(char const* s, unsigned n) {
    own_.clear();
    view_ = {s, n};
    owning_ = false;
  }
  void set_owning(char const* s, unsigned n) {
    own_.assign(s, n);
    owning_ = true;
  }
  std::string_view view() const { return owning_ ? std::string_view{own_} : view_; }
  operator std::string_view() const { return view(); }
  char const* data() const { return view().data(); }
  std::size_t size() const { return view().size(); }
  bool empty() const { return view().empty(); }
  char operator[](std::size_t i) const { return view()[i]; }
  void erase(unsigned pos, unsigned n) {
    own_ = std::string{view()}.erase(pos, n);
    owning_ = true;
  }
  std::string str() const { return std::string{view()}; }

  std::string own_;
  std::string_view view_;
  bool owning_{false};
};

}  // namespace cista::raw
