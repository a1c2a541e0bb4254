// What a terminal shows of the progress display, by a small terminal emulator.
#pragma once

#include "utl/progress_tracker.h"

#include "common.h"

namespace screen {

struct terminal {
  std::vector<std::vector<std::string>> rows{{}};
  std::size_t row{0}, col{0};

  void feed(std::string const& s) {
    for (std::size_t i = 0; i < s.size();) {
      unsigned char const c = static_cast<unsigned char>(s[i]);
      if (c == '\x1b') {
        SIM_CHECK(i + 2 < s.size() && s[i + 1] == '[', "garbled", "broken escape sequence");
        std::size_t j = i + 2;
        unsigned n = 0;
        bool num = false;
        while (j < s.size() && s[j] >= '0' && s[j] <= '9') {
          n = n * 10 + static_cast<unsigned>(s[j++] - '0');
          num = true;
        }
        SIM_CHECK(j < s.size(), "garbled", "broken escape sequence");
        if (s[j] == 'A') {
          if (!num) { n = 1; }
          row = n > row ? 0 : row - n;
        } else if (s[j] == 'K') {
          if (!num || n == 0) { if (rows[row].size() > col) { rows[row].resize(col); } } else {
            rows[row].clear();
          }
        } else if (s[j] == 'J') {
          rows[row].resize(std::min(rows[row].size(), col));
          rows.resize(row + 1);
        } else if (s[j] == 'G') {
          col = num && n ? n - 1 : 0;
        } else {
          SIM_CHECK(false, "garbled", "unexpected escape sequence [%c", s[j]);
        }
        i = j + 1;
      } else if (c == '\n') {
        ++row;
        col = 0;
        if (row == rows.size()) { rows.emplace_back(); }
        ++i;
      } else if (c == '\r') {
        col = 0;
        ++i;
      } else {
        std::size_t const n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        SIM_CHECK(c < 0x80 || c >= 0xC0, "garbled", "a torn character");
        SIM_CHECK(i + n <= s.size(), "garbled", "a torn character at the end");
        for (std::size_t k = 1; k < n; ++k) {
          SIM_CHECK((static_cast<unsigned char>(s[i + k]) & 0xC0) == 0x80, "garbled",
                    "a torn character");
        }
        if (rows[row].size() <= col) { rows[row].resize(col + 1, " "); }
        rows[row][col++] = s.substr(i, n);
        i += n;
      }
    }
  }
};

struct shown {
  std::string name, status;
  bool bar{false};
  int percent{-1};
  std::size_t filled{0}, width{0};
};

// "        name: [####    ]  40% | status"   or   "        name: status"
// (a tracker may change while it is drawn: only the last redraw has to be exact)
inline shown parse(std::vector<std::string> const& row, bool exact) {
  std::string text;
  for (auto const& c : row) { text += c; }
  while (!text.empty() && text.back() == ' ') { text.pop_back(); }
  shown s;
  auto const colon = text.find(": ");
  if (colon == std::string::npos) {
    SIM_CHECK(!text.empty() && text.back() == ':', "garbled", "a line without a name: '%s'",
              text.c_str());
    s.name = text.substr(0, text.size() - 1);
  } else {
    s.name = text.substr(0, colon);
  }
  s.name.erase(0, s.name.find_first_not_of(' '));
  auto rest = colon == std::string::npos ? std::string{} : text.substr(colon + 2);
  if (!rest.empty() && rest[0] == '[') {
    auto const end = rest.find(']');
    SIM_CHECK(end != std::string::npos, "garbled", "a bar without its end: '%s'", text.c_str());
    s.bar = true;
    bool gap = false;
    for (std::size_t i = 1; i < end;) {
      if (rest[i] == ' ') {
        gap = true;
        ++i;
      } else {
        SIM_CHECK(!gap || !exact, "garbled", "a bar with a hole: '%s'", text.c_str());
        ++s.filled;
        unsigned char const c = static_cast<unsigned char>(rest[i]);
        i += c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
      }
      ++s.width;
    }
    char c = 0;
    int used = 0;
    SIM_CHECK(sscanf(rest.c_str() + end + 1, " %d%c%n", &s.percent, &c, &used) == 2 && c == '%',
              "garbled", "a bar without its percentage: '%s'", text.c_str());
    auto tail = rest.substr(end + 1 + static_cast<std::size_t>(used));
    if (!tail.empty()) {
      SIM_CHECK(tail.starts_with(" | "), "garbled", "unexpected text: '%s'", text.c_str());
      s.status = tail.substr(3);
    }
  } else {
    s.status = rest;
  }
  return s;
}

inline std::streambuf* out;

// compares the last lines of the screen with the registered trackers;
// `above`: number of rows that belong to displays before the last clear
inline void check_screen(std::size_t above, bool exact_rows, char const* when) {
  sim::quiet q;
  auto& g = utl::get_global_progress_trackers();
  terminal t;
  t.feed(sim::capture_text(out));
  auto const n = g.trackers_.size();
  SIM_CHECK(sim::capture_flushed(out) == sim::capture_size(out), "not-flushed", "%s: %zu of %zu bytes have left the stream's buffer",
            when, sim::capture_flushed(out), sim::capture_size(out));
  SIM_CHECK(t.col == 0, "garbled", "%s: the cursor is inside a line", when);
  for (std::size_t r = t.row; r < t.rows.size(); ++r) {
    for (auto const& c : t.rows[r]) {
      SIM_CHECK(c == " ", "stale-line", "%s: text below the display", when);
    }
  }
  SIM_CHECK(t.row >= n, "line-missing", "%s: %zu trackers, %zu lines on the screen", when, n,
            t.row);
  if (exact_rows) {
    SIM_CHECK(t.row - above == n, "stale-line", "%s: %zu trackers, %zu lines shown", when, n,
              t.row - above);
  }
  std::size_t r = t.row - n;
  for (auto const& [name, p] : g.trackers_) {
    auto const s = parse(t.rows[r++], true);
    SIM_CHECK(s.name == name, "wrong-line", "%s: the line of %s shows '%s'", when, name.c_str(),
              s.name.c_str());
    SIM_CHECK(s.status == p->status_, "stale-status", "%s: %s has status '%s', shown is '%s'", when,
              name.c_str(), p->status_.c_str(), s.status.c_str());
    SIM_CHECK(s.bar == p->show_progress_, "stale-bar", "%s: the bar of %s is %s", when,
              name.c_str(), s.bar ? "shown" : "not shown");
    if (s.bar) {
      SIM_CHECK(s.percent == static_cast<int>(p->out_), "stale-percentage",
                "%s: %s is at %g, shown is %d%%", when, name.c_str(), p->out_.load(), s.percent);
      double const want = p->out_ * static_cast<double>(s.width) / 100.0;
      SIM_CHECK(std::abs(want - static_cast<double>(s.filled)) <= 2.0, "wrong-bar",
                "%s: %s is at %g, %zu of %zu cells are filled", when, name.c_str(),
                p->out_.load(), s.filled, s.width);
    }
  }
  // everything further up was a display once: whole lines only
  for (std::size_t i = 0; i + n < t.row; ++i) { parse(t.rows[i], false); }
}

inline std::size_t screen_rows() {
  sim::quiet q;
  terminal t;
  t.feed(sim::capture_text(out));
  return t.row;
}

}  // namespace screen
