// Byte buffers against a model.
#include <optional>

#include "utl/parser/buffer.h"

#include "common.h"

namespace {

constexpr unsigned N = 3;
bool faults;

struct watch {
  watch() { sim::watch_allocs(faults); }
  ~watch() { sim::watch_allocs(false); }
};

std::size_t pick_n() {
  static std::size_t const edge[] = {0, 1, 7, 8, 15, 16, 24, 63, 64, 4095, 4096, 100000, 1 << 20};
  return sim::coin(1, 3) ? edge[sim::pick(sim::coin(1, 4) ? 13 : 11)] : sim::pick_size(5000);
}

std::string some(std::size_t n) {
  std::string s(n, 0);
  auto x = sim::pick(1 << 20) * 2654435761ULL + 1;
  for (auto& c : s) {
    x = x * 6364136223846793005ULL + 1442695040888963407ULL;
    c = static_cast<char>(x >> 40);
  }
  return s;
}

void compare(char const* when, utl::buffer& b, std::string const& m) {
  auto const* const p = std::as_const(b).data();
  SIM_CHECK(b.size() == m.size(), "wrong-size", "%s: the size is %zu, should be %zu", when, b.size(), m.size());
  SIM_CHECK(b.data() == b.begin() && p == b.data() && static_cast<std::size_t>(b.end() - b.begin()) == m.size(),
            "wrong-range", "%s: begin, end and data do not agree with the size", when);
  for (std::size_t i = 0; i < m.size(); i += std::max(m.size() / 8, std::size_t{1})) {  // watched accesses
    SIM_CHECK(static_cast<char>(p[i]) == m[i], "wrong-content", "%s: byte %zu of %zu", when, i, m.size());
  }
  sim::quiet q;
  for (std::size_t i = 0; i < m.size(); ++i) {
    SIM_CHECK(static_cast<char>(p[i]) == m[i], "wrong-content", "%s: byte %zu of %zu is %d, should be %d", when, i,
              m.size(), p[i], static_cast<unsigned char>(m[i]));
  }
}

void run(bool with_faults) {
  capture_stream(std::clog);
  faults = with_faults;
  try {
    utl::verify(false, "warm up {}", 1);
  } catch (std::exception const&) {}
  auto const base = sim::live_blocks();
  sim::enable_faults(with_faults ? sim::bit(sim::F_ALLOC) : 0);
  unsigned steps = 0;
  {
    std::array<std::optional<utl::buffer>, N> slot;
    std::array<std::string, N> model;
    for (auto k = 3 + sim::pick(20); k > 0; --k, ++steps) {
      auto const a = sim::pick(N), b = sim::pick(N);
      auto const fired = sim::faults_fired(sim::F_ALLOC);
      auto const failed = [&](char const* what) {
        sim::probe("failure reported");
        SIM_CHECK(sim::faults_fired(sim::F_ALLOC) != fired, "refused", "%s fails though memory is available", what);
      };
      switch (sim::pick(8)) {
        case 0:
        case 1:
          if (!slot[a]) {
            auto kind = sim::pick(4);
            std::string data;
            {
              sim::quiet q;
              data = some(kind == 0 ? 0 : pick_n());
              if (kind == 2) {
                for (auto& c : data) { c = c == 0 ? 'x' : c; }
              }
            }
            sim::event("buffer %u from %zu bytes (kind %u)", static_cast<unsigned>(a), data.size(), static_cast<unsigned>(kind));
            try {
              watch const w;
              switch (kind) {
                case 0: slot[a].emplace(); break;
                case 1: slot[a].emplace(data.data(), data.size()); break;
                case 2: slot[a].emplace(data.c_str()); break;
                case 3: slot[a].emplace(data.size()); break;
              }
            } catch (std::exception const&) {
              failed("construction");
              SIM_CHECK(!slot[a], "half-made", "a buffer exists though its construction failed");
              break;
            }
            if (kind == 3) {  // filled by the owner
              SIM_CHECK(slot[a]->size() == data.size(), "wrong-size", "a buffer of size %zu has size %zu", data.size(), slot[a]->size());
              sim::quiet q;
              memcpy(slot[a]->data(), data.data(), data.size());
            }
            sim::quiet q;
            model[a] = data;
          }
          break;
        case 2:
        case 3:
          if (slot[a]) {
            auto n = pick_n();
            if (sim::coin(1, 4)) { n = model[a].size() + sim::pick(3) - (model[a].empty() ? 0 : 1); }
            auto const old = model[a].size();
            sim::event("buffer %u resized from %zu to %zu", static_cast<unsigned>(a), old, n);
            try {
              watch const w;
              slot[a]->resize(n);
            } catch (std::exception const&) {
              failed("resize");
              compare("after a failed resize", *slot[a], model[a]);
              break;
            }
            SIM_CHECK(slot[a]->size() == n, "wrong-size", "resized to %zu, the size is %zu", n, slot[a]->size());
            sim::quiet q;
            if (n > old) {
              auto const more = some(n - old);
              memcpy(slot[a]->data() + old, more.data(), more.size());
              model[a] += more;
            } else {
              model[a].resize(n);
            }
          }
          break;
        case 4:
          if (slot[a] && !slot[b]) {
            sim::event("buffer %u moved to new %u", static_cast<unsigned>(a), static_cast<unsigned>(b));
            slot[b].emplace(std::move(*slot[a]));
            sim::quiet q;
            model[b] = std::move(model[a]);
            model[a].clear();
          }
          break;
        case 5:
          if (slot[a] && slot[b]) {
            sim::event("buffer %u moved to %u", static_cast<unsigned>(a), static_cast<unsigned>(b));
            *slot[b] = std::move(*slot[a]);
            sim::quiet q;
            if (a != b) {
              model[b] = std::move(model[a]);
              model[a].clear();
            } else {
              sim::probe("assigned to itself");
            }
          }
          break;
        case 6:
          if (slot[a] && !model[a].empty()) {
            auto const i = sim::pick(model[a].size());
            auto const v = static_cast<unsigned char>(sim::pick(256));
            slot[a]->data()[i] = v;
            model[a][i] = static_cast<char>(v);
          }
          break;
        case 7:
          slot[a].reset();
          break;
      }
      for (unsigned i = 0; i < N; ++i) {
        if (slot[i]) { compare("after a step", *slot[i], model[i]); }
      }
    }
    sim::quiet q;
    std::array<std::string, N>{}.swap(model);
  }
  SIM_CHECK(sim::live_blocks() <= base, "leak", "%ld memory blocks are left", static_cast<long>(sim::live_blocks() - base));
  sim::sample("[%u steps] ", steps);
}

void plain() { run(false); }
void failing() { run(true); }

}  // namespace

SIM_MAIN({"plain", plain}, {"failing", failing}, {"failing2", failing})
