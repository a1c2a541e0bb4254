// Internal interface between the parts of libsimrt.so.
#pragma once

#include <pthread.h>
#include <cstddef>
#include <cstdint>
#include <cstdarg>

#include "sim.h"

#define EXPORT extern "C" __attribute__((visibility("default")))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

namespace rt {

constexpr int MAXT = 512;  // simultaneously existing simulated threads
constexpr std::uint64_t NEVER = ~0ULL;

// ---- random numbers ---------------------------------------------------------
struct rng {
  std::uint64_t s{1};
  void seed(std::uint64_t x) { s = x; }
  std::uint64_t next() {  // splitmix64
    std::uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  std::uint64_t below(std::uint64_t n) { return n <= 1 ? 0 : next() % n; }
  double unit() { return static_cast<double>(next() >> 11) * 0x1.0p-53; }
};

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ULL + (h << 12) + (h >> 4);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 32);
}

// ---- one run's decisions, and what it reports -------------------------------
struct sdec { std::uint64_t idx; std::uint32_t off; std::uint32_t pad; };
struct fdec { std::uint64_t idx; std::uint64_t val; std::uint32_t kind, pad; };

constexpr std::size_t MAXW = 1 << 19, MAXS = 1 << 19, MAXF = 1 << 15;
constexpr std::size_t MAXPROBE = 96;

struct trace {
  std::uint64_t nw, ns, nf;
  std::uint32_t overflow;
  std::uint64_t w[MAXW];
  sdec s[MAXS];
  fdec f[MAXF];
};

struct probe_cnt { char name[56]; std::uint64_t n; };

struct result {
  std::uint32_t done;  // 1 = run ended by itself (ok or violation)
  char cls[64];  // empty = ok
  char msg[4096];
  std::uint64_t hash, sync_hash, steps, switches, vtime, threads, wall_jump;
  std::uint64_t faults[sim::F_COUNT];
  std::uint64_t fault_points;
  probe_cnt probes[MAXPROBE];
  std::uint32_t nprobes;
  char sample[2048];
};

struct shared {
  result res;
  trace out;  // decisions taken (recorded when record is on)
  trace in;  // decisions to replay
};

struct run_config {
  bool replay{false};  // decisions come from shared->in
  bool record{false};
  bool verbose{false};  // print events
  std::uint64_t seed{0};
  char scratch[128];
};

extern shared* g_sh;
extern run_config g_cfg;

// runs one scenario in the current (forked) process and never returns
[[noreturn]] void run_child(sim::scenario const* s);
void rt_init();  // once, in the zygote

// ---- threads ----------------------------------------------------------------
enum st : std::uint8_t { FREE, RUN, BLOCKED, DONE };
enum wk : std::uint8_t { W_NONE, W_MUTEX, W_COND, W_JOIN, W_FUTEX, W_SLEEP,
                         W_RW, W_GUARD, W_SEM };

struct vc { std::uint32_t c[MAXT]; };

struct dtor_rec { void (*fn)(void*); void* obj; dtor_rec* next; };

struct thread {
  int slot, serial;
  st state;
  wk wait;
  void const* obj;  // what it waits for
  std::uint64_t deadline, wait_seq;
  bool timed_out, detached, joined;
  unsigned quiet;
  bool watch;  // allocation faults are on
  int go;  // futex word
  char name[16];  // what the platform shows
  vc clk, acq_pending, rel_fence;
  bool has_rel_fence;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  pthread_t os;
  std::uintptr_t stack_lo, stack_hi;
  std::uint64_t stalled_until, prio;
  dtor_rec* dtors;
  unsigned depth;
  std::uintptr_t calls[128];
  char altstack[32768];
};

extern thread_local thread* cur __attribute__((tls_model("initial-exec")));
extern bool g_running;

inline bool active() { return cur != nullptr && cur->quiet == 0 && g_running; }

struct quiet_t {
  thread* t;
  quiet_t() : t{cur} { if (t) ++t->quiet; }
  ~quiet_t() { if (t) --t->quiet; }
};

enum pk : unsigned { P_SYNC, P_MEM };
void sched_point(pk);
void yield_point();
// blocks the current thread; true = woken, false = deadline passed
bool block(wk, void const* obj, std::uint64_t deadline);
unsigned wake(wk, void const* obj, unsigned max);
void sync_note(unsigned op, void const* obj);
void acquire_obj(void const*);
void release_obj(void const*);
void check_range(void const* p, std::size_t n, bool write, void* pc);
[[noreturn]] void vviolation(char const* cls, char const* fmt, va_list);
[[noreturn]] void violate(char const* cls, char const* fmt, ...)
    __attribute__((format(printf, 2, 3)));
void event(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
void hash_in(std::uint64_t);
void check_bounds(void const*, std::size_t);
unsigned waiters(wk, void const*);
bool inject(sim::fault_kind, std::uint64_t* v);
std::uint64_t vnow();
std::uint64_t mono_to_abs(std::int64_t sec, std::int64_t nsec, int clock);
void io_reset();
void jump(std::uint64_t ns);
bool in_arena(void const* p);

void* real_sym(char const* name);

}  // namespace rt
