// Deterministic scheduler, decision streams, race detector, heap, threads.
//
// All simulated threads are real OS threads, but exactly one of them holds the
// token at any time; it is handed over only at scheduling points, and who gets
// it is decided here.

#include "rt_int.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <iostream>
#include <new>
#include <typeinfo>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}

// this file must not call the interposed block operations itself
static inline void* rt_copy(void* d, void const* s, size_t n) {
  void* r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
static inline void* rt_set(void* d, int c, size_t n) {
  void* r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
#define memcpy rt_copy
#define memset rt_set

namespace rt {

thread_local thread* cur __attribute__((tls_model("initial-exec"))) = nullptr;
bool g_running = false;
shared* g_sh = nullptr;
run_config g_cfg;

static inline long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0,
                       long e = 0, long f = 0) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}

void* real_sym(char const* name) { return dlsym(RTLD_NEXT, name); }

#define REAL(ret, name, ...)                                      \
  static ret (*fp)(__VA_ARGS__);                                  \
  if (UNLIKELY(!fp)) {                                            \
    fp = reinterpret_cast<ret (*)(__VA_ARGS__)>(real_sym(#name)); \
  }

// ---- memory regions ---------------------------------------------------------
constexpr std::uintptr_t EXE_END = 0x10000000;
constexpr std::uintptr_t ARENA = 0x100000000000;
constexpr std::uintptr_t HEAP_SZ = 2ULL << 30, STACKS_SZ = 2ULL << 30;
constexpr std::uintptr_t STACKS = ARENA + HEAP_SZ;
constexpr std::uintptr_t ARENA_END = STACKS + STACKS_SZ;
constexpr std::uintptr_t STACK_SZ = 256 << 10;
constexpr std::uintptr_t NSTACKS = STACKS_SZ / STACK_SZ;

struct slot_t {
  std::uint32_t clk;
  std::uint16_t tid;
  std::uint8_t mask;
  std::uint8_t flags;  // 1 write, 2 atomic
  std::uint32_t pc;
  std::uint32_t serial;
};
struct cell { slot_t s[4]; };

static cell* sh_exe;
static cell* sh_arena;
static std::uint8_t* heap_map;  // 1..8 valid bytes, 0xFD freed, 0 never
static std::uintptr_t heap_top = ARENA;
static std::uint64_t n_stacks;
static std::uint64_t n_live_blocks;

bool in_arena(void const* p) {
  auto const a = reinterpret_cast<std::uintptr_t>(p);
  return a >= ARENA && a < STACKS;
}

static void* reserve(std::uintptr_t at, std::size_t n) {
  void* p = mmap(reinterpret_cast<void*>(at), n, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                     (at ? MAP_FIXED_NOREPLACE : 0),
                 -1, 0);
  if (p == MAP_FAILED || (at && p != reinterpret_cast<void*>(at))) {
    static char const m[] = "libsimrt: cannot reserve address space\n";
    raw(SYS_write, 2, reinterpret_cast<long>(m), sizeof m - 1);
    raw(SYS_exit_group, 2);
  }
  return p;
}

// ---- run state --------------------------------------------------------------
static thread* g_threads[MAXT];
static int n_slots;  // slots ever used
static int n_exist;  // threads existing (not joined)
static unsigned n_created;
static std::uint64_t sp, step_limit, run_len, next_key, next_deadline;
static std::int64_t gap[2];
static std::uint64_t vtime;
static std::int64_t wall_off;
static std::uint64_t g_seq;
static bool sync_only;
static std::uint64_t h_all, h_sync, n_switch;
static std::uint64_t wait_seq;
static unsigned n_proc = 4;
static rng rW, rS, rF, rC;
static std::uint64_t in_w, in_s, in_f;  // replay cursors
static std::uint64_t fp_idx, n_fired;
// spurious wake-ups and weak compare-exchange failures are always possible
constexpr std::uint64_t SCHED_FAULTS =
    (1ULL << sim::F_SPURIOUS_WAKE) | (1ULL << sim::F_CAS_WEAK);
static std::uint64_t fault_mask = SCHED_FAULTS;
constexpr std::uint64_t ROT = 2000;

// strategy
static struct {
  int kind;
  double p_sync, p_mem, p_stall;
  std::uint64_t cps[16];
  unsigned n_cp, cp;
  unsigned site;  // preempt at synchronisation sites with this hash
} strat;
struct fcfg { int mode; double p; std::uint64_t at, seen; double burst; };
static fcfg fconf[sim::F_COUNT];

void hash_in(std::uint64_t v) { h_all = mix(h_all, v); }

std::uint64_t vnow() { return vtime; }

// ---- reporting --------------------------------------------------------------
static void put_stack(char* buf, std::size_t n, thread const* t) {
  std::size_t o = strlen(buf);
  if (t == nullptr) { return; }
  unsigned d = t->depth;
  for (unsigned i = 0; i < 10 && i < d && o + 24 < n; ++i) {
    unsigned const at = d - 1 - i;
    if (at >= 128) { continue; }
    o += static_cast<std::size_t>(
        snprintf(buf + o, n - o, " <0x%lx>", t->calls[at]));
  }
}

static probe_cnt probes[MAXPROBE];
static unsigned nprobes;
static char sample_buf[2048];
static unsigned sample_len;

[[noreturn]] static void finish(char const* cls, char const* msg) {
  if (cur) { ++cur->quiet; }
  g_running = false;
  auto& r = g_sh->res;
  snprintf(r.cls, sizeof r.cls, "%s", cls);
  snprintf(r.msg, sizeof r.msg, "%s", msg);
  for (char const* c = cls; *c; ++c) { h_all = mix(h_all, *c); }
  r.hash = mix(h_all, sp);
  r.sync_hash = h_sync;
  r.steps = sp;
  r.switches = n_switch;
  r.vtime = vtime;
  r.threads = n_created;
  r.fault_points = fp_idx;
  memcpy(r.probes, probes, sizeof probes);
  r.nprobes = nprobes;
  memcpy(r.sample, sample_buf, sizeof sample_buf);
  __atomic_store_n(&r.done, 1U, __ATOMIC_SEQ_CST);
  raw(SYS_exit_group, 0);
  __builtin_unreachable();
}

void vviolation(char const* cls, char const* fmt, va_list ap) {
  if (cur) { ++cur->quiet; }
  static char msg[4096];
  vsnprintf(msg, 3000, fmt, ap);
  put_stack(msg, sizeof msg, cur);
  finish(cls, msg);
}
void violate(char const* cls, char const* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vviolation(cls, fmt, ap);
}

static void vevent(char const* fmt, va_list ap) {
  quiet_t q;
  char b[512];
  int const n = vsnprintf(b, sizeof b, fmt, ap);
  for (int i = 0; i < n && i < static_cast<int>(sizeof b); ++i) {
    h_all = mix(h_all, static_cast<unsigned char>(b[i]));
  }
  ++g_seq;
  if (g_cfg.verbose) {
    char o[640];
    int const m =
        snprintf(o, sizeof o, "%8lu %12lu ns T%-3d %s\n",
                 static_cast<unsigned long>(sp),
                 static_cast<unsigned long>(vtime), cur ? cur->serial : -1, b);
    raw(SYS_write, 1, reinterpret_cast<long>(o),
        m < static_cast<int>(sizeof o) ? m : static_cast<int>(sizeof o) - 1);
  }
}
void event(char const* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vevent(fmt, ap);
  va_end(ap);
}

static char const* wname(wk w) {
  switch (w) {
    case W_MUTEX: return "mutex";
    case W_COND: return "condition variable";
    case W_JOIN: return "join";
    case W_FUTEX: return "atomic wait";
    case W_SLEEP: return "sleep";
    case W_RW: return "rwlock";
    case W_GUARD: return "static initialisation";
    case W_SEM: return "semaphore";
    default: return "-";
  }
}

[[noreturn]] static void stuck(char const* cls, char const* head) {
  if (cur) { ++cur->quiet; }
  static char b[3000];
  std::size_t o = static_cast<std::size_t>(
      snprintf(b, sizeof b, "%s after %lu steps:", head,
               static_cast<unsigned long>(sp)));
  for (int i = 0; i < n_slots && o < sizeof b - 200; ++i) {
    thread* t = g_threads[i];
    if (t == nullptr || t->state == FREE || t->joined) { continue; }
    o += static_cast<std::size_t>(snprintf(
        b + o, sizeof b - o, " T%d %s%s;", t->serial,
        t->state == RUN ? "runnable"
                        : t->state == DONE ? "ended" : "waits for ",
        t->state == BLOCKED ? wname(t->wait) : ""));
  }
  finish(cls, b);
}

// ---- decision streams -------------------------------------------------------
static void rec_s(std::uint64_t idx, std::uint32_t off) {
  if (!g_cfg.record) { return; }
  auto& o = g_sh->out;
  if (o.ns < MAXS) { o.s[o.ns++] = {idx, off, 0}; } else { o.overflow = 1; }
}

static void set_next_key() {
  if (g_cfg.replay) {
    auto& in = g_sh->in;
    while (in_s < in.ns && in.s[in_s].idx <= sp) { ++in_s; }
    next_key = in_s < in.ns ? in.s[in_s].idx : NEVER;
  } else {
    while (strat.cp < strat.n_cp && strat.cps[strat.cp] <= sp) { ++strat.cp; }
    next_key = strat.cp < strat.n_cp ? strat.cps[strat.cp] : NEVER;
  }
}

static bool replay_s(std::uint32_t& off) {
  auto& in = g_sh->in;
  while (in_s < in.ns && in.s[in_s].idx < sp) { ++in_s; }
  bool hit = false;
  if (in_s < in.ns && in.s[in_s].idx == sp) {
    off = in.s[in_s].off;
    hit = true;
  }
  set_next_key();
  return hit;
}

static std::int64_t draw_gap(double p) {
  if (p <= 0) { return INT64_MAX; }
  if (p >= 1) { return 1; }
  double const u = 1.0 - rS.unit();
  double const g = 1.0 + __builtin_log(u) / __builtin_log1p(-p);
  return g > 1e15 ? INT64_MAX : static_cast<std::int64_t>(g);
}

static void fire_timers() {
  next_deadline = NEVER;
  for (int i = 0; i < n_slots; ++i) {
    thread* t = g_threads[i];
    if (t == nullptr || t->state != BLOCKED || t->deadline == NEVER) {
      continue;
    }
    if (t->deadline <= vtime) {
      t->state = RUN;
      t->timed_out = true;
      t->deadline = NEVER;
    } else if (t->deadline < next_deadline) {
      next_deadline = t->deadline;
    }
  }
}

static void fut_wait(int* w) {
  while (__atomic_load_n(w, __ATOMIC_SEQ_CST) == 0) {
    raw(SYS_futex, reinterpret_cast<long>(w), FUTEX_WAIT_PRIVATE, 0, 0);
  }
  __atomic_store_n(w, 0, __ATOMIC_SEQ_CST);
}

static void hand_to(thread* nx, bool wait) {
  thread* t = cur;
  if (nx == t) { return; }
  ++n_switch;
  run_len = 0;
  h_all = mix(h_all, sp * 1024 + static_cast<std::uint64_t>(nx->serial));
  __atomic_store_n(&nx->go, 1, __ATOMIC_SEQ_CST);
  raw(SYS_futex, reinterpret_cast<long>(&nx->go), FUTEX_WAKE_PRIVATE, 1);
  if (wait) { fut_wait(&t->go); }
}

// runnable threads in cyclic order starting behind `t` (t itself comes last,
// or first if from_self)
static unsigned runnable(thread* t, bool from_self, thread** out) {
  unsigned n = 0;
  int const s = t->slot;
  for (int k = from_self ? 0 : 1; k <= n_slots - (from_self ? 1 : 0); ++k) {
    int i = s + k;
    while (i >= n_slots) { i -= n_slots; }
    thread* c = g_threads[i];
    if (c != nullptr && c->state == RUN) { out[n++] = c; }
  }
  return n;
}

static void maybe_stall(thread** r, unsigned n) {
  if (strat.p_stall > 0 && n > 1 && rS.unit() < strat.p_stall) {
    thread* v = r[rS.below(n)];
    v->stalled_until = sp + (16ULL << rS.below(11));
    ++g_sh->res.faults[sim::F_STALL];
  }
}

// chooses among r[0..n) with r[def] the default; search mode only
static std::uint32_t choose(thread** r, unsigned n, bool pct_eval,
                            bool away_from_first) {
  maybe_stall(r, n);
  unsigned ok[MAXT], k = 0;
  ok[0] = 0;
  for (unsigned i = 0; i < n; ++i) {
    if (r[i]->stalled_until <= sp && !(away_from_first && i == 0 && n > 1)) {
      ok[k++] = i;
    }
  }
  if (k == 0) {
    for (unsigned i = 0; i < n; ++i) {
      if (!(away_from_first && i == 0 && n > 1)) { ok[k++] = i; }
    }
  }
  if (pct_eval) {
    unsigned best = ok[0];
    for (unsigned i = 1; i < k; ++i) {
      if (r[ok[i]]->prio > r[best]->prio) { best = ok[i]; }
    }
    return best;
  }
  return ok[rS.below(k)];
}

static std::uint64_t low_prio;  // ever lower priorities for PCT

static void slow_point(pk k, thread* t, bool yield, bool site) {
  thread* r[MAXT];
  unsigned const n = runnable(t, true, r);
  bool const rotate = yield || run_len >= ROT;
  std::uint32_t const def = rotate && n > 1 ? 1 : 0;
  std::uint32_t off = def;
  if (g_cfg.replay) {
    if (replay_s(off) && n > 0) { off %= n; }
  } else {
    bool const cp = sp >= next_key;
    bool const gone = gap[k] <= 0;
    if (gone) { gap[k] = draw_gap(k == P_SYNC ? strat.p_sync : strat.p_mem); }
    if (n > 1) {
      if (strat.kind == 1) {  // PCT
        if (cp) { t->prio = low_prio--; }
        if (rotate) {
          t->prio = low_prio--;
        }
        if (cp || gone || rotate) { off = choose(r, n, true, false); }
      } else if (gone || (site && (rS.next() & 1))) {
        off = choose(r, n, false, !yield);
      } else if (rotate) {
        off = def;
      }
    }
    if (cp) { set_next_key(); }
  }
  if (run_len >= ROT) { run_len = 0; }
  if (off != def) { rec_s(sp, off); }
  if (n > 1 && off != 0) { hand_to(r[off], true); }
}

static inline void count_step() {
  ++sp;
  vtime += 20;
  if (UNLIKELY(sp > step_limit)) {
    stuck("no-progress", "the run did not end");
  }
  if (UNLIKELY(vtime >= next_deadline)) { fire_timers(); }
}

void sched_point(pk k) {
  thread* t = cur;
  if (t == nullptr || t->quiet != 0 || !g_running) { return; }
  count_step();
  if (k == P_MEM && sync_only) { return; }
  ++run_len;
  bool site = false;
  if (k == P_SYNC && strat.site != 0) {
    std::uint64_t h = 7;
    for (unsigned i = 0; i < 3 && i < t->depth && t->depth <= 128; ++i) {
      auto const a = t->calls[t->depth - 1 - i];
      if (a < EXE_END) { h = mix(h, a); }  // library addresses vary
    }
    site = h % 7 == strat.site;
  }
  if (LIKELY(sp < next_key && --gap[k] > 0 && run_len < ROT && !site)) {
    return;
  }
  slow_point(k, t, false, site);
}

void yield_point() {
  thread* t = cur;
  if (t == nullptr || t->quiet != 0 || !g_running) { return; }
  count_step();
  --gap[P_SYNC];
  ++run_len;
  slow_point(P_SYNC, t, true, false);
}

// the current thread cannot continue: someone else must
static void leave(thread* t, bool exiting) {
  for (;;) {
    count_step();
    thread* r[MAXT];
    unsigned const n = runnable(t, false, r);
    if (n == 0) {
      if (next_deadline == NEVER) {
        // recompute, in case it was never set for this waiter
        for (int i = 0; i < n_slots; ++i) {
          thread* c = g_threads[i];
          if (c && c->state == BLOCKED && c->deadline < next_deadline) {
            next_deadline = c->deadline;
          }
        }
      }
      if (next_deadline == NEVER) { stuck("deadlock", "no thread can run"); }
      if (vtime < next_deadline) { vtime = next_deadline; }
      fire_timers();
      continue;
    }
    std::uint32_t off = 0;
    if (g_cfg.replay) {
      if (sp >= next_key) {
        if (replay_s(off)) { off %= n; }
      }
    } else {
      if (n > 1) { off = choose(r, n, strat.kind == 1, false); }
      if (sp >= next_key) { set_next_key(); }
    }
    if (off != 0) { rec_s(sp, off); }
    hand_to(r[off], !exiting);
    return;
  }
}

bool block(wk w, void const* obj, std::uint64_t deadline) {
  thread* t = cur;
  t->state = BLOCKED;
  t->wait = w;
  t->obj = obj;
  t->deadline = deadline;
  t->wait_seq = ++wait_seq;
  t->timed_out = false;
  if (deadline < next_deadline) { next_deadline = deadline; }
  leave(t, false);
  t->wait = W_NONE;
  t->deadline = NEVER;
  return !t->timed_out;
}

static void make_runnable(thread* t) {
  t->state = RUN;
  t->deadline = NEVER;
}

// a scheduling-type decision with n outcomes, default 0
static std::uint32_t decide(unsigned n) {
  if (n <= 1) { return 0; }
  count_step();
  std::uint32_t off = 0;
  if (g_cfg.replay) {
    if (sp >= next_key && replay_s(off)) { off %= n; }
  } else {
    if (strat.kind != 3) { off = static_cast<std::uint32_t>(rS.below(n)); }
    if (sp >= next_key) { set_next_key(); }
  }
  if (off != 0) { rec_s(sp, off); }
  return off;
}

unsigned wake(wk w, void const* obj, unsigned max) {
  thread* r[MAXT];
  unsigned n = 0;
  for (int i = 0; i < n_slots; ++i) {
    thread* t = g_threads[i];
    if (t && t->state == BLOCKED && t->wait == w && t->obj == obj) {
      r[n++] = t;
    }
  }
  if (max >= n) {
    for (unsigned i = 0; i < n; ++i) { make_runnable(r[i]); }
    return n;
  }
  // oldest waiter first by default
  for (unsigned i = 1; i < n; ++i) {
    for (unsigned j = i; j > 0 && r[j]->wait_seq < r[j - 1]->wait_seq; --j) {
      thread* x = r[j];
      r[j] = r[j - 1];
      r[j - 1] = x;
    }
  }
  for (unsigned k = 0; k < max; ++k) {
    unsigned const c = decide(n - k);
    make_runnable(r[c]);
    for (unsigned i = c; i + 1 < n - k; ++i) { r[i] = r[i + 1]; }
  }
  return max;
}

// ---- vector clocks of synchronisation objects -------------------------------
struct sobj {
  std::uintptr_t addr;
  std::uint32_t order;
  vc v;
};
constexpr std::size_t SOBJ_BITS = 18;
static std::uint32_t* sobj_tab;  // index + 1
static sobj* sobj_pool;
static std::uint32_t n_sobj;

static sobj* obj_of(void const* p) {
  auto const a = reinterpret_cast<std::uintptr_t>(p);
  std::size_t i = (a >> 2) * 0x9E3779B97F4A7C15ULL >> (64 - SOBJ_BITS);
  for (;;) {
    std::uint32_t const e = sobj_tab[i];
    if (e == 0) { break; }
    if (sobj_pool[e - 1].addr == a) { return &sobj_pool[e - 1]; }
    i = (i + 1) & ((1U << SOBJ_BITS) - 1);
  }
  if (n_sobj > (1U << SOBJ_BITS) * 7 / 10) {
    violate("harness-limit", "too many synchronisation objects");
  }
  sobj* o = &sobj_pool[n_sobj];
  o->addr = a;
  o->order = n_sobj;
  sobj_tab[i] = ++n_sobj;
  return o;
}

static inline void join(vc& a, vc const& b) {
  for (int i = 0; i < n_slots; ++i) {
    if (b.c[i] > a.c[i]) { a.c[i] = b.c[i]; }
  }
}
static inline void assign(vc& a, vc const& b) {
  memcpy(a.c, b.c, sizeof(std::uint32_t) * static_cast<std::size_t>(n_slots));
}
static inline void tick(thread* t) { ++t->clk.c[t->slot]; }

void acquire_obj(void const* p) { join(cur->clk, obj_of(p)->v); }
void release_obj(void const* p) {
  join(obj_of(p)->v, cur->clk);
  tick(cur);
}

void sync_note(unsigned op, void const* p) {
  std::uint32_t const o = p ? obj_of(p)->order : 0;
  h_sync = mix(h_sync, (static_cast<std::uint64_t>(o) << 24) ^ (op << 16) ^
                           static_cast<std::uint64_t>(cur->serial));
}

// ---- race detector ----------------------------------------------------------
static std::uintptr_t exempt_lo[8], exempt_hi[8];
static unsigned n_exempt;

static inline cell* cell_of(std::uintptr_t a) {
  if (a - ARENA < ARENA_END - ARENA) { return sh_arena + ((a - ARENA) >> 3); }
  if (a < EXE_END) {
    for (unsigned i = 0; i < n_exempt; ++i) {
      if (a >= exempt_lo[i] && a < exempt_hi[i]) { return nullptr; }
    }
    return sh_exe + (a >> 3);
  }
  return nullptr;
}

[[noreturn]] static void report_race(std::uintptr_t a, slot_t const& o,
                                     bool write, bool atomic, void* pc) {
  violate("data-race",
          "%s%s at <0x%lx> by T%d is unordered with %s%s at <0x%x> by T%u",
          atomic ? "atomic " : "", write ? "write" : "read",
          reinterpret_cast<unsigned long>(pc), cur->serial,
          (o.flags & 2) ? "atomic " : "", (o.flags & 1) ? "write" : "read",
          o.pc, o.serial);
  (void)a;
}

static void heap_error(std::uintptr_t a, std::size_t n, bool write,
                       std::uint8_t m) {
  violate(m == 0xFD ? "heap-use-after-free" : "heap-out-of-bounds",
          "%s of %lu byte(s) at %s memory (heap offset %lu)",
          write ? "write" : "read", static_cast<unsigned long>(n),
          m == 0xFD ? "released" : "unallocated",
          static_cast<unsigned long>(a - ARENA));
}

static inline void check_heap(std::uintptr_t a, std::size_t n, bool write) {
  // within one 8 byte cell
  if (a - ARENA >= HEAP_SZ) { return; }
  std::uint8_t const m = heap_map[(a - ARENA) >> 3];
  if (UNLIKELY(m == 0xFD || (a & 7) + n > m)) { heap_error(a, n, write, m); }
}

// returns true if another thread has touched the cell
static inline void race_cell(std::uintptr_t a, unsigned n, bool write,
                             bool atomic, void* pc) {
  cell* c = cell_of(a);
  if (c == nullptr) { return; }
  thread* t = cur;
  auto const mask = static_cast<std::uint8_t>(((1U << n) - 1) << (a & 7));
  auto const fl = static_cast<std::uint8_t>((write ? 1 : 0) | (atomic ? 2 : 0));
  int put = -1;
  for (int i = 0; i < 4; ++i) {
    slot_t& o = c->s[i];
    if (o.clk == 0) {
      if (put < 0) { put = i; }
      continue;
    }
    if (o.tid == t->slot) {
      // the new access replaces an old one that it conflicts with at least as
      // widely: same bytes, not weaker (write over read, plain over atomic)
      if (o.mask == mask && (write || !(o.flags & 1)) &&
          (!atomic || (o.flags & 2))) {
        put = i;
      }
      continue;
    }
    bool const hb = o.clk <= t->clk.c[o.tid];
    if (hb) {
      if (write && !atomic && (o.mask & ~mask) == 0 && put < 0) { put = i; }
      continue;
    }
    if ((o.mask & mask) == 0) { continue; }
    if (!(o.flags & 1) && !write) { continue; }
    if ((o.flags & 2) && atomic) { continue; }
    report_race(a, o, write, atomic, pc);
  }
  if (put < 0) {
    // replace something already ordered before us, else rotate
    for (int i = 0; i < 4; ++i) {
      slot_t& o = c->s[i];
      if (o.tid != t->slot && o.clk <= t->clk.c[o.tid] &&
          (write || !(o.flags & 1))) {
        put = i;
        break;
      }
    }
    if (put < 0) { put = static_cast<int>(sp & 3); }
  }
  c->s[put] = {t->clk.c[t->slot],
               static_cast<std::uint16_t>(t->slot),
               mask,
               fl,
               static_cast<std::uint32_t>(reinterpret_cast<std::uintptr_t>(pc)),
               static_cast<std::uint32_t>(t->serial)};
}

static inline bool shared_cell(std::uintptr_t a, thread* t) {
  cell* c = cell_of(a);
  if (c == nullptr) { return true; }
  for (auto const& o : c->s) {
    if (o.clk != 0 && o.tid != t->slot) { return true; }
  }
  return false;
}

static inline void mem_access(std::uintptr_t a, unsigned n, bool write,
                              void* pc) {
  thread* t = cur;
  if (t == nullptr || t->quiet != 0 || !g_running) { return; }
  if (n_exist > 1) {
    bool const own = a >= t->stack_lo && a < t->stack_hi;
    if (!own || shared_cell(a, t)) { sched_point(P_MEM); }
  } else {
    ++sp;
    vtime += 20;
    if (UNLIKELY(sp > step_limit)) { count_step(); }
  }
  unsigned const first = 8 - static_cast<unsigned>(a & 7);
  unsigned const k = n < first ? n : first;
  check_heap(a, k, write);
  if (n_exist > 1) { race_cell(a, k, write, false, pc); }
  if (UNLIKELY(k < n)) {
    std::uintptr_t b = a + k;
    unsigned left = n - k;
    while (left > 0) {
      unsigned const m = left < 8 ? left : 8;
      check_heap(b, m, write);
      if (n_exist > 1) { race_cell(b, m, write, false, pc); }
      b += m;
      left -= m;
    }
  }
}

void check_range(void const* p, std::size_t n, bool write, void* pc) {
  thread* t = cur;
  if (t == nullptr || t->quiet != 0 || !g_running || n == 0) { return; }
  auto a = reinterpret_cast<std::uintptr_t>(p);
  std::uintptr_t const e = a + n;
  bool const race = n_exist > 1;
  bool const heap = a - ARENA < HEAP_SZ;
  if (!heap && !race) { return; }
  if (race) { sched_point(P_MEM); }
  std::size_t done = 0;
  while (a < e) {
    std::uintptr_t nx = (a | 7) + 1;
    if (nx > e) { nx = e; }
    if (heap) { check_heap(a, nx - a, write); }
    if (race && done < 512) {
      race_cell(a, static_cast<unsigned>(nx - a), write, false, pc);
      ++done;
    }
    a = nx;
  }
}

void check_bounds(void const* p, std::size_t n) {
  auto a = reinterpret_cast<std::uintptr_t>(p);
  std::uintptr_t const e = a + n;
  while (a < e) {
    std::uintptr_t nx = (a | 7) + 1;
    if (nx > e) { nx = e; }
    check_heap(a, nx - a, true);
    a = nx;
  }
}

unsigned waiters(wk w, void const* obj) {
  unsigned n = 0;
  for (int i = 0; i < n_slots; ++i) {
    thread* t = g_threads[i];
    if (t->state == BLOCKED && t->wait == w && t->obj == obj) { ++n; }
  }
  return n;
}

// ---- atomics ----------------------------------------------------------------
static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo >= 4; }
static inline bool rel(int mo) { return mo == 3 || mo >= 4; }

static void atomic_pre(void const* p, unsigned n, bool write, void* pc) {
  sched_point(P_SYNC);
  auto const a = reinterpret_cast<std::uintptr_t>(p);
  check_heap(a, n > 8 ? 8 : n, write);
  race_cell(a, n > 8 ? 8 : n, write, true, pc);
}
static void at_load(void const* p, int mo) {
  thread* t = cur;
  sobj* o = obj_of(p);
  if (acq(mo)) { join(t->clk, o->v); } else { join(t->acq_pending, o->v); }
  sync_note(1, p);
}
static void at_store(void const* p, int mo, bool rmw) {
  thread* t = cur;
  sobj* o = obj_of(p);
  if (rel(mo)) {
    if (rmw) { join(o->v, t->clk); } else { assign(o->v, t->clk); }
    tick(t);
  } else if (t->has_rel_fence) {
    if (rmw) { join(o->v, t->rel_fence); } else { assign(o->v, t->rel_fence); }
  } else if (!rmw) {
    memset(o->v.c, 0,
           sizeof(std::uint32_t) * static_cast<std::size_t>(n_slots));
  }
  sync_note(2, p);
}
static void at_fence(int mo) {
  thread* t = cur;
  if (acq(mo)) { join(t->clk, t->acq_pending); }
  if (rel(mo)) {
    assign(t->rel_fence, t->clk);
    t->has_rel_fence = true;
    tick(t);
  }
}

// ---- heap -------------------------------------------------------------------
struct hdr { std::uint64_t size, magic; };
constexpr std::uint64_t LIVE = 0xA110CA7ED0B10C01, DEAD = 0xDEADB10CDEADB10C;

static void* heap_alloc(std::size_t n, std::size_t align, bool zero) {
  if (n > HEAP_SZ / 2) { return nullptr; }
  if (align < 16) { align = 16; }
  std::uintptr_t u = (heap_top + sizeof(hdr) + align - 1) & ~(align - 1);
  std::uintptr_t const e = (u + n + 7) & ~7ULL;
  std::uintptr_t const top = (e + 16 + 15) & ~15ULL;
  if (top > ARENA + HEAP_SZ) { return nullptr; }
  heap_top = top;
  auto* h = reinterpret_cast<hdr*>(u - sizeof(hdr));
  h->size = n;
  h->magic = LIVE;
  std::size_t const full = n >> 3;
  memset(heap_map + ((u - ARENA) >> 3), 8, full);
  if (n & 7) {
    heap_map[((u - ARENA) >> 3) + full] = static_cast<std::uint8_t>(n & 7);
  }
  if (!zero && n <= (4U << 20)) {
    memset(reinterpret_cast<void*>(u), 0xCB, n);
  }
  ++n_live_blocks;
  return reinterpret_cast<void*>(u);
}

static hdr* header_of(void* p, char const* what) {
  auto const a = reinterpret_cast<std::uintptr_t>(p);
  auto* h = reinterpret_cast<hdr*>(a - sizeof(hdr));
  if ((a & 15) != 0 || a < ARENA + 16 || (h->magic != LIVE && h->magic != DEAD)) {
    violate("bad-free", "%s of a pointer that was never allocated", what);
  }
  if (h->magic == DEAD) {
    violate("double-free", "%s of a block released before", what);
  }
  return h;
}

static void heap_free(void* p, void* pc) {
  hdr* h = header_of(p, "release");
  auto const a = reinterpret_cast<std::uintptr_t>(p);
  if (cur && cur->quiet == 0 && g_running && n_exist > 1) {
    std::size_t left = h->size < 4096 ? h->size : 4096;
    for (std::uintptr_t b = a; left > 0;) {
      unsigned const m = left < 8 ? static_cast<unsigned>(left) : 8;
      race_cell(b, m, true, false, pc);
      b += m;
      left -= m;
    }
  }
  h->magic = DEAD;
  memset(heap_map + ((a - ARENA) >> 3), 0xFD, (h->size + 7) >> 3);
  if (h->size <= (4U << 20)) { memset(p, 0xDD, h->size); }
  --n_live_blocks;
}

static inline bool sim_heap() { return g_running && cur && cur->quiet == 0; }
static bool alloc_fault() {
  return cur->watch && inject(sim::F_ALLOC, nullptr);
}

// ---- threads ----------------------------------------------------------------
static thread* new_thread() {
  int s = -1;
  for (int i = 0; i < n_slots; ++i) {
    if (g_threads[i]->state == FREE) { s = i; break; }
  }
  if (s < 0) {
    if (n_slots == MAXT) { return nullptr; }
    s = n_slots++;
    g_threads[s] = static_cast<thread*>(mmap(
        nullptr, sizeof(thread), PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    g_threads[s]->slot = s;
  }
  thread* t = g_threads[s];
  std::uint32_t const keep = t->clk.c[s];
  memset(&t->clk, 0, sizeof t->clk);
  memset(&t->acq_pending, 0, sizeof t->acq_pending);
  t->clk.c[s] = keep + 1;
  t->has_rel_fence = false;
  t->serial = static_cast<int>(n_created++);
  t->state = RUN;
  t->wait = W_NONE;
  t->deadline = NEVER;
  t->timed_out = t->detached = t->joined = false;
  t->quiet = 0;
  t->watch = false;
  t->go = 0;
  memcpy(t->name, cur ? cur->name : "main\0\0\0\0\0\0\0\0\0\0\0", sizeof t->name);
  t->dtors = nullptr;
  t->depth = 0;
  t->stalled_until = 0;
  t->prio = (1ULL << 62) + (g_cfg.replay ? 0 : (rS.next() >> 8));
  std::uint64_t const k = n_stacks++;
  t->stack_lo = STACKS + (k % NSTACKS) * STACK_SZ;
  t->stack_hi = t->stack_lo + STACK_SZ;
  if (k >= NSTACKS) {
    madvise(sh_arena + ((t->stack_lo - ARENA) >> 3),
            STACK_SZ / 8 * sizeof(cell), MADV_DONTNEED);
  }
  ++n_exist;
  return t;
}

static void run_dtors(thread* t) {
  while (t->dtors) {
    dtor_rec* d = t->dtors;
    t->dtors = d->next;
    d->fn(d->obj);
    __libc_free(d);
  }
}

static void* trampoline(void* p) {
  auto* t = static_cast<thread*>(p);
  stack_t ss{};
  ss.ss_sp = t->altstack;
  ss.ss_size = sizeof t->altstack;
  sigaltstack(&ss, nullptr);
  fut_wait(&t->go);
  cur = t;
  t->ret = t->fn(t->arg);
  run_dtors(t);
  sched_point(P_SYNC);
  ++t->quiet;
  sync_note(3, nullptr);
  h_all = mix(h_all, 77);
  t->state = DONE;
  tick(t);
  wake(W_JOIN, t, 1);
  if (t->detached) { --n_exist; }
  cur = t;
  leave(t, true);
  ss.ss_flags = SS_DISABLE;
  sigaltstack(&ss, nullptr);
  return t->ret;
}

static int start_thread(thread* t) {
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, reinterpret_cast<void*>(t->stack_lo), STACK_SZ);
  REAL(int, pthread_create, pthread_t*, pthread_attr_t const*, void* (*)(void*),
       void*);
  int const r = fp(&t->os, &a, trampoline, t);
  pthread_attr_destroy(&a);
  return r;
}

static thread* find_os(pthread_t p) {
  for (int i = 0; i < n_slots; ++i) {
    thread* t = g_threads[i];
    if (t->state != FREE && !t->joined && pthread_equal(t->os, p)) { return t; }
  }
  return nullptr;
}

}  // namespace rt

using namespace rt;

// =============================================================================
// instrumentation callbacks
// =============================================================================
#define PC __builtin_return_address(0)
#define ACC(n)                                                        \
  EXPORT void __tsan_read##n(void* p) {                               \
    mem_access(reinterpret_cast<std::uintptr_t>(p), n, false, PC);    \
  }                                                                   \
  EXPORT void __tsan_write##n(void* p) {                              \
    mem_access(reinterpret_cast<std::uintptr_t>(p), n, true, PC);     \
  }                                                                   \
  EXPORT void __tsan_volatile_read##n(void* p) {                      \
    mem_access(reinterpret_cast<std::uintptr_t>(p), n, false, PC);    \
  }                                                                   \
  EXPORT void __tsan_volatile_write##n(void* p) {                     \
    mem_access(reinterpret_cast<std::uintptr_t>(p), n, true, PC);     \
  }                                                                   \
  EXPORT void __tsan_unaligned_read##n(void* p) {                     \
    mem_access(reinterpret_cast<std::uintptr_t>(p), n, false, PC);    \
  }                                                                   \
  EXPORT void __tsan_unaligned_write##n(void* p) {                    \
    mem_access(reinterpret_cast<std::uintptr_t>(p), n, true, PC);     \
  }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)

EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void* pc) {
  thread* t = cur;
  if (t) {
    if (t->depth < 128) {
      t->calls[t->depth] = reinterpret_cast<std::uintptr_t>(pc);
    }
    ++t->depth;
  }
}
EXPORT void __tsan_func_exit() {
  thread* t = cur;
  if (t && t->depth) { --t->depth; }
}
// Storing the value that is there already conflicts with no reader.  An object
// on the thread's own stack counts as written either way: what its storage
// holds before the constructor runs is left over from calls the simulator does
// not see, and must not decide how many steps a run takes.
EXPORT void __tsan_vptr_update(void** p, void* v) {
  auto const a = reinterpret_cast<std::uintptr_t>(p);
  thread* t = cur;
  bool const own = t != nullptr && a >= t->stack_lo && a < t->stack_hi;
  mem_access(a, 8, own || *p != v, PC);
}
EXPORT void __tsan_vptr_read(void** p) {
  mem_access(reinterpret_cast<std::uintptr_t>(p), 8, false, PC);
}
EXPORT void __tsan_read_range(void* p, unsigned long n) {
  check_range(p, n, false, PC);
}
EXPORT void __tsan_write_range(void* p, unsigned long n) {
  check_range(p, n, true, PC);
}

#define ATOMICS(B, T)                                                         \
  EXPORT T __tsan_atomic##B##_load(T const volatile* p, int mo) {             \
    if (!active()) return __atomic_load_n(p, 5);                              \
    atomic_pre(const_cast<T const*>(p), sizeof(T), false, PC);                \
    T v = __atomic_load_n(p, 5);                                              \
    at_load(const_cast<T const*>(p), mo);                                     \
    return v;                                                                 \
  }                                                                           \
  EXPORT void __tsan_atomic##B##_store(T volatile* p, T v, int mo) {          \
    if (!active()) { __atomic_store_n(p, v, 5); return; }                     \
    atomic_pre(const_cast<T*>(p), sizeof(T), true, PC);                       \
    at_store(const_cast<T*>(p), mo, false);                                   \
    __atomic_store_n(p, v, 5);                                                \
  }                                                                           \
  EXPORT T __tsan_atomic##B##_exchange(T volatile* p, T v, int mo) {          \
    if (!active()) return __atomic_exchange_n(p, v, 5);                       \
    atomic_pre(const_cast<T*>(p), sizeof(T), true, PC);                       \
    at_load(const_cast<T*>(p), mo);                                           \
    at_store(const_cast<T*>(p), mo, true);                                    \
    return __atomic_exchange_n(p, v, 5);                                      \
  }                                                                           \
  RMW(B, T, add) RMW(B, T, sub) RMW(B, T, and) RMW(B, T, or)                  \
  RMW(B, T, xor) RMW(B, T, nand)                                              \
  EXPORT int __tsan_atomic##B##_compare_exchange_strong(                      \
      T volatile* p, T* e, T v, int mo, int fmo) {                            \
    return cas<T>(p, e, v, mo, fmo, false, PC);                               \
  }                                                                           \
  EXPORT int __tsan_atomic##B##_compare_exchange_weak(                        \
      T volatile* p, T* e, T v, int mo, int fmo) {                            \
    return cas<T>(p, e, v, mo, fmo, true, PC);                                \
  }                                                                           \
  EXPORT T __tsan_atomic##B##_compare_exchange_val(T volatile* p, T e, T v,   \
                                                   int mo, int fmo) {         \
    cas<T>(p, &e, v, mo, fmo, false, PC);                                     \
    return e;                                                                 \
  }

#define RMW(B, T, OP)                                                         \
  EXPORT T __tsan_atomic##B##_fetch_##OP(T volatile* p, T v, int mo) {        \
    if (!active()) return __atomic_fetch_##OP(p, v, 5);                       \
    atomic_pre(const_cast<T*>(p), sizeof(T), true, PC);                       \
    at_load(const_cast<T*>(p), mo);                                           \
    at_store(const_cast<T*>(p), mo, true);                                    \
    return __atomic_fetch_##OP(p, v, 5);                                      \
  }

template <typename T>
static int cas(T volatile* p, T* e, T v, int mo, int fmo, bool weak, void* pc) {
  if (!active()) {
    return __atomic_compare_exchange_n(p, e, v, false, 5, 5);
  }
  atomic_pre(const_cast<T*>(p), sizeof(T), true, pc);
  T const c = __atomic_load_n(p, 5);
  if (c != *e || (weak && inject(sim::F_CAS_WEAK, nullptr))) {
    at_load(const_cast<T*>(p), fmo);
    *e = c;
    return 0;
  }
  at_load(const_cast<T*>(p), mo);
  at_store(const_cast<T*>(p), mo, true);
  __atomic_store_n(p, v, 5);
  return 1;
}

ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)

EXPORT void __tsan_atomic_thread_fence(int mo) {
  if (active()) {
    sched_point(P_SYNC);
    at_fence(mo);
  }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// =============================================================================
// heap
// =============================================================================
EXPORT void* malloc(size_t n) {
  if (LIKELY(sim_heap())) {
    if (alloc_fault()) { errno = ENOMEM; return nullptr; }
    if (void* p = heap_alloc(n, 16, false)) { return p; }
    if (n > HEAP_SZ / 2) { errno = ENOMEM; return nullptr; }
  }
  return __libc_malloc(n);
}
EXPORT void free(void* p) {
  if (p == nullptr) { return; }
  if (in_arena(p)) {
    heap_free(p, PC);
  } else {
    __libc_free(p);
  }
}
EXPORT void* calloc(size_t a, size_t b) {
  if (LIKELY(sim_heap())) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n) || alloc_fault()) {
      errno = ENOMEM;
      return nullptr;
    }
    if (void* p = heap_alloc(n, 16, true)) { return p; }
    if (n > HEAP_SZ / 2) { errno = ENOMEM; return nullptr; }
  }
  return __libc_calloc(a, b);
}
EXPORT void* realloc(void* p, size_t n) {
  if (p == nullptr) { return malloc(n); }
  if (in_arena(p)) {
    hdr* h = header_of(p, "realloc");
    if (n == 0) {
      heap_free(p, PC);
      return nullptr;
    }
    if (sim_heap() && alloc_fault()) { errno = ENOMEM; return nullptr; }
    void* q = sim_heap() ? heap_alloc(n, 16, false) : __libc_malloc(n);
    if (q == nullptr) { errno = ENOMEM; return nullptr; }
    memcpy(q, p, h->size < n ? h->size : n);
    heap_free(p, PC);
    return q;
  }
  if (sim_heap() && alloc_fault()) { errno = ENOMEM; return nullptr; }
  return __libc_realloc(p, n);
}
static void* al(size_t align, size_t n) {
  if (LIKELY(sim_heap())) {
    if (alloc_fault()) { errno = ENOMEM; return nullptr; }
    if (void* p = heap_alloc(n, align, false)) { return p; }
    if (n > HEAP_SZ / 2) { errno = ENOMEM; return nullptr; }
  }
  return __libc_memalign(align, n);
}
EXPORT void* aligned_alloc(size_t a, size_t n) { return al(a, n); }
EXPORT void* memalign(size_t a, size_t n) { return al(a, n); }
EXPORT int posix_memalign(void** o, size_t a, size_t n) {
  void* p = al(a, n);
  if (p == nullptr) { return ENOMEM; }
  *o = p;
  return 0;
}
EXPORT size_t malloc_usable_size(void* p) {
  if (p && in_arena(p)) { return header_of(p, "malloc_usable_size")->size; }
  REAL(size_t, malloc_usable_size, void*);
  return fp(p);
}

// =============================================================================
// block operations of the C library: bounds and races, then the real thing
// =============================================================================
#undef memcpy
#undef memset
EXPORT void* memcpy(void* d, void const* s, size_t n) {
  if (UNLIKELY(active()) && n) {
    check_range(s, n, false, PC);
    check_range(d, n, true, PC);
  }
  return rt_copy(d, s, n);
}
EXPORT void* memmove(void* d, void const* s, size_t n) {
  if (UNLIKELY(active()) && n) {
    check_range(s, n, false, PC);
    check_range(d, n, true, PC);
  }
  if (static_cast<char*>(d) <= static_cast<char const*>(s) ||
      static_cast<char*>(d) >= static_cast<char const*>(s) + n) {
    return rt_copy(d, s, n);
  }
  auto* dd = static_cast<char*>(d) + n - 1;
  auto* ss = static_cast<char const*>(s) + n - 1;
  __asm__ volatile("std\n rep movsb\n cld"
                   : "+D"(dd), "+S"(ss), "+c"(n)
                   :
                   : "memory");
  return d;
}
EXPORT void* memset(void* d, int c, size_t n) {
  if (UNLIKELY(active()) && n) { check_range(d, n, true, PC); }
  return rt_set(d, c, n);
}
#define memcpy rt_copy
#define memset rt_set

// =============================================================================
// threads
// =============================================================================
EXPORT int pthread_create(pthread_t* out, pthread_attr_t const* attr,
                          void* (*fn)(void*), void* arg) {
  if (!active()) {
    REAL(int, pthread_create, pthread_t*, pthread_attr_t const*,
         void* (*)(void*), void*);
    return fp(out, attr, fn, arg);
  }
  sched_point(P_SYNC);
  if (inject(sim::F_THREAD_EAGAIN, nullptr)) {
    event("thread creation fails");
    return EAGAIN;
  }
  quiet_t q;
  thread* p = cur;
  thread* t = new_thread();
  if (t == nullptr) { violate("harness-limit", "too many threads"); }
  t->fn = fn;
  t->arg = arg;
  if (attr) {
    int d = 0;
    pthread_attr_getdetachstate(attr, &d);
    t->detached = d == PTHREAD_CREATE_DETACHED;
  }
  std::uint32_t const own = t->clk.c[t->slot];
  assign(t->clk, p->clk);
  t->clk.c[t->slot] = own;
  tick(p);
  if (start_thread(t) != 0) { violate("harness-limit", "cannot start thread"); }
  *out = t->os;
  sync_note(4, nullptr);
  event("start thread T%d", t->serial);
  return 0;
}

EXPORT int pthread_join(pthread_t os, void** ret) {
  REAL(int, pthread_join, pthread_t, void**);
  if (cur == nullptr || !g_running) { return fp(os, ret); }
  sched_point(P_SYNC);
  quiet_t q;
  thread* t = find_os(os);
  if (t == nullptr) {
    violate("bad-join", "join of a thread that does not exist");
  }
  if (t == cur) { return EDEADLK; }
  while (t->state != DONE) { block(W_JOIN, t, NEVER); }
  join(cur->clk, t->clk);
  sync_note(5, nullptr);
  event("joined T%d", t->serial);
  fp(os, ret);
  t->joined = true;
  --n_exist;
  t->state = FREE;
  return 0;
}

EXPORT int pthread_detach(pthread_t os) {
  if (cur == nullptr || !g_running) {
    REAL(int, pthread_detach, pthread_t);
    return fp(os);
  }
  thread* t = find_os(os);
  if (t && !t->detached) {
    t->detached = true;
    if (t->state == DONE) { --n_exist; }
  }
  return 0;
}

// ---- thread names -------------------------------------------------------------
static int set_name(thread* t, char const* name) {
  if (strlen(name) >= sizeof t->name) { return ERANGE; }
  if (t->state != RUN && t->state != BLOCKED) { return ENOENT; }
  strcpy(t->name, name);
  event("T%d is named '%s'", t->serial, name);
  hash_in(static_cast<std::uint64_t>(t->serial) + 77);
  return 0;
}

EXPORT int pthread_setname_np(pthread_t os, char const* name) {
  if (!active()) {
    REAL(int, pthread_setname_np, pthread_t, char const*);
    return fp(os, name);
  }
  check_range(name, strnlen(name, 4096) + 1, false, __builtin_return_address(0));
  sched_point(P_SYNC);
  thread* t = find_os(os);
  if (t == nullptr) {
    violate("bad-handle", "naming a thread that does not exist (any more)");
  }
  // the name of another thread is written to a file in /proc
  if (t != cur && inject(sim::F_OPEN, nullptr)) {
    event("naming T%d fails", t->serial);
    return EMFILE;
  }
  quiet_t q;
  return set_name(t, name);
}

EXPORT int pthread_getname_np(pthread_t os, char* out, std::size_t n) {
  if (!active()) {
    REAL(int, pthread_getname_np, pthread_t, char*, std::size_t);
    return fp(os, out, n);
  }
  sched_point(P_SYNC);
  thread* t = find_os(os);
  if (t == nullptr) {
    violate("bad-handle", "asking for the name of a thread that does not exist");
  }
  if (n < sizeof t->name) { return ERANGE; }
  check_range(out, strlen(t->name) + 1, true, __builtin_return_address(0));
  strcpy(out, t->name);
  return 0;
}

EXPORT int prctl(int op, ...) {
  unsigned long a[4];
  va_list ap;
  va_start(ap, op);
  for (auto& x : a) { x = va_arg(ap, unsigned long); }
  va_end(ap);
  if (!active() || (op != 15 && op != 16)) {  // PR_SET_NAME, PR_GET_NAME
    REAL(int, prctl, int, ...);
    return fp(op, a[0], a[1], a[2], a[3]);
  }
  sched_point(P_SYNC);
  auto* const s = reinterpret_cast<char*>(a[0]);
  if (op == 16) {
    check_range(s, sizeof cur->name, true, __builtin_return_address(0));
    memcpy(s, cur->name, sizeof cur->name);
    return 0;
  }
  check_range(s, strnlen(s, 16), false, __builtin_return_address(0));
  char name[16] = {};
  memcpy(name, s, strnlen(s, 15));
  quiet_t q;
  return set_name(cur, name);
}

EXPORT int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) {
  if (cur == nullptr) {
    REAL(int, __cxa_thread_atexit, void (*)(void*), void*, void*);
    return fp(fn, obj, dso);
  }
  auto* d = static_cast<dtor_rec*>(__libc_malloc(sizeof(dtor_rec)));
  *d = {fn, obj, cur->dtors};
  cur->dtors = d;
  return 0;
}

extern "C" __attribute__((visibility("default"))) unsigned
sim_hwc() __asm__("_ZNSt6thread20hardware_concurrencyEv");
extern "C" unsigned sim_hwc() { return n_proc; }
EXPORT long sysconf(int n) {
  if (g_running && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) {
    return n_proc == 0 ? -1 : static_cast<long>(n_proc);
  }
  REAL(long, sysconf, int);
  return fp(n);
}
EXPORT int get_nprocs() {
  if (g_running) { return static_cast<int>(n_proc); }
  REAL(int, get_nprocs, void);
  return fp();
}

// =============================================================================
// run control, API
// =============================================================================
namespace rt {

bool inject(sim::fault_kind k, std::uint64_t* v) {
  if (!g_running || cur == nullptr || cur->quiet != 0 ||
      !(fault_mask & (1ULL << k))) {
    return false;
  }
  ++fp_idx;
  std::uint64_t val = 0;
  bool hit = false;
  if (g_cfg.replay) {
    auto& in = g_sh->in;
    while (in_f < in.nf && in.f[in_f].idx < fp_idx) { ++in_f; }
    if (in_f < in.nf && in.f[in_f].idx == fp_idx && in.f[in_f].kind == k) {
      hit = true;
      val = in.f[in_f].val;
    }
  } else {
    fcfg& c = fconf[k];
    ++c.seen;
    if (c.mode == 1) {
      hit = rF.unit() < c.p;
    } else if (c.mode == 2) {
      hit = c.seen == c.at || (c.seen > c.at && rF.unit() < c.burst);
    }
    if (hit) { val = rF.next(); }
  }
  if (!hit) { return false; }
  if (g_cfg.record) {
    auto& o = g_sh->out;
    if (o.nf < MAXF) {
      o.f[o.nf++] = {fp_idx, val, static_cast<std::uint32_t>(k), 0};
    } else {
      o.overflow = 1;
    }
  }
  ++g_sh->res.faults[k];
  ++n_fired;
  hash_in(fp_idx * 64 + k);
  h_sync = mix(h_sync, 0xF00 + k);
  if (v) { *v = val; }
  return true;
}

static void on_signal(int s, siginfo_t* si, void*) {
  if (!g_running || g_sh->res.done) { raw(SYS_exit_group, 3); }
  char b[200];
  if (cur) { ++cur->quiet; }
  snprintf(b, sizeof b, "signal %d (%s) at address 0x%lx", s,
           s == SIGSEGV ? "SIGSEGV"
           : s == SIGBUS ? "SIGBUS"
           : s == SIGABRT ? "SIGABRT"
           : s == SIGFPE ? "SIGFPE"
           : s == SIGXCPU ? "SIGXCPU" : "?",
           s == SIGABRT ? 0UL : reinterpret_cast<unsigned long>(si->si_addr));
  static char m[600];
  snprintf(m, sizeof m, "%s", b);
  put_stack(m, sizeof m, cur);
  finish(s == SIGXCPU ? "hang" : s == SIGABRT ? "abort" : "crash", m);
}

[[noreturn]] static void on_terminate() {
  if (cur) { ++cur->quiet; }
  static char m[700];
  char const* what = "no active exception";
  if (auto e = std::current_exception()) {
    try {
      std::rethrow_exception(e);
    } catch (std::exception const& x) {
      what = x.what();
    } catch (...) {
      what = "exception of unknown type";
    }
  }
  snprintf(m, sizeof m, "std::terminate was called (%s)", what);
  put_stack(m, sizeof m, cur);
  finish("terminate", m);
}

void rt_init() {
  sh_exe = static_cast<cell*>(reserve(0, EXE_END / 8 * sizeof(cell)));
  sh_arena =
      static_cast<cell*>(reserve(0, (ARENA_END - ARENA) / 8 * sizeof(cell)));
  reserve(ARENA, ARENA_END - ARENA);
  heap_map = static_cast<std::uint8_t*>(reserve(0, HEAP_SZ / 8));
  sobj_tab =
      static_cast<std::uint32_t*>(reserve(0, sizeof(std::uint32_t) << SOBJ_BITS));
  sobj_pool = static_cast<sobj*>(reserve(0, sizeof(sobj) << SOBJ_BITS));
  void* const streams[] = {&std::cout, &std::cerr, &std::clog, &std::cin,
                           &std::wcout, &std::wcerr, &std::wclog};
  for (void* s : streams) {
    exempt_lo[n_exempt] = reinterpret_cast<std::uintptr_t>(s);
    exempt_hi[n_exempt++] = reinterpret_cast<std::uintptr_t>(s) + 320;
  }
  g_sh = static_cast<shared*>(mmap(nullptr, sizeof(shared),
                                   PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}

static sim::scenario const* g_scn;
static bool allow_leftover;

static void* main_thread(void*) {
  g_scn->run();
  ++cur->quiet;
  if (!allow_leftover) {
    unsigned const n = sim::live_threads();
    if (n != 0) {
      violate("leftover-threads",
              "%u thread(s) still exist at the end of the run", n);
    }
  }
  finish("", "");
  return nullptr;
}

static void setup_strategy(std::uint64_t seed) {
  rng m;
  m.seed(seed);
  rW.seed(m.next());
  rS.seed(m.next());
  rF.seed(m.next());
  rC.seed(m.next());
  next_key = NEVER;
  gap[0] = gap[1] = INT64_MAX;
  strat.p_stall = 0;
  strat.n_cp = strat.cp = 0;
  strat.site = 0;
  low_prio = 1ULL << 60;
  if (g_cfg.replay) {
    strat.kind = 3;
    set_next_key();
    return;
  }
  std::uint64_t const k = rC.below(100);
  strat.p_sync = strat.p_mem = 0;
  if (k < 36) {  // random walk
    strat.kind = 0;
    strat.p_sync = 1.0 / static_cast<double>(1ULL << (1 + rC.below(6)));
    strat.p_mem = rC.below(2)
                      ? strat.p_sync / static_cast<double>(1 + rC.below(8))
                      : 0.0005;
  } else if (k < 66) {  // PCT
    strat.kind = 1;
    strat.p_sync = 1;
    strat.n_cp = static_cast<unsigned>(1 + rC.below(6));
    double const len = 4 + 14 * rC.unit();  // log2 of the expected length
    for (unsigned i = 0; i < strat.n_cp; ++i) {
      strat.cps[i] = 1 + rC.below(static_cast<std::uint64_t>(
                             __builtin_exp2(len)));
    }
    for (unsigned i = 1; i < strat.n_cp; ++i) {
      for (unsigned j = i; j > 0 && strat.cps[j] < strat.cps[j - 1]; --j) {
        auto x = strat.cps[j];
        strat.cps[j] = strat.cps[j - 1];
        strat.cps[j - 1] = x;
      }
    }
    set_next_key();
  } else if (k < 78) {  // synchronisation points only
    strat.kind = 2;
    strat.p_sync = 0.5;
  } else if (k < 84) {  // run to block
    strat.kind = 3;
  } else if (k < 92) {  // preempt always at some synchronisation sites
    strat.kind = 4;
    strat.site = static_cast<unsigned>(1 + rC.below(6));
    strat.p_sync = 0.02;
    strat.p_mem = 0.0005;
  } else {  // very fine
    strat.kind = 5;
    strat.p_sync = 0.4;
    strat.p_mem = 0.1 + 0.3 * rC.unit();
  }
  if (rC.below(4) == 0) { strat.p_stall = rC.below(2) ? 0.05 : 0.005; }
  if (strat.kind != 1) {
    gap[P_SYNC] = draw_gap(strat.p_sync);
    gap[P_MEM] = draw_gap(strat.p_mem);
  } else {
    gap[P_SYNC] = 1;
  }
  bool const none = rC.below(100) < 40;
  for (auto& f : fconf) {
    std::uint64_t const m2 = rC.below(10);
    f.mode = none || m2 < 3 ? 0 : m2 < 6 ? 1 : 2;
    f.p = 1.0 / static_cast<double>(2ULL << rC.below(9));
    f.at = 1 + rC.below(1ULL << rC.below(11));
    f.seen = 0;
    f.burst = rC.below(3) == 0 ? 0.3 : 0;
  }
}

void run_child(sim::scenario const* s) {
  g_scn = s;
  auto& r = g_sh->res;
  memset(&r, 0, sizeof r);
  g_sh->out.nw = g_sh->out.ns = g_sh->out.nf = 0;
  g_sh->out.overflow = 0;
  step_limit = 20000000;
  next_deadline = NEVER;
  vtime = 1000000000ULL;
  h_all = h_sync = 0x1234567;
  setup_strategy(g_cfg.seed);
  wall_off = 0;
  {
    struct sigaction sa {};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int sg : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGXCPU}) {
      sigaction(sg, &sa, nullptr);
    }
    std::set_terminate(on_terminate);
  }
  io_reset();
  thread* t = new_thread();
  t->fn = main_thread;
  t->arg = nullptr;
  if (start_thread(t) != 0) { raw(SYS_exit_group, 4); }
  g_running = true;
  __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
  raw(SYS_futex, reinterpret_cast<long>(&t->go), FUTEX_WAKE_PRIVATE, 1);
  for (;;) { raw(SYS_pause); }
}

void jump(std::uint64_t ns) {
  vtime += ns;
  if (vtime >= next_deadline) { fire_timers(); }
}

}  // namespace rt

namespace sim {

std::uint64_t pick(std::uint64_t n) {
  std::uint64_t v = 0;
  if (g_cfg.replay) {
    auto& in = g_sh->in;
    v = in_w < in.nw ? in.w[in_w] : 0;
    ++in_w;
    if (n == 0) { v = 0; } else if (v >= n) { v %= n; }
  } else {
    v = rW.below(n);
  }
  if (g_cfg.record) {
    auto& o = g_sh->out;
    if (o.nw < MAXW) { o.w[o.nw++] = v; } else { o.overflow = 1; }
  }
  hash_in(v);
  h_sync = mix(h_sync, v);
  return v;
}

std::uint64_t pick_size(std::uint64_t max) {
  std::uint64_t v = 0;
  if (g_cfg.replay) {
    return pick(max + 1);
  }
  std::uint64_t const c = rW.below(100);
  std::uint64_t lim = c < 35 ? 5 : c < 65 ? 40 : c < 85 ? 500 : max;
  if (lim > max) { lim = max; }
  v = rW.below(lim + 1);
  if (c >= 95) { v = max - rW.below(max < 16 ? max + 1 : 16); }
  if (g_cfg.record) {
    auto& o = g_sh->out;
    if (o.nw < MAXW) { o.w[o.nw++] = v; } else { o.overflow = 1; }
  }
  hash_in(v);
  h_sync = mix(h_sync, v);
  return v;
}

bool fault(fault_kind k, std::uint64_t* v) { return rt::inject(k, v); }
void enable_faults(std::uint64_t m) { fault_mask = m | SCHED_FAULTS; }
std::uint64_t enabled_faults() { return fault_mask & ~SCHED_FAULTS; }
std::uint64_t faults_fired(fault_kind k) { return g_sh->res.faults[k]; }

void note_fault(fault_kind k) {
  ++g_sh->res.faults[k];
  ++n_fired;
  h_sync = mix(h_sync, 0xE00 + k);
}

void set_processors(unsigned n) { n_proc = n; }
void set_step_limit(std::uint64_t n) { step_limit = n; }
void advance_time(std::uint64_t ns) { rt::jump(ns); }
std::uint64_t mono_ns() { return vtime; }
std::int64_t wall_ns() {
  return static_cast<std::int64_t>(vtime) + wall_off + 1700000000000000000LL;
}
void set_wall_ns(std::int64_t w) {
  wall_off = w - 1700000000000000000LL - static_cast<std::int64_t>(vtime);
  g_sh->res.wall_jump += 1;
}
void sync_points_only(bool on) { sync_only = on; }

int self() { return cur ? cur->serial : -1; }
unsigned live_threads() {
  unsigned n = 0;
  for (int i = 0; i < n_slots; ++i) {
    thread* t = g_threads[i];
    if (t != cur && (t->state == RUN || t->state == BLOCKED)) { ++n; }
  }
  return n;
}
std::string thread_name(int id) {
  for (int i = 0; i < n_slots; ++i) {
    thread* t = g_threads[i];
    if (t->serial == id && t->state != FREE) { return t->name; }
  }
  return {};
}
bool thread_ended(int id) {
  for (int i = 0; i < n_slots; ++i) {
    thread* t = g_threads[i];
    if (t->serial == id && (t->state == RUN || t->state == BLOCKED)) {
      return false;
    }
  }
  return true;
}
unsigned threads_created() { return n_created; }
void point() { sched_point(P_SYNC); }
std::uint64_t seq() { return g_seq; }

std::uint64_t live_blocks() { return n_live_blocks; }
void watch_allocs(bool on) { cur->watch = on; }

void event(char const* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vevent(fmt, ap);
  va_end(ap);
}
void sample(char const* fmt, ...) {
  quiet_t q;
  va_list ap;
  va_start(ap, fmt);
  if (sample_len < sizeof sample_buf - 1) {
    int n = vsnprintf(sample_buf + sample_len, sizeof sample_buf - sample_len,
                      fmt, ap);
    if (n > 0) { sample_len += static_cast<unsigned>(n); }
    if (sample_len > sizeof sample_buf - 1) {
      sample_len = sizeof sample_buf - 1;
    }
  }
  va_end(ap);
}
void probe(char const* name) {
  quiet_t q;
  for (unsigned i = 0; i < nprobes; ++i) {
    if (strcmp(probes[i].name, name) == 0) {
      ++probes[i].n;
      return;
    }
  }
  if (nprobes < MAXPROBE) {
    snprintf(probes[nprobes].name, sizeof probes[0].name, "%s", name);
    probes[nprobes++].n = 1;
  }
}
void violation(char const* cls, char const* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vviolation(cls, fmt, ap);
}
void quiet_begin() { if (cur) { ++cur->quiet; } }
void quiet_end() { if (cur) { --cur->quiet; } }

}  // namespace sim
