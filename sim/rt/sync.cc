// Synchronisation primitives of the platform, on top of the simulated
// scheduler. Outside a simulated thread every call goes to the C library.

#include "rt_int.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

using namespace rt;

#define PC __builtin_return_address(0)
#define PASS(ret, name, types, args)                           \
  if (UNLIKELY(cur == nullptr || !g_running)) {                \
    static ret(*fp) types;                                     \
    if (!fp) fp = reinterpret_cast<ret(*) types>(real_sym(#name)); \
    return fp args;                                            \
  }

namespace {

constexpr int K_RECURSIVE = 1, K_ERRORCHECK = 2;

// synchronisation objects must lie in live memory
void bounds(void const* p, std::size_t n) {
  if (active()) { check_bounds(p, n); }
}

int mutex_lock(pthread_mutex_t* m, std::uint64_t deadline, bool try_only) {
  auto& d = m->__data;
  int const me = cur->serial + 1;
  bounds(m, sizeof *m);
  if (d.__lock != 0 && d.__owner == me) {
    if ((d.__kind & 3) == K_RECURSIVE) {
      ++d.__count;
      return 0;
    }
    if (try_only) { return EBUSY; }
    if ((d.__kind & 3) == K_ERRORCHECK) { return EDEADLK; }
    violate("self-deadlock", "a thread locks a mutex that it already holds");
  }
  while (d.__lock != 0) {
    if (try_only) { return EBUSY; }
    if (!block(W_MUTEX, m, deadline) && d.__lock != 0) { return ETIMEDOUT; }
  }
  d.__lock = 1;
  d.__owner = me;
  d.__count = 1;
  acquire_obj(m);
  sync_note(10, m);
  return 0;
}

void mutex_unlock_raw(pthread_mutex_t* m) {
  auto& d = m->__data;
  d.__lock = 0;
  d.__owner = 0;
  d.__count = 0;
  release_obj(m);
  sync_note(11, m);
  wake(W_MUTEX, m, ~0U);
}

int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, std::uint64_t deadline) {
  bounds(c, sizeof *c);
  if (m->__data.__lock == 0 || m->__data.__owner != cur->serial + 1) {
    violate("bad-wait", "condition variable wait without holding the mutex");
  }
  bool const spurious = inject(sim::F_SPURIOUS_WAKE, nullptr);
  mutex_unlock_raw(m);
  sync_note(12, c);
  bool woken = true;
  if (spurious) {
    yield_point();
  } else {
    woken = block(W_COND, c, deadline);
  }
  // the mutex is taken again whatever happened
  mutex_lock(m, NEVER, false);
  return woken ? 0 : ETIMEDOUT;
}

std::uint64_t abs_deadline(timespec const* ts, int clock) {
  return mono_to_abs(ts->tv_sec, ts->tv_nsec, clock);
}

}  // namespace

EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
  PASS(int, pthread_mutex_lock, (pthread_mutex_t*), (m));
  sched_point(P_SYNC);
  return mutex_lock(m, NEVER, false);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
  PASS(int, pthread_mutex_trylock, (pthread_mutex_t*), (m));
  sched_point(P_SYNC);
  return mutex_lock(m, NEVER, true);
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, timespec const* ts) {
  PASS(int, pthread_mutex_timedlock, (pthread_mutex_t*, timespec const*),
       (m, ts));
  sched_point(P_SYNC);
  return mutex_lock(m, abs_deadline(ts, CLOCK_REALTIME), false);
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c,
                                   timespec const* ts) {
  PASS(int, pthread_mutex_clocklock,
       (pthread_mutex_t*, clockid_t, timespec const*), (m, c, ts));
  sched_point(P_SYNC);
  return mutex_lock(m, abs_deadline(ts, c), false);
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
  PASS(int, pthread_mutex_unlock, (pthread_mutex_t*), (m));
  bounds(m, sizeof *m);
  auto& d = m->__data;
  if (d.__lock == 0 || d.__owner != cur->serial + 1) {
    violate("bad-unlock", "unlock of a mutex that the thread does not hold");
  }
  if ((d.__kind & 3) == K_RECURSIVE && d.__count > 1) {
    --d.__count;
    return 0;
  }
  mutex_unlock_raw(m);
  sched_point(P_SYNC);
  return 0;
}

EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  PASS(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*), (c, m));
  sched_point(P_SYNC);
  return cond_wait(c, m, NEVER);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                                  timespec const* ts) {
  PASS(int, pthread_cond_timedwait,
       (pthread_cond_t*, pthread_mutex_t*, timespec const*), (c, m, ts));
  sched_point(P_SYNC);
  return cond_wait(c, m, abs_deadline(ts, CLOCK_REALTIME));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m,
                                  clockid_t k, timespec const* ts) {
  PASS(int, pthread_cond_clockwait,
       (pthread_cond_t*, pthread_mutex_t*, clockid_t, timespec const*),
       (c, m, k, ts));
  sched_point(P_SYNC);
  return cond_wait(c, m, abs_deadline(ts, k));
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
  PASS(int, pthread_cond_signal, (pthread_cond_t*), (c));
  sched_point(P_SYNC);
  bounds(c, sizeof *c);
  sync_note(13, c);
  wake(W_COND, c, 1);
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
  PASS(int, pthread_cond_broadcast, (pthread_cond_t*), (c));
  sched_point(P_SYNC);
  bounds(c, sizeof *c);
  sync_note(14, c);
  wake(W_COND, c, ~0U);
  return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c) {
  PASS(int, pthread_cond_destroy, (pthread_cond_t*), (c));
  sched_point(P_SYNC);
  if (waiters(W_COND, c) != 0) {
    violate("destroyed-in-use",
            "a condition variable is destroyed while a thread waits for it");
  }
  return 0;
}

// ---- reader/writer locks ----------------------------------------------------
namespace {
int rw_lock(pthread_rwlock_t* l, bool write, bool try_only,
            std::uint64_t deadline) {
  auto& d = l->__data;
  bounds(l, sizeof *l);
  while (d.__cur_writer != 0 || (write && d.__readers != 0)) {
    if (try_only) { return EBUSY; }
    if (d.__cur_writer == cur->serial + 1) {
      violate("self-deadlock", "a thread locks a rwlock that it already holds");
    }
    if (!block(W_RW, l, deadline) &&
        (d.__cur_writer != 0 || (write && d.__readers != 0))) {
      return ETIMEDOUT;
    }
  }
  if (write) { d.__cur_writer = cur->serial + 1; } else { ++d.__readers; }
  acquire_obj(l);
  sync_note(write ? 15 : 16, l);
  return 0;
}
}  // namespace
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  PASS(int, pthread_rwlock_rdlock, (pthread_rwlock_t*), (l));
  sched_point(P_SYNC);
  return rw_lock(l, false, false, NEVER);
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  PASS(int, pthread_rwlock_wrlock, (pthread_rwlock_t*), (l));
  sched_point(P_SYNC);
  return rw_lock(l, true, false, NEVER);
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  PASS(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t*), (l));
  sched_point(P_SYNC);
  return rw_lock(l, false, true, NEVER);
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  PASS(int, pthread_rwlock_trywrlock, (pthread_rwlock_t*), (l));
  sched_point(P_SYNC);
  return rw_lock(l, true, true, NEVER);
}
EXPORT int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, timespec const* t) {
  PASS(int, pthread_rwlock_timedrdlock, (pthread_rwlock_t*, timespec const*),
       (l, t));
  sched_point(P_SYNC);
  return rw_lock(l, false, false, abs_deadline(t, CLOCK_REALTIME));
}
EXPORT int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, timespec const* t) {
  PASS(int, pthread_rwlock_timedwrlock, (pthread_rwlock_t*, timespec const*),
       (l, t));
  sched_point(P_SYNC);
  return rw_lock(l, true, false, abs_deadline(t, CLOCK_REALTIME));
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  PASS(int, pthread_rwlock_unlock, (pthread_rwlock_t*), (l));
  auto& d = l->__data;
  if (d.__cur_writer == cur->serial + 1) {
    d.__cur_writer = 0;
  } else if (d.__readers > 0) {
    --d.__readers;
  } else {
    violate("bad-unlock", "unlock of a rwlock that the thread does not hold");
  }
  release_obj(l);
  sync_note(17, l);
  wake(W_RW, l, ~0U);
  sched_point(P_SYNC);
  return 0;
}

// ---- semaphores -------------------------------------------------------------
namespace {
struct sim_sem { int value; int tag; };
int sem_take(sem_t* s, bool try_only, std::uint64_t deadline) {
  auto* x = reinterpret_cast<sim_sem*>(s);
  while (x->value == 0) {
    if (try_only) { errno = EAGAIN; return -1; }
    if (!block(W_SEM, s, deadline) && x->value == 0) {
      errno = ETIMEDOUT;
      return -1;
    }
  }
  --x->value;
  acquire_obj(s);
  sync_note(18, s);
  return 0;
}
}  // namespace
EXPORT int sem_init(sem_t* s, int sh, unsigned v) {
  PASS(int, sem_init, (sem_t*, int, unsigned), (s, sh, v));
  reinterpret_cast<sim_sem*>(s)->value = static_cast<int>(v);
  return 0;
}
EXPORT int sem_destroy(sem_t* s) {
  PASS(int, sem_destroy, (sem_t*), (s));
  return 0;
}
EXPORT int sem_wait(sem_t* s) {
  PASS(int, sem_wait, (sem_t*), (s));
  sched_point(P_SYNC);
  return sem_take(s, false, NEVER);
}
EXPORT int sem_trywait(sem_t* s) {
  PASS(int, sem_trywait, (sem_t*), (s));
  sched_point(P_SYNC);
  return sem_take(s, true, NEVER);
}
EXPORT int sem_timedwait(sem_t* s, timespec const* t) {
  PASS(int, sem_timedwait, (sem_t*, timespec const*), (s, t));
  sched_point(P_SYNC);
  return sem_take(s, false, abs_deadline(t, CLOCK_REALTIME));
}
EXPORT int sem_clockwait(sem_t* s, clockid_t c, timespec const* t) {
  PASS(int, sem_clockwait, (sem_t*, clockid_t, timespec const*), (s, c, t));
  sched_point(P_SYNC);
  return sem_take(s, false, abs_deadline(t, c));
}
EXPORT int sem_post(sem_t* s) {
  PASS(int, sem_post, (sem_t*), (s));
  sched_point(P_SYNC);
  ++reinterpret_cast<sim_sem*>(s)->value;
  release_obj(s);
  sync_note(19, s);
  wake(W_SEM, s, 1);
  return 0;
}

// ---- one-time initialisation ------------------------------------------------
namespace {
struct once_guard {
  int* c;
  bool ok{false};
  ~once_guard() {
    __atomic_store_n(c, ok ? 2 : 0, __ATOMIC_SEQ_CST);
    if (cur && g_running) {
      release_obj(c);
      wake(W_GUARD, c, ~0U);
    }
  }
};
}  // namespace
EXPORT int pthread_once(pthread_once_t* o, void (*fn)()) {
  int* c = reinterpret_cast<int*>(o);
  bool const sim = cur && g_running;
  if (sim) { sched_point(P_SYNC); }
  for (;;) {
    if (*c == 2) {
      if (sim) { acquire_obj(c); }
      return 0;
    }
    if (*c == 0 || !sim) { break; }
    block(W_GUARD, c, NEVER);
  }
  *c = 1;
  once_guard g{c};
  fn();
  g.ok = true;
  return 0;
}

// the compiler's guards of function-local statics; byte 0 = done, byte 1 = busy
EXPORT int __cxa_guard_acquire(std::uint64_t* g) {
  auto* b = reinterpret_cast<unsigned char*>(g);
  bool const sim = cur && g_running;
  if (sim) { sched_point(P_SYNC); }
  for (;;) {
    if (b[0]) {
      if (sim) { acquire_obj(g); }
      return 0;
    }
    if (!b[1]) { break; }
    if (!sim) { __builtin_trap(); }
    block(W_GUARD, g, NEVER);
  }
  b[1] = 1;
  return 1;
}
EXPORT void __cxa_guard_release(std::uint64_t* g) {
  auto* b = reinterpret_cast<unsigned char*>(g);
  if (cur && g_running) { release_obj(g); }
  b[0] = 1;
  b[1] = 0;
  if (cur && g_running) {
    wake(W_GUARD, g, ~0U);
    sched_point(P_SYNC);
  }
}
EXPORT void __cxa_guard_abort(std::uint64_t* g) {
  auto* b = reinterpret_cast<unsigned char*>(g);
  b[1] = 0;
  if (cur && g_running) { wake(W_GUARD, g, ~0U); }
}

// ---- futex system calls (std::atomic::wait, latch, semaphore) ---------------
static long sys6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) {
    errno = static_cast<int>(-r);
    return -1;
  }
  return r;
}
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long v[6];
  for (auto& x : v) { x = va_arg(ap, long); }
  va_end(ap);
  if (n == SYS_futex && cur && g_running) {
    auto* w = reinterpret_cast<int*>(v[0]);
    int const op = static_cast<int>(v[1]) & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sched_point(P_SYNC);
      if (__atomic_load_n(w, __ATOMIC_SEQ_CST) != static_cast<int>(v[2])) {
        errno = EAGAIN;
        return -1;
      }
      std::uint64_t dl = NEVER;
      if (auto* ts = reinterpret_cast<timespec const*>(v[3])) {
        if (op == FUTEX_WAIT) {
          dl = vnow() + static_cast<std::uint64_t>(ts->tv_sec) * 1000000000ULL +
               static_cast<std::uint64_t>(ts->tv_nsec);
        } else {
          dl = abs_deadline(ts, (v[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME
                                                              : CLOCK_MONOTONIC);
        }
      }
      sync_note(20, w);
      if (inject(sim::F_SPURIOUS_WAKE, nullptr)) {
        yield_point();
        return 0;
      }
      if (!block(W_FUTEX, w, dl)) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      sched_point(P_SYNC);
      sync_note(21, w);
      return static_cast<long>(
          wake(W_FUTEX, w, static_cast<unsigned>(static_cast<int>(v[2]))));
    }
  }
  return sys6(n, v[0], v[1], v[2], v[3], v[4], v[5]);
}

EXPORT int sched_yield() {
  PASS(int, sched_yield, (), ());
  yield_point();
  return 0;
}
