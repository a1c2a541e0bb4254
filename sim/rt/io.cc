// Files, clocks and output streams of the simulated environment.
//
// Files live in a scratch directory of the run and are real; every operation
// on them passes through here, where faults are injected and handles counted.

#include "rt_int.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <string>

using namespace rt;

#define PC __builtin_return_address(0)
#define REALFN(ret, name, types)                                     \
  static ret(*fp) types;                                             \
  if (UNLIKELY(!fp)) {                                               \
    fp = reinterpret_cast<ret(*) types>(real_sym(#name));            \
  }

namespace {

constexpr int MAXFD = 1024;
bool tracked[MAXFD];
FILE* stream_of[MAXFD];
unsigned n_open;
struct mapping { void* p; std::size_t n; };
mapping maps[256];
unsigned n_maps;
std::uint64_t disk_left = NEVER;
std::uint64_t n_io;
void (*hook)(char const*, int);

bool mine(int fd) {
  return cur && g_running && fd >= 0 && fd < MAXFD && tracked[fd];
}
bool in_sim() { return cur != nullptr && g_running && cur->quiet == 0; }

void note(char const* op, int fd) {
  ++n_io;
  hash_in(n_io);
  if (hook) { hook(op, fd); }
}

template <typename F>
auto raw_call(F f) {
  quiet_t q;
  return f();
}

void track(int fd) {
  if (fd >= 0 && fd < MAXFD) {
    tracked[fd] = true;
    ++n_open;
  }
}

ssize_t do_read(int fd, void* p, std::size_t n, off_t at, bool positioned) {
  REALFN(ssize_t, read, (int, void*, size_t));
  static ssize_t (*pr)(int, void*, size_t, off_t);
  if (!pr) {
    pr = reinterpret_cast<ssize_t (*)(int, void*, size_t, off_t)>(
        real_sym("pread"));
  }
  auto go = [&](std::size_t k) {
    return raw_call([&] { return positioned ? pr(fd, p, k, at) : fp(fd, p, k); });
  };
  if (!mine(fd)) { return go(n); }
  note("read", fd);
  check_range(p, n, true, PC);
  std::uint64_t v = 0;
  if (inject(sim::F_READ_EIO, nullptr)) {
    event("read fails with EIO");
    errno = EIO;
    return -1;
  }
  if (inject(sim::F_READ_EINTR, nullptr)) {
    event("read is interrupted");
    errno = EINTR;
    return -1;
  }
  if (n > 1 && inject(sim::F_READ_SHORT, &v)) {
    n = 1 + v % (n - 1);
    event("read returns at most %zu bytes", n);
  }
  ssize_t const r = go(n);
  if (r < 0) {  // the real device must not add faults of its own
    violate("harness-limit", "scratch file read failed: %s", strerror(errno));
  }
  return r;
}

// Huge amounts of zeros are not written, but left out (a hole in the file): of
// a write of more than 1 MiB, the first and last 4 KiB are what is written.
bool sparse = false;
ssize_t sparse_write(int fd, void const* p, std::size_t n) {
  REALFN(ssize_t, write, (int, void const*, size_t));
  constexpr std::size_t K = 4096;
  auto const* c = static_cast<char const*>(p);
  bool const many = n > (1U << 20);
  if (!many) {
    std::size_t i = 0;
    while (i < n && c[i] == 0) { ++i; }
    if (i < n) { return fp(fd, p, n); }
  }
  off_t const at = lseek(fd, 0, SEEK_CUR);
  if (at < 0) { return -1; }
  if (many) {
    if (fp(fd, c, K) != static_cast<ssize_t>(K)) { return -1; }
    if (lseek(fd, at + static_cast<off_t>(n - K), SEEK_SET) < 0) { return -1; }
    if (fp(fd, c + n - K, K) != static_cast<ssize_t>(K)) { return -1; }
  } else {
    struct stat st;
    if (fstat(fd, &st) != 0) { return -1; }
    auto const end = at + static_cast<off_t>(n);
    if (st.st_size < end && ftruncate(fd, end) != 0) { return -1; }
    if (lseek(fd, end, SEEK_SET) < 0) { return -1; }
  }
  return static_cast<ssize_t>(n);
}

ssize_t do_write(int fd, void const* p, std::size_t n) {
  REALFN(ssize_t, write, (int, void const*, size_t));
  if (!mine(fd)) { return fp(fd, p, n); }
  note("write", fd);
  check_range(p, n, false, PC);
  std::uint64_t v = 0;
  if (inject(sim::F_WRITE_EIO, nullptr)) {
    event("write fails with EIO");
    errno = EIO;
    return -1;
  }
  if (inject(sim::F_WRITE_EINTR, nullptr)) {
    event("write is interrupted");
    errno = EINTR;
    return -1;
  }
  if (inject(sim::F_ENOSPC, &v)) {
    disk_left = n == 0 ? 0 : v % (n + 1);
    event("disk full after %lu more bytes",
          static_cast<unsigned long>(disk_left));
  }
  if (n > 1 && inject(sim::F_WRITE_SHORT, &v)) {
    n = 1 + v % (n - 1);
    event("write takes only %zu bytes", n);
  }
  if (disk_left != NEVER && n > 0) {
    if (disk_left == 0) {
      errno = ENOSPC;
      return -1;
    }
    if (n > disk_left) { n = disk_left; }
  }
  if (n > 0x7ffff000U) { n = 0x7ffff000U; }  // what Linux takes at once
  ssize_t const r = raw_call([&] { return sparse ? sparse_write(fd, p, n) : fp(fd, p, n); });
  if (r < 0) {
    if (errno == EBADF || errno == EINVAL) { return r; }
    violate("harness-limit", "scratch file write failed: %s", strerror(errno));
  }
  if (disk_left != NEVER) { disk_left -= static_cast<std::uint64_t>(r); }
  return r;
}

int do_open(char const* path, int flags, mode_t mode, int dir) {
  REALFN(int, openat, (int, char const*, int, ...));
  if (!in_sim()) { return fp(dir, path, flags, mode); }
  note("open", -1);
  std::uint64_t v = 0;
  if (inject(sim::F_OPEN, &v)) {
    static int const errs[] = {EMFILE, EACCES, ENOENT, EIO};
    errno = errs[v % 4];
    event("open fails: errno %d", errno);
    return -1;
  }
  if ((flags & O_ACCMODE) != O_RDONLY) {  // the simulated user is not root
    struct stat64 st;
    if (raw_call([&] { return fstatat64(dir, path, &st, 0); }) == 0 &&
        (st.st_mode & S_IWUSR) == 0) {
      event("open for writing fails: the file is read-only");
      errno = EACCES;
      return -1;
    }
  }
  int const fd = raw_call([&] { return fp(dir, path, flags, mode); });
  if (fd >= 0) { track(fd); }
  event("open -> %s", fd >= 0 ? "ok" : "error");
  return fd;
}

int do_close(int fd) {
  REALFN(int, close, (int));
  if (!(cur && g_running)) { return fp(fd); }
  if (fd >= 0 && fd < MAXFD && !tracked[fd]) {
    if (in_sim() && fd > 2) {
      violate("double-close", "close of a file handle that is not open");
    }
    return fp(fd);
  }
  if (fd < 0) {
    errno = EBADF;
    return -1;
  }
  note("close", fd);
  tracked[fd] = false;
  --n_open;
  raw_call([&] { return fp(fd); });
  event("close");
  if (inject(sim::F_CLOSE, nullptr)) {
    event("close reports EIO");
    errno = EIO;
    return -1;
  }
  return 0;
}

off64_t do_seek(int fd, off64_t o, int wh) {
  REALFN(off64_t, lseek64, (int, off64_t, int));
  if (!mine(fd)) { return fp(fd, o, wh); }
  note("seek", fd);
  if (inject(sim::F_SEEK, nullptr)) {
    event("seek fails with EIO");
    errno = EIO;
    return -1;
  }
  return raw_call([&] { return fp(fd, o, wh); });
}

// ---- FILE* on top of the simulated descriptors ------------------------------
ssize_t ck_read(void* c, char* b, size_t n) {
  return do_read(static_cast<int>(reinterpret_cast<long>(c)), b, n, 0, false);
}
ssize_t ck_write(void* c, char const* b, size_t n) {
  size_t done = 0;
  while (done < n) {  // as the C library does for ordinary files
    ssize_t const r = do_write(static_cast<int>(reinterpret_cast<long>(c)),
                               b + done, n - done);
    if (r < 0) { break; }
    done += static_cast<size_t>(r);
  }
  return static_cast<ssize_t>(done);
}
int ck_seek(void* c, off64_t* o, int wh) {
  off64_t const r = do_seek(static_cast<int>(reinterpret_cast<long>(c)), *o, wh);
  if (r < 0) { return -1; }
  *o = r;
  return 0;
}
int ck_close(void* c) {
  int const fd = static_cast<int>(reinterpret_cast<long>(c));
  if (fd >= 0 && fd < MAXFD) { stream_of[fd] = nullptr; }
  return do_close(fd);
}

FILE* attach(int fd, char const* mode) {
  cookie_io_functions_t f{ck_read, ck_write, ck_seek, ck_close};
  FILE* r;
  {
    quiet_t q;
    r = fopencookie(reinterpret_cast<void*>(static_cast<long>(fd)), mode, f);
  }
  if (r && fd < MAXFD) { stream_of[fd] = r; }
  return r;
}

FILE* do_fopen(char const* path, char const* mode, char const* name) {
  if (!in_sim()) {
    static FILE* (*fp)(char const*, char const*);
    if (!fp) {
      fp = reinterpret_cast<FILE* (*)(char const*, char const*)>(
          real_sym(name));
    }
    return fp(path, mode);
  }
  int fl = 0;
  bool const plus = strchr(mode, '+') != nullptr;
  switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return nullptr;
  }
  if (strchr(mode, 'x')) { fl |= O_EXCL; }
  int const fd = do_open(path, fl, 0666, AT_FDCWD);
  if (fd < 0) { return nullptr; }
  return attach(fd, mode);
}

int fd_of(FILE* f) {
  for (int i = 0; i < MAXFD; ++i) {
    if (tracked[i] && stream_of[i] == f) { return i; }
  }
  return -1;
}

bool stat_fault(char const* what) {
  if (!in_sim()) { return false; }
  note(what, -1);
  if (inject(sim::F_STAT, nullptr)) {
    event("%s fails with EIO", what);
    errno = EIO;
    return true;
  }
  return false;
}

}  // namespace

EXPORT ssize_t read(int fd, void* p, size_t n) {
  return do_read(fd, p, n, 0, false);
}
EXPORT ssize_t pread(int fd, void* p, size_t n, off_t o) {
  return do_read(fd, p, n, o, true);
}
EXPORT ssize_t pread64(int fd, void* p, size_t n, off64_t o) {
  return do_read(fd, p, n, o, true);
}
EXPORT ssize_t write(int fd, void const* p, size_t n) {
  return do_write(fd, p, n);
}
EXPORT ssize_t writev(int fd, iovec const* v, int n) {
  if (!mine(fd)) {
    REALFN(ssize_t, writev, (int, iovec const*, int));
    return fp(fd, v, n);
  }
  ssize_t t = 0;
  for (int i = 0; i < n; ++i) {
    ssize_t const r = do_write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) { return t ? t : -1; }
    t += r;
    if (static_cast<size_t>(r) < v[i].iov_len) { break; }
  }
  return t;
}
EXPORT ssize_t readv(int fd, iovec const* v, int n) {
  if (!mine(fd)) {
    REALFN(ssize_t, readv, (int, iovec const*, int));
    return fp(fd, v, n);
  }
  ssize_t t = 0;
  for (int i = 0; i < n; ++i) {
    ssize_t const r = do_read(fd, v[i].iov_base, v[i].iov_len, 0, false);
    if (r < 0) { return t ? t : -1; }
    t += r;
    if (static_cast<size_t>(r) < v[i].iov_len) { break; }
  }
  return t;
}
#define OPENMODE                                       \
  mode_t m = 0;                                        \
  if (fl & (O_CREAT | O_TMPFILE)) {                    \
    va_list ap;                                        \
    va_start(ap, fl);                                  \
    m = static_cast<mode_t>(va_arg(ap, int));          \
    va_end(ap);                                        \
  }
EXPORT int open(char const* p, int fl, ...) {
  OPENMODE return do_open(p, fl, m, AT_FDCWD);
}
EXPORT int open64(char const* p, int fl, ...) {
  OPENMODE return do_open(p, fl, m, AT_FDCWD);
}
EXPORT int openat(int d, char const* p, int fl, ...) {
  OPENMODE return do_open(p, fl, m, d);
}
EXPORT int openat64(int d, char const* p, int fl, ...) {
  OPENMODE return do_open(p, fl, m, d);
}
EXPORT int close(int fd) { return do_close(fd); }
EXPORT off_t lseek(int fd, off_t o, int w) { return do_seek(fd, o, w); }
EXPORT off64_t lseek64(int fd, off64_t o, int w) { return do_seek(fd, o, w); }
EXPORT int fsync(int fd) {
  REALFN(int, fsync, (int));
  if (mine(fd) && inject(sim::F_WRITE_EIO, nullptr)) { errno = EIO; return -1; }
  return mine(fd) ? 0 : fp(fd);
}
EXPORT int fdatasync(int fd) { return fsync(fd); }
EXPORT int fstat(int fd, struct stat* s) {
  if (mine(fd) && stat_fault("fstat")) { return -1; }
  REALFN(int, fstat, (int, struct stat*));
  return fp(fd, s);
}
EXPORT int fstat64(int fd, struct stat64* s) {
  if (mine(fd) && stat_fault("fstat")) { return -1; }
  REALFN(int, fstat64, (int, struct stat64*));
  return fp(fd, s);
}
EXPORT int stat(char const* p, struct stat* s) {
  if (stat_fault("stat")) { return -1; }
  REALFN(int, stat, (char const*, struct stat*));
  return fp(p, s);
}
EXPORT int stat64(char const* p, struct stat64* s) {
  if (stat_fault("stat")) { return -1; }
  REALFN(int, stat64, (char const*, struct stat64*));
  return fp(p, s);
}
EXPORT FILE* fopen(char const* p, char const* m) {
  return do_fopen(p, m, "fopen");
}
EXPORT FILE* fopen64(char const* p, char const* m) {
  return do_fopen(p, m, "fopen64");
}
EXPORT FILE* fdopen(int fd, char const* m) {
  if (mine(fd)) { return attach(fd, m); }
  REALFN(FILE*, fdopen, (int, char const*));
  return fp(fd, m);
}
EXPORT int fileno(FILE* f) {
  if (cur && g_running) {
    int const fd = fd_of(f);
    if (fd >= 0) { return fd; }
  }
  REALFN(int, fileno, (FILE*));
  return fp(f);
}
EXPORT int fclose(FILE* f) {
  if (in_sim() && f != stdin && f != stdout && f != stderr &&
      fd_of(f) < 0) {
    violate("double-close", "fclose of a stream that is not open");
  }
  REALFN(int, fclose, (FILE*));
  return fp(f);
}
static void* do_mmap(void* a, size_t n, int pr, int fl, int fd, off64_t o) {
  REALFN(void*, mmap64, (void*, size_t, int, int, int, off64_t));
  if (!mine(fd)) { return fp(a, n, pr, fl, fd, o); }
  note("mmap", fd);
  if (inject(sim::F_MMAP, nullptr)) {
    event("mmap fails with ENOMEM");
    errno = ENOMEM;
    return MAP_FAILED;
  }
  // a page that must not be touched follows every mapping
  std::size_t const full = (n + 4095) & ~4095UL;
  void* room = MAP_FAILED;
  if (a == nullptr && (fl & MAP_FIXED) == 0 && n != 0) {
    room = fp(nullptr, full + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  void* p = room == MAP_FAILED ? fp(a, n, pr, fl, fd, o)
                               : fp(room, n, pr, fl | MAP_FIXED, fd, o);
  if (p == MAP_FAILED && room != MAP_FAILED) {
    REALFN(int, munmap, (void*, size_t));
    int const e = errno;
    fp(room, full + 4096);
    errno = e;
  }
  if (p != MAP_FAILED) {
    if (n_maps == 256) { violate("harness-limit", "too many mappings"); }
    maps[n_maps++] = {p, n};
    event("mmap %zu bytes", n);
  } else {
    event("mmap error");
  }
  return p;
}
EXPORT void* mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) {
  return do_mmap(a, n, pr, fl, fd, o);
}
EXPORT void* mmap64(void* a, size_t n, int pr, int fl, int fd, off64_t o) {
  return do_mmap(a, n, pr, fl, fd, o);
}
EXPORT int munmap(void* p, size_t n) {
  REALFN(int, munmap, (void*, size_t));
  if (!in_sim()) { return fp(p, n); }
  for (unsigned i = 0; i < n_maps; ++i) {
    if (maps[i].p == p) {
      std::size_t const full = (maps[i].n + 4095) & ~4095UL;
      if (((n + 4095) & ~4095UL) != full) {
        violate("bad-unmap", "munmap of %zu bytes of a %zu byte mapping", n,
                maps[i].n);
      }
      maps[i] = maps[--n_maps];
      event("munmap");
      // keep the range reserved: a later use must crash
      mprotect(p, full, PROT_NONE);
      return 0;
    }
  }
  violate("double-unmap", "munmap of memory that is not mapped");
}

// ---- clocks -----------------------------------------------------------------
namespace {
bool simclock() { return g_running && cur != nullptr; }
void to_ts(std::int64_t ns, timespec* t) {
  std::int64_t s = ns / 1000000000, r = ns % 1000000000;
  if (r < 0) { r += 1000000000; --s; }
  t->tv_sec = s;
  t->tv_nsec = r;
}
bool is_wall(clockid_t c) {
  return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI;
}
void clock_point() { sched_point(P_SYNC); }
}  // namespace

std::uint64_t rt::mono_to_abs(std::int64_t s, std::int64_t ns, int clock) {
  std::int64_t t = 0;
  if (__builtin_mul_overflow(s, 1000000000LL, &t) ||
      __builtin_add_overflow(t, ns, &t)) {
    return s < 0 ? 0 : NEVER;
  }
  if (is_wall(clock)) {
    t -= sim::wall_ns() - static_cast<std::int64_t>(vnow());
  }
  return t < 0 ? 0 : static_cast<std::uint64_t>(t);
}

EXPORT int clock_gettime(clockid_t c, timespec* t) {
  if (!simclock()) {
    REALFN(int, clock_gettime, (clockid_t, timespec*));
    return fp(c, t);
  }
  clock_point();
  to_ts(is_wall(c) ? sim::wall_ns() : static_cast<std::int64_t>(vnow()), t);
  return 0;
}
EXPORT int gettimeofday(timeval* t, void* z) {
  if (!simclock()) {
    REALFN(int, gettimeofday, (timeval*, void*));
    return fp(t, z);
  }
  clock_point();
  timespec x;
  to_ts(sim::wall_ns(), &x);
  t->tv_sec = x.tv_sec;
  t->tv_usec = x.tv_nsec / 1000;
  check_range(t, sizeof *t, true, PC);
  return 0;
}
EXPORT time_t time(time_t* o) {
  if (!simclock()) {
    REALFN(time_t, time, (time_t*));
    return fp(o);
  }
  clock_point();
  timespec x;
  to_ts(sim::wall_ns(), &x);
  if (o) {
    *o = x.tv_sec;
    check_range(o, sizeof *o, true, PC);
  }
  return x.tv_sec;
}
EXPORT int timespec_get(timespec* t, int base) {
  if (!simclock()) {
    REALFN(int, timespec_get, (timespec*, int));
    return fp(t, base);
  }
  clock_point();
  to_ts(sim::wall_ns(), t);
  return base;
}
EXPORT clock_t clock() {
  if (!simclock()) {
    REALFN(clock_t, clock, ());
    return fp();
  }
  clock_point();
  return static_cast<clock_t>(vnow() / 1000);
}
// Calendar functions whose result is one object shared by all threads.
namespace {
struct tm shared_tm;
char shared_text[32];
using calendar_fn = struct tm* (*)(time_t const*, struct tm*);
struct tm* calendar(char const* name, time_t const* t, struct tm* o, void* pc) {
  auto const fp = reinterpret_cast<calendar_fn>(real_sym(name));
  if (!(cur && g_running)) { return fp(t, o); }
  sched_point(P_SYNC);
  check_range(t, sizeof *t, false, pc);
  auto const r = raw_call([&] { return fp(t, o); });
  check_range(o, sizeof *o, true, pc);
  return r;
}
struct tm* shared_call(char const* name, char const* reentrant, time_t const* t, void* pc) {
  if (!(cur && g_running)) {
    auto const fp = reinterpret_cast<struct tm* (*)(time_t const*)>(real_sym(name));
    return fp(t);
  }
  auto const r = calendar(reentrant, t, &shared_tm, pc);
  sched_point(P_SYNC);
  return r;
}
}  // namespace
EXPORT struct tm* gmtime_r(time_t const* t, struct tm* o) {
  return calendar("gmtime_r", t, o, PC);
}
EXPORT struct tm* localtime_r(time_t const* t, struct tm* o) {
  return calendar("localtime_r", t, o, PC);
}
EXPORT struct tm* gmtime(time_t const* t) {
  return shared_call("gmtime", "gmtime_r", t, PC);
}
EXPORT struct tm* localtime(time_t const* t) {
  return shared_call("localtime", "localtime_r", t, PC);
}
EXPORT char* asctime(struct tm const* t) {
  if (!(cur && g_running)) {
    REALFN(char*, asctime, (struct tm const*));
    return fp(t);
  }
  check_range(t, sizeof *t, false, PC);
  check_range(shared_text, sizeof shared_text, true, PC);
  return raw_call([&] { return asctime_r(t, shared_text); });
}
EXPORT char* ctime(time_t const* t) {
  if (!(cur && g_running)) {
    REALFN(char*, ctime, (time_t const*));
    return fp(t);
  }
  struct tm x;
  return raw_call([&] { return localtime_r(t, &x); }) ? asctime(&x) : nullptr;
}
EXPORT size_t strftime(char* b, size_t n, char const* f, struct tm const* t) {
  REALFN(size_t, strftime, (char*, size_t, char const*, struct tm const*));
  if (!(cur && g_running)) { return fp(b, n, f, t); }
  sched_point(P_SYNC);
  check_range(t, sizeof *t, false, PC);
  auto const r = raw_call([&] { return fp(b, n, f, t); });
  if (r) { check_range(b, r + 1, true, PC); }
  return r;
}

// std::chrono clocks: time_points are one 64 bit count of nanoseconds
extern "C" __attribute__((visibility("default"))) std::int64_t
sim_steady() __asm__("_ZNSt6chrono3_V212steady_clock3nowEv");
extern "C" __attribute__((visibility("default"))) std::int64_t
sim_system() __asm__("_ZNSt6chrono3_V212system_clock3nowEv");
extern "C" std::int64_t sim_steady() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000000000LL + t.tv_nsec;
}
extern "C" std::int64_t sim_system() {
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  return t.tv_sec * 1000000000LL + t.tv_nsec;
}

static int sim_sleep(std::uint64_t until) {
  sched_point(P_SYNC);
  if (until > vnow()) { block(W_SLEEP, nullptr, until); }
  return 0;
}
EXPORT int nanosleep(timespec const* t, timespec* rem) {
  if (!simclock()) {
    REALFN(int, nanosleep, (timespec const*, timespec*));
    return fp(t, rem);
  }
  return sim_sleep(vnow() + static_cast<std::uint64_t>(t->tv_sec) * 1000000000 +
                   static_cast<std::uint64_t>(t->tv_nsec));
}
EXPORT int clock_nanosleep(clockid_t c, int fl, timespec const* t,
                           timespec* rem) {
  if (!simclock()) {
    REALFN(int, clock_nanosleep, (clockid_t, int, timespec const*, timespec*));
    return fp(c, fl, t, rem);
  }
  if (fl & TIMER_ABSTIME) {
    return sim_sleep(mono_to_abs(t->tv_sec, t->tv_nsec, c));
  }
  return sim_sleep(vnow() + static_cast<std::uint64_t>(t->tv_sec) * 1000000000 +
                   static_cast<std::uint64_t>(t->tv_nsec));
}
EXPORT int usleep(useconds_t us) {
  if (!simclock()) {
    REALFN(int, usleep, (useconds_t));
    return fp(us);
  }
  return sim_sleep(vnow() + us * 1000ULL);
}
EXPORT unsigned sleep(unsigned s) {
  if (!simclock()) {
    REALFN(unsigned, sleep, (unsigned));
    return fp(s);
  }
  sim_sleep(vnow() + s * 1000000000ULL);
  return 0;
}

// ---- capture stream ---------------------------------------------------------
namespace {
struct capture final : std::streambuf {
  std::string text;
  std::size_t flushed{0};  // how much was there at the last flush
  static constexpr std::size_t LIMIT = 64U << 20;

  void put(char const* s, std::size_t n) {
    sched_point(P_SYNC);
    quiet_t q;
    // one call of a synchronised standard stream is atomic
    if (text.size() + n > LIMIT) {
      violate("runaway-output", "more than 64 MB were written");
    }
    text.append(s, n);
    std::uint64_t h = 0;
    for (std::size_t i = 0; i < n; ++i) {
      h = h * 131 + static_cast<unsigned char>(s[i]);
    }
    hash_in(h);
  }
  std::streamsize xsputn(char const* s, std::streamsize n) override {
    if (cur && cur->quiet == 0) {
      check_range(s, static_cast<std::size_t>(n), false, PC);
    }
    if (inject(sim::F_STREAM, nullptr)) { return 0; }
    put(s, static_cast<std::size_t>(n));
    return n;
  }
  int_type overflow(int_type c) override {
    if (inject(sim::F_STREAM, nullptr)) { return traits_type::eof(); }
    if (!traits_type::eq_int_type(c, traits_type::eof())) {
      char const x = traits_type::to_char_type(c);
      put(&x, 1);
    }
    return traits_type::not_eof(c);
  }
  int sync() override {
    sched_point(P_SYNC);
    flushed = text.size();
    return 0;
  }
};
}  // namespace

namespace rt {
void io_reset() {
  n_open = n_maps = 0;
  n_io = 0;
  disk_left = NEVER;
  hook = nullptr;
}
}  // namespace rt

namespace sim {
std::streambuf* make_capture() {
  quiet q;
  return new capture;
}
std::string capture_text(std::streambuf* b) {
  return static_cast<capture*>(b)->text;
}
std::size_t capture_size(std::streambuf* b) {
  return static_cast<capture*>(b)->text.size();
}
std::size_t capture_flushed(std::streambuf* b) {
  return static_cast<capture*>(b)->flushed;
}
void capture_clear(std::streambuf* b) {
  quiet q;
  static_cast<capture*>(b)->text.clear();
  static_cast<capture*>(b)->flushed = 0;
}
char const* scratch() {
  static bool made;
  quiet q;
  if (!made) {
    mkdir(g_cfg.scratch, 0700);
    made = true;
  }
  return g_cfg.scratch;
}
// the first handle opened from now on is number 0, as in a daemon
void close_stdin() {
  REALFN(int, close, (int));
  fp(0);
}
void io_hook(void (*fn)(char const*, int)) { hook = fn; }
unsigned open_handles() { return n_open; }
unsigned open_mappings() { return n_maps; }
std::uint64_t io_ops() { return n_io; }
void set_disk_space(std::uint64_t b) { disk_left = b; }
void sparse_writes(bool on) { sparse = on; }
}  // namespace sim
