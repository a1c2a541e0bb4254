// Scenario-facing interface of the deterministic simulator (see DESIGN.md).
// Everything here is implemented in libsimrt.so, which is never instrumented.
#pragma once

#include <cstddef>
#include <cstdint>
#include <streambuf>
#include <string>

#define SIM_API __attribute__((visibility("default")))

namespace sim {

// Fault kinds. The order is the order in the evidence files.
enum fault_kind : unsigned {
  F_SPURIOUS_WAKE,  // condition variable wait returns without a signal
  F_CAS_WEAK,  // compare_exchange_weak fails spuriously
  F_THREAD_EAGAIN,  // pthread_create fails
  F_STALL,  // a thread is not scheduled for a long time
  F_ALLOC,  // malloc/realloc/operator new fails
  F_OPEN,  // open/fopen fails
  F_STAT,  // fstat fails
  F_SEEK,  // lseek fails
  F_READ_EIO,  // read fails with EIO
  F_READ_SHORT,  // read returns fewer bytes than asked
  F_READ_EINTR,  // read is interrupted
  F_WRITE_EIO,
  F_WRITE_SHORT,
  F_WRITE_EINTR,
  F_ENOSPC,  // the simulated disk is full
  F_CLOSE,  // close fails (the handle is gone nevertheless)
  F_MMAP,  // mmap fails
  F_FILE_SHRINK,  // another process truncates the file
  F_FILE_GROW,  // another process appends to the file
  F_CLOCK_JUMP,  // the wall clock is set
  F_JOB_THROW,  // a user callback throws
  F_ABANDON,  // the consumer goes away / cancels
  F_STREAM,  // the output stream reports a write error
  F_COUNT
};

// ---- decision streams -------------------------------------------------------
SIM_API std::uint64_t pick(std::uint64_t n);  // workload decision in [0, n)
SIM_API std::uint64_t pick_size(std::uint64_t max);  // heavy-tailed in [0,max]
inline bool coin(unsigned num, unsigned den) { return pick(den) >= den - num; }
SIM_API bool fault(fault_kind k, std::uint64_t* value = nullptr);
SIM_API void enable_faults(std::uint64_t mask);  // kinds that may fire
SIM_API std::uint64_t enabled_faults();
inline constexpr std::uint64_t bit(fault_kind k) { return 1ULL << k; }
SIM_API std::uint64_t faults_fired(fault_kind k);
// counts a fault that the workload itself injects (a throwing callback, ...)
SIM_API void note_fault(fault_kind k);

// ---- environment ------------------------------------------------------------
SIM_API void set_processors(unsigned n);  // what the platform reports
SIM_API void set_step_limit(std::uint64_t n);
SIM_API void set_disk_space(std::uint64_t bytes);  // ~0 = unlimited
SIM_API void sparse_writes(bool on);  // long runs of zeros become holes
SIM_API void advance_time(std::uint64_t ns);
SIM_API std::uint64_t mono_ns();
SIM_API std::int64_t wall_ns();
SIM_API void set_wall_ns(std::int64_t ns);
SIM_API void sync_points_only(bool on);  // schedule only at synchronisation

// scratch directory of this run (real files, faults injected at the shims)
SIM_API char const* scratch();
SIM_API void close_stdin();
SIM_API void io_hook(void (*fn)(char const* op, int fd));
SIM_API unsigned open_handles();  // tracked fds + FILE*s currently open
SIM_API unsigned open_mappings();
SIM_API std::uint64_t io_ops();

// ---- threads ----------------------------------------------------------------
SIM_API int self();  // simulated thread id, 0 = main
SIM_API unsigned live_threads();  // other than the caller, not yet ended
SIM_API bool thread_ended(int id);
SIM_API unsigned threads_created();
SIM_API std::string thread_name(int id);  // what the platform shows
SIM_API void point();  // explicit scheduling point
SIM_API std::uint64_t seq();  // global event number

// ---- heap -------------------------------------------------------------------
SIM_API std::uint64_t live_blocks();  // blocks allocated by code under test
SIM_API void watch_allocs(bool on);  // allocation faults in this thread

// ---- history, oracles -------------------------------------------------------
SIM_API void event(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
SIM_API void sample(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
SIM_API void probe(char const* name);
SIM_API [[noreturn]] void violation(char const* cls, char const* fmt, ...)
    __attribute__((format(printf, 2, 3)));

// Code inside a quiet scope is not scheduled, not race-checked, not faulted.
SIM_API void quiet_begin();
SIM_API void quiet_end();
struct quiet {
  quiet() { quiet_begin(); }
  ~quiet() { quiet_end(); }
  quiet(quiet const&) = delete;
  quiet& operator=(quiet const&) = delete;
};

// Stream buffer that stores what is written; every call is a scheduling point.
// ops: writes are atomic per call, as for a synchronised standard stream.
SIM_API std::streambuf* make_capture();
SIM_API std::string capture_text(std::streambuf*);
SIM_API std::size_t capture_size(std::streambuf*);
SIM_API std::size_t capture_flushed(std::streambuf*);  // bytes before the last flush
SIM_API void capture_clear(std::streambuf*);

struct scenario {
  char const* name;
  void (*run)();
};
// never returns control to tests: parses the command line and runs
SIM_API int sim_main(int argc, char** argv, scenario const* list,
                     std::size_t n);

}  // namespace sim

#define SIM_CHECK(cond, cls, ...)       \
  do {                                  \
    if (!(cond)) {                      \
      ::sim::violation(cls, __VA_ARGS__); \
    }                                   \
  } while (0)
