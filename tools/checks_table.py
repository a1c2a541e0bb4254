add('C01', 60000,
    'thread interleavings, processor counts and job counts of all parallel loop entry points',
    SAMPLED + 'Job counts to 70000 and processor counts 0 to 128 are sampled; jobs '
    'record starts and plain-memory effects, so a lost, doubled, late or invisible '
    'job is reported, as are leftover workers and deadlock.', LOOPS)
add('C02', 60000,
    'thread interleavings and sets of failing jobs of stop-on-error loops',
    SAMPLED + 'Failing jobs are injected singly, densely, all at once, at the ends, and '
    'early in loops of up to 2^63 jobs; '
    'every in-run start is checked against the stop rule and the thrown exception '
    'against what the jobs threw.', LOOPS)
add('C03', 50000,
    'thread interleavings and sets of failing jobs of continue-on-error loops',
    SAMPLED + 'The returned error list is compared with the record of what each '
    'job threw (index and exception content).', LOOPS)
add('C04', 55000,
    'thread interleavings, failing jobs and processor counts of thread-local loops',
    SAMPLED + 'Every state object records its owner, users, jobs and life time; '
    'its plain members are race-checked.', LOOPS)
add('C05', 45000,
    'thread interleavings, failing jobs and failing progress callbacks of loops',
    SAMPLED + 'Callbacks are checked against the jobs as they happen and counted '
    'afterwards.', LOOPS)
POOL = ['include/utl/thread_pool.h', 'include/utl/verify.h',
        'libstdc++ std::thread, std::mutex, std::condition_variable, std::function']
add('C06', 45000,
    'thread interleavings, spurious wake-ups and stalls over histories of rounds',
    SAMPLED + 'Job starts, ends and plain-memory effects of every round are '
    'checked, rarely over 66000 rounds; a hang is a deadlock report or the step limit.', POOL)
add('C07', 50000,
    'thread interleavings of construction, rounds and destruction of thread pools',
    SAMPLED + 'Initializer, finalizer and job events per worker are checked as '
    'they happen and counted after destruction.', POOL)
add('C08', 40000,
    'thread interleavings of overlapping and nested rounds and failing allocations',
    SAMPLED + 'Up to 4 submitters, submissions from inside jobs, allocation '
    'failures inside a submission; each submission must be rejected without '
    'effect or complete.', POOL)
add('C09', 60000,
    'positions of refused thread starts and interleavings of the started workers',
    SAMPLED + 'Each thread start may be refused (EAGAIN); process termination, '
    'leftover workers, hangs and broken contracts afterwards are violations.',
    LOOPS + POOL[:1])
TRK = ['src/progress_tracker.cc', 'include/utl/progress_tracker.h', 'libstdc++ std::atomic, std::mutex, std::function, std::map']
add('C10', 80000,
    'thread interleavings, delays and weak compare-exchange failures of updates',
    SAMPLED + 'Sums, maxima and the output defined by bounds and step are '
    'recomputed by the harness (rounding ties accepted either way).', TRK)
add('C11', 70000,
    'call histories and thread interleavings of progress tracker updates',
    SAMPLED + 'Single-threaded histories are compared call by call with a model; '
    'concurrent ones through what the callbacks and an observer saw.', TRK)
add('C12', 60000,
    'thread interleavings of registry calls, with failing allocations',
    SAMPLED + 'Histories of up to 20 calls by 2 to 4 threads, checked for a '
    'linearisation against a map with one active tracker.', TRK)
add('C13', 30000,
    'thread interleavings of updates, registrations, redraws, clears and switching',
    SAMPLED + 'The bytes written are fed to a terminal emulator; the screen is '
    'compared with the trackers (1 to 101) whenever no call is running.', TRK,
    stub=['the terminal: a capture buffer behind std::cout and an emulator of the '
          'escape sequences used'])
LOGF = ['include/utl/logging.h', 'libstdc++ streams, strftime, gmtime_r']
CAP = ['the log sink: a capture buffer behind std::clog, atomic per write call, '
       'every call a scheduling point']
add('C14', 60000,
    'thread interleavings of log statements and wall-clock jumps',
    SAMPLED + 'Every captured line must be the whole output of exactly one '
    'statement, stamped with a time the simulated wall clock had meanwhile.', LOGF,
    stub=CAP)
add('C15', 60000,
    'thread interleavings of failing verifications and log statements, clock jumps',
    SAMPLED + 'Captured lines and exception texts are matched one to one with the '
    'verifications.', ['include/utl/verify.h', 'include/utl/logging.h', 'fmt'], stub=CAP)
add('C16', 60000,
    'elapsed times, wall-clock jumps and histories of timer calls',
    SAMPLED + 'Every report is matched with the simulated monotonic time between '
    'start and report (printed precision: 6 digits).',
    ['src/timer.cc', 'include/utl/timer.h', 'include/utl/timing.h', 'include/utl/logging.h'],
    stub=CAP)
FILES = ['the real file system (tmpfs or /tmp) below the faulted system calls; '
         'FILE* streams are built by glibc fopencookie over the faulted calls']
add('C17', 60000,
    'faults at every system call, partial reads, concurrent truncation and growth',
    SAMPLED + 'Each byte of the file is a function of its offset; what is returned '
    'must be the content at one of the lengths the file had during the call.',
    ['include/utl/parser/file.h', 'include/utl/read_file.h', 'include/utl/parser/buffer.h',
     'libstdc++ basic_filebuf, glibc stdio'], stub=FILES)
add('C18', 60000,
    'write histories, disk full after any byte, write errors, partial writes',
    SAMPLED + 'The real file is compared with the acknowledged bytes after every '
    'write and after destruction.',
    ['include/utl/parser/file.h', 'glibc stdio'], stub=FILES)
add('C19', 60000,
    'histories of moves, assignments and destructions with refused system calls and allocations',
    SAMPLED + 'Open handles, mappings and memory blocks are counted by the '
    'simulator after every step; a second release or use after release is reported '
    'at once.',
    ['include/utl/parser/file.h', 'include/utl/parser/mmap_reader_unix.h',
     'include/utl/parser/buffer.h', 'glibc stdio'], stub=FILES)
add('C21', 60000,
    'histories of constructions, resizes and moves with failing allocations',
    SAMPLED + 'Size and bytes are compared with a model after every step.',
    ['include/utl/parser/buffer.h'])
add('C20', 60000,
    'faults at every system call, partial reads, reader histories and texts',
    SAMPLED + 'Every line or byte run delivered is compared with the file; '
    'standard input is a file behind std::cin (as C stream and as C++ file buffer).',
    ['include/utl/for_each_line_in_file.h', 'include/utl/parser/mmap_reader_unix.h',
     'include/utl/parser/buf_reader.h', 'libstdc++ streams'],
    stub=FILES, assume=['A file that another process truncates while it is mapped is '
                        'out of scope (the access faults in the kernel).'])
add('C22', 60000,
    'consumer histories, exceptions, abandonment and failing allocations of generators',
    SAMPLED + 'Values, exceptions and object life times inside the coroutines are '
    'compared with a model after every step.',
    ['include/utl/generator.h', 'the compiler\'s coroutine frames'])
add('C23', 60000,
    'exceptions at every point, moves, disarming and nesting of scope guards',
    SAMPLED + 'The order of the clean-ups is compared with a model stack after '
    'every scope and every step.',
    ['include/utl/raii.h', 'the C++ run time\'s stack unwinding'])
add('C24', 60000,
    'look-up histories with throwing and recursive creation functions and failing allocations',
    SAMPLED + 'Container content, returned reference and calls are compared with a '
    'model after every step.',
    ['include/utl/get_or_create.h', 'include/utl/get_or_create_index.h',
     'libstdc++ std::map, std::unordered_map'])
CISTA = ['cista (not installed): field iteration over aggregates and its string '
         'type are a small stand-in in sim/stubs']
OPS = ['all headers of include/utl that operate on collections, texts, ranges and '
       'tuples (see sim/props/ops.h)', 'libstdc++ containers and algorithms']
add('C25', 120000,
    'operations, their inputs, and the call of a user function or the allocation that fails',
    SAMPLED + 'Calls of user functions, results, element life times and memory are '
    'compared with an eager definition of each operation and with the run without '
    'failure.', OPS, stub=CISTA, stubs=True)
add('C26', 50000,
    'thread interleavings and nesting of operations on separate and shared read-only objects',
    SAMPLED + 'Calls of user functions and results of every operation are compared '
    'with its eager definition and with the same operation run alone, before or after.', OPS, stub=CISTA, stubs=True)
add('C27', 60000,
    'tables, faults at every system call and allocation of reading them, throwing handlers',
    SAMPLED + 'Every row delivered is compared with the table that was written to '
    'the file.', ['include/utl/parser/csv.h', 'include/utl/parser/csv_range.h', 'include/utl/parser/line_range.h', 'include/utl/parser/split.h',
     'include/utl/parser/file.h', 'include/utl/parser/mmap_reader_unix.h', 'include/utl/read_file.h', 'include/utl/for_each_line_in_file.h',
     'libstdc++ streams, glibc stdio'], stub=FILES + CISTA, stubs=True)
add('C28', 40000,
    'thread interleavings of naming calls by the threads themselves and by others, refused calls',
    SAMPLED + 'The name that the platform shows for each thread is compared with the names '
    'given by calls that no later call has overtaken.',
    ['include/utl/set_thread_name.h', 'include/utl/thread_pool.h', 'libstdc++ std::thread'],
    stub=['pthread_setname_np and prctl(PR_SET_NAME) store the name in the simulator, with the '
          "kernel's limit of 15 characters and its failures"])
add('C29', 30000,
    'thread interleavings, bad rows and refused system calls and thread starts of whole import programs',
    SAMPLED + 'Programs of nested loops, pools, readers, trackers, log lines, timers and '
    'result files; results are compared with those of a sequential import, the screen with '
    'the trackers, the log with what was logged, and everything must be released.',
    ['all headers named in the property', 'src/progress_tracker.cc', 'src/timer.cc', 'libstdc++, fmt, glibc stdio'],
    stub=FILES + CISTA + CAP, stubs=True)
