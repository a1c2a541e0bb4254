#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

PF = "include/utl/parallel_for.h"; TP = "include/utl/thread_pool.h"
PTH = "include/utl/progress_tracker.h"; PTC = "src/progress_tracker.cc"
NOTEST = "No existing test executes this code at all; "

prop("C01", "Parallel loops run every job exactly once and finish before returning",
 "When no job fails, every parallel-loop entry point (by index, by element of a container, with thread-local state, with progress logging) runs each job index or element (the caller's own, not a copy) exactly once, and with progress logging announces each n-th of them by one line, whatever the number of jobs and whatever number of processors the platform reports (including 'unknown' = 0). The call returns only after every job has finished and no worker is left running, and everything the jobs wrote is visible to the caller without further synchronisation. It always returns if the jobs do, and reports no error.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of the worker threads, every job count (0, 1, fewer and more than workers, above 2^16), every reported processor count (0 = unknown, 1 .. many)",
 NOTEST + "and a test samples one real schedule on one machine's processor count; the guarantee quantifies over all interleavings and processor counts.",
 [PF], [("shared atomic job counter claimed once per job", PF), ("join of all workers before returning", PF)],
 ["job invocations per index", "workers alive at return", "writes of jobs read by the caller"],
 state=[("job counter", "next unclaimed job", PF)])
prop("C02", "Stop-on-error loops stop, and rethrow an error a job really raised",
 "In stop-on-error mode (the default) a parallel loop never runs a job twice; if any job threw, the call throws one of the exceptions its jobs threw, unchanged (or bad_alloc if there is no memory left to keep it), and does so only after every worker has stopped. A worker whose job failed runs no further job, and once that worker has ended every other worker starts at most one more job. If no job threw, nothing is thrown and every job ran.",
 ["schedules", "fault_sequences", "inputs"],
 "every subset of failing jobs, every placement of the failures relative to the other workers' progress, every interleaving and processor count",
 NOTEST + "the stopping behaviour depends on where other workers are when the failure happens.",
 [PF], [("quit flag, error list under a mutex", PF), ("rethrow of the first recorded error after join", PF)],
 ["exception seen by the caller", "jobs started per worker after the failure"])
prop("C03", "Continue-on-error loops run all jobs and report each failure exactly once",
 "In continue-on-error mode a parallel loop runs every job exactly once even if any subset of the jobs throws, and does not throw itself. It returns exactly one entry per failed job, made of that job's index and the exception that this job threw, and no other entries. Only if there is no memory left to report a failure, it stops and throws bad_alloc, after every worker has stopped.",
 ["schedules", "fault_sequences", "inputs"],
 "every subset of failing jobs (none, one, all, also several failing at the same moment), every interleaving and processor count",
 NOTEST + "a lost or mislabelled error needs two workers failing at the same instant or a worker that fails late.",
 [PF], [("error list guarded by a mutex", PF), ("index and std::exception_ptr recorded in the catch handler", PF)],
 ["returned error list"])
prop("C04", "Thread-local state of a parallel loop is private to one worker",
 "In the thread-local parallel loop every job receives a state object that only one worker thread ever uses, that was default-constructed by that worker before its first job, and that still holds what the earlier jobs of the same worker left in it; one worker never uses two state objects. Every state object is destroyed exactly once, by its worker, after its last job and before the call returns or throws. If a state cannot be constructed, no job is silently left out: the exception reaches the caller after every worker has stopped, unless all jobs ran on other workers.",
 ["schedules", "fault_sequences", "configurations"],
 "every interleaving, processor count, error mode and set of failing jobs",
 NOTEST + "sharing shows only when two workers overlap.",
 [PF], [("state object local to the worker's own stack frame", PF)],
 ["identity, owner thread and content of the state object in each job", "constructions and destructions"])
prop("C05", "Loop progress callbacks fire exactly once per successful job",
 "The progress callback of a parallel loop is called exactly once for each job that completed without throwing, with that job's index, by the worker that ran the job and after the job ended but before the loop returns. It is never called for a job that threw or did not run, and an exception thrown by the callback is treated exactly like an exception thrown by that job.",
 ["schedules", "fault_sequences"],
 "every interleaving, error mode, subset of failing jobs and of failing progress callbacks, every entry point",
 NOTEST + "wrong pairing of callbacks and jobs shows only for some schedules and failure sets.",
 [PF], [("progress callback inside the same try block after the job", PF)],
 ["calls of the progress callback in the history"])
prop("C06", "Thread pool rounds run each job exactly once and complete before returning",
 "Each round handed to a thread pool runs every job index from 0 to n-1 exactly once with the function of that round, and returns only when all of them have finished, with their effects visible to the caller. This holds for any number of consecutive rounds of any sizes (a round of size zero runs nothing and returns at once), for any number of processors the platform reports (including 'unknown' = 0), for every schedule and for spurious wake-ups. A round always returns if its jobs do.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "every interleaving of caller and workers over sequences of rounds, spurious condition-variable wake-ups, workers delayed arbitrarily long, every processor count",
 NOTEST + "lost wake-ups, stale workers entering the next round and early returns need particular interleavings across rounds.",
 [TP], [("mutex + condition variable hand-off", TP), ("active-worker count and claimed-job counter in the wait predicates", TP)],
 ["job invocations per round and index", "job end versus return of the round", "deadlock"],
 state=[("counter, job count, active count, stop flag", "shared round state", TP)])
prop("C07", "Thread pool workers are initialised, finalised and joined exactly once",
 "A thread pool starts one worker per processor the platform reports (at least one); each worker runs the initializer exactly once before its first job and the finalizer exactly once after its last job, on its own thread, and no job runs on any other thread. Destroying the pool while no round is running - also immediately after construction, or right after a round - never hangs and returns only when every worker has run its finalizer and ended; no job, initializer or finalizer runs after that.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "every interleaving of construction, rounds and destruction with the workers' start-up and wait loops, spurious wake-ups, processor counts",
 NOTEST + "a lost stop signal needs destruction to race with a worker's start-up or its way back into the wait.",
 [TP], [("stop flag set under the mutex and broadcast, then join", TP)],
 ["initializer/finalizer/job events per thread", "threads alive after destruction", "deadlock"])
prop("C08", "Overlapping thread pool rounds never mix or lose jobs",
 "A round submitted to a thread pool while another round is unfinished - from another thread or from inside a job - is either rejected with an exception and runs none of its jobs, or runs all of its jobs exactly once before it returns; from inside a job it is always rejected. In either case every other round still runs all of its own jobs exactly once and returns. A submission that fails for any reason (including memory exhaustion) runs none of its jobs and leaves the pool fully usable for later rounds.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of several submitting threads, nested submissions and failing allocations with the workers",
 NOTEST + "losing a round needs a second submission in the window between submission and the first worker waking up.",
 [TP], [("guard that rejects a submission while a round is in progress", TP)],
 ["per-round outcome (rejected or complete)", "job invocations per round"])
prop("C09", "Failure to start a worker thread is reported, not fatal",
 "If the platform refuses to start one or more worker threads (for lack of threads or of memory), a parallel loop or the construction of a thread pool does not terminate the process, hang, or leave threads behind: it either throws to the caller after every worker already started has ended (a pool's started workers having run their finalizer), or carries on and meets its normal contract. No job runs twice, and no job, initializer or finalizer runs after the call has ended.",
 ["fault_sequences", "schedules", "configurations"],
 "thread creation failing at any position (first, middle, last, all), every interleaving of the already-started workers, every processor count",
 NOTEST + "the operating system does not refuse threads in an ordinary test run.",
 [PF, TP], [("worker start-up loop and its clean-up path", PF), ("constructor clean-up path", TP)],
 ["outcome of the call", "threads alive afterwards", "process termination"])
prop("C10", "Concurrent progress updates are never lost",
 "After any concurrent mix of increments of a progress tracker the tracked input equals the start value plus the sum of all increments, and after any concurrent mix of monotonic updates it equals the largest value given; at no moment does a monotonic update lower the input. Once all calls have returned, the tracker's output equals the value that its bounds and step define for the final input - in particular the upper bound once the input has reached the configured maximum, if the step divides the range. (Bounds, step and maximum are changed only while no update is running.)",
 ["schedules", "inputs", "fault_sequences"],
 "every interleaving of the updating threads (including weak compare-exchange failures and threads delayed inside an update), all bounds, steps and maxima",
 "progress_tracker has no test that runs here and the ones that exist are single-threaded; a stale output needs one thread to be delayed between reading the input and publishing the output.",
 [PTC, PTH], [("atomic input, compare-exchange maximum", PTC), ("output recomputed and published after each input change", PTC)],
 ["input and output after quiescence", "input sequence seen by an observer thread"],
 state=[("in_, out_", "input and published output", PTH)])
prop("C11", "Progress output stays within bounds and every change is notified",
 "At every moment, inside callbacks as well, a tracker's output is a number within its configured lower and upper bound (for every maximum, including zero). The callback is called after each call that changed the output, the status text, the visibility or the bounds, and not by a call that changed nothing; when all calls have returned, some callback invocation started after the last change, so that a callback which reads the tracker has seen its final state. Changing the bounds, the step or the maximum restarts the input at zero and the output at the lower bound, and the callback is never invoked while the tracker's lock is held.",
 ["schedules", "inputs", "histories"],
 "every interleaving of updating threads, every history of status/bounds/maximum changes and updates, including maximum zero and empty ranges",
 "no test that runs here touches progress_tracker; missed notifications and out-of-range outputs depend on interleaving or on rarely used bounds.",
 [PTC, PTH], [("clamping when the output is computed", PTC), ("callback after unlock, only on change", PTC)],
 ["output values and callback invocations in the history"])
prop("C12", "The tracker registry behaves like one map with one active tracker",
 "Concurrent calls to look up, activate, query and clear progress trackers behave as if executed one after the other: until the registry is cleared every look-up of a name yields the same tracker, different names yield different trackers, the active tracker is the one activated last, and querying it when there is none throws. Threads that concurrently get-or-activate when none is active all end up with one and the same tracker, and a tracker still held after a clear stays usable. A call that fails for lack of memory changes nothing.",
 ["schedules", "histories"],
 "every interleaving of histories of get, activate (by name or object), get active, get-or-activate and clear from several threads",
 "the tests that exist do not run here and are single-threaded; duplicated or lost trackers need two threads inside the registry at once.",
 [PTC, PTH], [("registry mutex around every look-up and activation", PTC)],
 ["returned tracker identities in the concurrent history (linearizability)"])
prop("C13", "The progress display shows every tracker once, up to date, uncorrupted",
 "While the display is on, once all updates have returned the terminal shows one line per registered tracker, in name order, each with the tracker's current percentage and status (or status only if its bar is hidden), with no stale, duplicated or interleaved lines or characters from earlier or concurrent redraws. While the display is off nothing is written, and once switching it off has returned nothing more is written; a display that ends removes all trackers and restores the display (on or off) that it was nested in. Updating, displaying, registering and clearing from any number of threads never deadlocks.",
 ["schedules", "histories"],
 "every interleaving of updates, registrations, redraws, clears and display switching from several threads",
 "the display tests do not run here and use one thread; interleaved redraws and lock-order deadlocks need concurrency.",
 [PTC, PTH], [("redraw of the whole block under the registry lock, cursor moved up by the previous height", PTC)],
 ["bytes written to the terminal, interpreted by a terminal model"])
prop("C14", "Every log statement yields one whole, correctly stamped line",
 "Each log statement writes exactly one line: its level, the UTC wall-clock time at which it was issued, source file name and line number, then the streamed values in order. Lines logged concurrently by different threads are never interleaved, lost, duplicated or merged, and their order agrees with the order of statements in each thread.",
 ["schedules", "inputs"],
 "every interleaving of several logging threads, every wall-clock time and clock jump",
 "logging has no test; interleaved lines need two threads inside a log statement at once.",
 ["include/utl/logging.h", PF], [("log statement object that emits the line when it ends", "include/utl/logging.h")],
 ["bytes written to the log stream"])
prop("C15", "A failed verification throws its message and logs it as one line",
 "A verification whose condition holds has no effect. One that fails throws an exception whose text is exactly the formatted message and (except for the silent variant and the one given an exception object, which throws that object) first logs one whole line made of the UTC time, a failure marker and the same message, which is never interleaved with output of other threads.",
 ["schedules", "inputs", "fault_sequences"],
 "every interleaving of several failing verifications and log statements, every wall-clock time",
 "the tests provoke single failures in one thread and do not look at the logged line.",
 ["include/utl/verify.h"], [("message formatted for the log and for the exception", "include/utl/verify.h")],
 ["exception text", "bytes written to the log stream"])
prop("C16", "Timers report elapsed monotonic time, whatever the wall clock does",
 "The duration printed by a scoped or manual timer and returned by the timing macros is the monotonic time that passed between its start and the report, in milliseconds (to the microsecond, within the printed precision) or microseconds, unaffected by jumps of the wall clock in either direction. A scoped timer announces itself once when created and reports exactly once when destroyed, also when its scope is left by an exception; intermediate prints carry the elapsed time so far and do not stop the timer.",
 ["fault_sequences", "inputs", "histories"],
 "every elapsed time from nothing to days, every sequence of wall-clock jumps between start and report, every history of prints",
 "timers have no test, and a test cannot let the wall clock jump or days pass.",
 ["src/timer.cc", "include/utl/timer.h", "include/utl/timing.h"], [("steady clock sampled at start and at report", "src/timer.cc")],
 ["log lines of the timers", "macro results"])
prop("C17", "Reading a whole file yields exactly its bytes or an error",
 "The operations that read a whole file (file size, content as buffer or string, optional-returning read) return exactly the bytes (or the size) of the file, from its beginning and also when repeated on the same open file, or report failure by exception respectively empty optional. They never return truncated, padded, stale or altered data, whatever fails underneath: open, seek, tell, read errors at any offset, short or interrupted reads, a file that shrinks or grows meanwhile, or memory exhaustion. Without faults they succeed for every size, including empty files.",
 ["fault_sequences", "inputs", "crash_points"],
 "every file content and size, every fault at every system call, concurrent truncation or extension at any point",
 "no test reads a file; a disk error or a concurrent truncation cannot be produced by ordinary tests.",
 ["include/utl/parser/file.h", "include/utl/read_file.h", "include/utl/parser/buffer.h"], [("byte count compared with the size", "include/utl/parser/file.h"), ("stream exceptions mapped to an empty optional", "include/utl/read_file.h")],
 ["returned bytes versus file bytes"])
prop("C18", "A file write that reports success has put its bytes into the file",
 "After a sequence of writes to an open file object that all returned normally, the file contains exactly the written bytes in order as soon as the last write has returned, and still after the object is destroyed. If the storage does not take the data (disk full, I/O error, at any point), the write call concerned throws; the file then holds a prefix of what was written, never anything else.",
 ["fault_sequences", "histories", "inputs"],
 "every sequence of write sizes (including 0 and larger than any buffer), disk full after any byte, write errors, short and interrupted writes",
 "no test writes a file, and a full disk is not something a test produces; data still buffered when the caller is told 'written' is lost silently.",
 ["include/utl/parser/file.h"], [("count returned by the stream write compared with the size", "include/utl/parser/file.h")],
 ["file content after each write and after destruction versus acknowledged writes"])
prop("C19", "Files, mappings, buffers and file handles are released exactly once",
 "For any history of constructing, moving, move-assigning (also over an object that already owns something), using and destroying file, memory-mapped-reader and buffer objects, with any operation failing at any point, every file handle, memory mapping and memory block acquired is released exactly once: nothing is leaked, released twice, or used after release. Opening a file that cannot be opened, examined or mapped throws and leaves nothing behind.",
 ["histories", "fault_sequences"],
 "every history of moves, assignments and destructions over several objects, open/stat/map/allocation failing at any step",
 "no test moves these objects or makes the operating system refuse a request.",
 ["include/utl/parser/mmap_reader_unix.h", "include/utl/parser/buffer.h", "include/utl/parser/file.h"], [("move operations and destructors", "include/utl/parser/mmap_reader_unix.h")],
 ["open handles, mappings and memory blocks after each step"])
prop("C20", "Line-wise readers deliver every line once, in order, or fail",
 "Reading a file or stream line by line (memory-mapped reader, buffer reader, a line range over either, per-line iteration over a file or standard input) delivers every line exactly once, in order, without its newline and otherwise unaltered, including empty lines and a last line without newline, however the data arrives in pieces; byte-wise reads of the mapped reader deliver consecutive bytes and stop at the end. If the data cannot be read to the end, an exception is thrown and no line that is not a complete line of the file is delivered; an exception of the caller's own line handler is passed on and the file is closed. The reported position (progress) is that of the bytes consumed so far.",
 ["inputs", "fault_sequences", "histories"],
 "every file content, every splitting of the data into partial reads, read errors at every offset, every mix of line-wise and byte-wise reads",
 "the tests cover in-memory strings only; none reads lines from a file, in pieces or with errors.",
 ["include/utl/for_each_line_in_file.h", "include/utl/parser/mmap_reader_unix.h", "include/utl/parser/buf_reader.h", "include/utl/parser/line_range.h"], [("newline search bounded by the end of the data", "include/utl/parser/mmap_reader_unix.h"), ("stream state checked around each line", "include/utl/for_each_line_in_file.h")],
 ["sequence of delivered lines versus the file"])
prop("C21", "Buffers keep their content across moves, resizes and failed growth",
 "A byte buffer always has exactly the size and content its history defines: construction from data copies the data, resizing (to any size, including zero) keeps the common prefix, moving transfers content and leaves the source empty. If memory cannot be obtained, construction or resizing throws and an existing buffer keeps its size and content and remains usable.",
 ["histories", "fault_sequences", "inputs"],
 "every history of construct, resize, move and move-assign (including onto itself), allocation failing at any step",
 "buffers have no test of their own, and a test cannot make an allocation fail.",
 ["include/utl/parser/buffer.h"], [("size updated only after the reallocation succeeded", "include/utl/parser/buffer.h")],
 ["size and bytes after each step versus a model"])
prop("C22", "Generators yield each value once and end, fail or are abandoned cleanly",
 "A generator delivers exactly the values its coroutine yields, each once and in order, whether the consumer asks for availability zero, one or many times before taking a value; an exception inside the coroutine reaches the consumer exactly once, at that place in the sequence, after which the generator is exhausted. Several generators advanced alternately do not influence each other. Abandoning a generator at any point, moving it (onto itself, too), or failing to allocate it destroys the coroutine's local objects and its frame exactly once.",
 ["histories", "fault_sequences", "crash_points"],
 "every consumer history of availability checks and takes, interleaved over several generators, exceptions at any yield, abandonment at any point, allocation failure",
 "generators have no test; a skipped or duplicated value depends on the pattern of availability checks, and double destruction on moves.",
 ["include/utl/generator.h"], [("fill-once flag between check and take", "include/utl/generator.h"), ("handle destroyed by the owning object", "include/utl/generator.h")],
 ["values and exceptions seen by consumers", "constructions and destructions inside coroutines"])
prop("C23", "Scope guards run their clean-up exactly once, whatever leaves the scope",
 "The clean-up action of a scope guard or scoped resource runs exactly once, when the scope that finally owns it is left, whether normally, by an exception thrown at any point, or after the guard was moved any number of times - and not at all when it was explicitly disarmed. Nested guards run in the reverse order of their creation, and a resource's clean-up receives the resource.",
 ["fault_sequences", "histories"],
 "exceptions injected at every point between guard creation and scope end, every history of moves, disarming and nesting",
 "scope guards have no test of their own; the tests leave every scope normally and never move a guard.",
 ["include/utl/raii.h"], [("armed flag cleared when moved from or disarmed", "include/utl/raii.h")],
 ["clean-up invocations in the history"])
prop("C24", "Look-up-or-create is all or nothing when creation fails",
 "Get-or-create returns a reference to the value already stored for the key, and calls the creation function only if there is none, exactly once, storing its result; get-or-create-index gives each new key the next free index starting at zero and always returns the same index for the same key. If the creation function or a memory allocation fails, the exception reaches the caller, the container is unchanged, and a later attempt succeeds as if the failed one had not happened.",
 ["fault_sequences", "histories"],
 "every history of look-ups over ordered and hashed maps, creation functions that throw (or look up other keys themselves), allocation failing at any point",
 "no test covers these helpers, and none can make an allocation fail in the middle of an insertion.",
 ["include/utl/get_or_create.h", "include/utl/get_or_create_index.h"], [("value created before the entry is inserted", "include/utl/get_or_create.h")],
 ["container content after each step versus a model"])
ALGO = ["include/utl/pipes", "include/utl/join.h", "include/utl/sorted_diff.h", "include/utl/equal_ranges.h", "include/utl/equal_ranges_linear.h", "include/utl/sort_by.h", "include/utl/to_vec.h", "include/utl/erase_duplicates.h", "include/utl/insert_sorted.h", "include/utl/zip.h", "include/utl/enumerate.h", "include/utl/nwise.h", "include/utl/parser/csv_range.h", "include/utl/parser/csv.h", "include/utl/parser/cstr.h", "include/utl/cmd_line_parser.h", "include/utl/init_from.h", "include/utl/match.h", "include/utl/helpers/algorithm.h"]
prop("C25", "Failing callbacks and allocations pass cleanly through collection operations",
 "If a user function (predicate, projection, comparison, handler, copy of an element) or a memory allocation fails inside a collection or parsing operation - pipelines, joins, diffs, grouping, sorting by keys, erasing, inserting, conversion, zipped and enumerated iteration, line, CSV and command-line parsing - the very same exception reaches the caller at once: the user functions called before it are a beginning of the calls of the run without failure, and none is called afterwards. Every element is destroyed exactly once, memory is released, and inputs that the operation only reads are unchanged, so that repeating it gives the result it has by definition, which is also what it gives whenever nothing fails.",
 ["fault_sequences", "inputs"],
 "every operation and input (empty and one-element ones included), every call of a user function and every allocation as the one that fails, repetition after the failure",
 "tests run each operation on a few inputs and never make a callback or an allocation inside it fail; what is left behind depends on the exact call that fails.",
 ALGO, [("eager definition of each operation versus the operation, callback by callback", "include/utl/pipes/make_range.h"), ("merge loops", "include/utl/join.h"), ("field iteration and column scanner", "include/utl/parser/csv.h")],
 ["calls of user functions", "exception seen by the caller", "element life times and memory", "result"])
prop("C26", "Operations on separate objects are independent across threads",
 "Collection and parsing operations that run at the same time in several threads, or inside a callback of one another, on objects of their own or on shared inputs that they only read, do not influence each other: each calls its user functions and gives its result exactly as when it runs alone, even if others of them fail. None of them keeps state between calls, changes an input that it only reads, or reads memory that another thread writes.",
 ["schedules", "inputs", "fault_sequences"],
 "every pair of operations, every interleaving of their steps, nesting, failing callbacks and allocations in some of them",
 "hidden shared state (function-local statics, modified read-only inputs, cached buffers) shows only for particular interleavings or nestings, and no test runs two operations at a time.",
 ALGO, [("operations keep all their state on the stack or in their arguments", "include/utl/pipes")],
 ["calls and results of each operation versus the same operation run alone", "conflicting unsynchronised accesses"])
prop("C27", "Rows read from a file are exactly the file's rows, or an error is reported",
 "Reading a CSV file - through the tuple reader, the row range over a mapped file, a buffer read from the file, or line by line with separators - yields exactly one row per line of the table, in order, with each declared column's value under its header, whatever the order of the columns, additional columns, quoting and line endings (and, for the row range, a byte-order mark and empty lines between rows, which are no rows but do not end the table). If a system call, memory mapping or allocation fails or a handler throws, an exception reaches the caller and no row has been delivered that the file does not contain; partial and interrupted reads change nothing. In every case the files, mappings and memory used are released, and a later attempt gives the whole result.",
 ["fault_sequences", "inputs", "configurations"],
 "every system call of the read as the one that fails, is interrupted or delivers part of the data, every allocation, every table and column declaration, repeated attempts",
 "the tests parse strings in memory; a torn row needs a file operation to fail or deliver part of the data in the middle of a record.",
 ["include/utl/parser/csv.h", "include/utl/parser/csv_range.h", "include/utl/parser/line_range.h", "include/utl/parser/mmap_reader_unix.h", "include/utl/parser/buf_reader.h", "include/utl/parser/file.h", "include/utl/read_file.h", "include/utl/for_each_line_in_file.h", "include/utl/parser/split.h", "include/utl/parser/arg_parser.h"],
 [("column scanner and header permutation", "include/utl/parser/csv.h"), ("row range over a line reader", "include/utl/parser/csv_range.h"), ("file content into a buffer", "include/utl/parser/file.h")],
 ["rows delivered versus the table written to the file", "exceptions versus injected faults", "open handles and mappings"])
# ---- pure functions of their input: not simulation targets
prop("C28", "Naming a thread names that thread and no other",
 "A thread can be named at any moment by itself or through its handle by another thread, also while threads start and end and other threads are named at the same time. A name that the platform can hold is the thread's name when the call returns, until a later call replaces it; no other thread's name changes, and the call neither keeps nor changes the caller's string. A name that is too long, a refusal by the platform, or a thread that has ended already is no error for the program: at worst the thread keeps its old name or gets a shortened one.",
 ["schedules", "inputs", "fault_sequences"],
 "every interleaving of naming calls with each other and with the start and end of threads; names of any length; refused calls",
 "there is no test that names a thread; mixing up threads or names needs calls that overlap, and a failing call needs a platform that refuses it.",
 ["include/utl/set_thread_name.h", "include/utl/thread_pool.h"],
 [("name set through the platform", "include/utl/set_thread_name.h")],
 ["the name shown by the platform for every thread versus the history of naming calls"])
prop("C29", "Programs composed of the parts end with whole results, nothing left behind",
 "A program that imports several tables at once - reading rows from files, processing them in parallel loops or pools (also nested in each other), showing each import's progress, logging, timing, and writing result files - behaves as the sum of its parts under every schedule: each import either produces exactly the result of a sequential import or fails with the error of one of its bad rows (or of a refused system call or thread start), and every failure reaches the caller that the error strategy names; the progress of each stage arrives at its end, the screen shows the final state of every import, every log line is whole and stems from one statement, and when the program's objects are gone no thread, file, mapping, tracker or memory is left. A second attempt without failures gives the whole result.",
 ["schedules", "fault_sequences", "inputs"],
 "every interleaving of several imports, their workers and the shared display and log; every set of bad rows; refused system calls and thread starts; every combination of readers, loops and error strategies",
 "the tests exercise one part at a time; a lost error, a deadlock between display and workers, or a half-drawn screen needs several parts to overlap.",
 ["include/utl/parallel_for.h", "include/utl/thread_pool.h", "src/progress_tracker.cc", "include/utl/logging.h", "src/timer.cc", "include/utl/verify.h", "include/utl/parser", "include/utl/generator.h", "include/utl/raii.h", "include/utl/get_or_create.h"],
 [("loops that report progress", "include/utl/parallel_for.h"), ("trackers that redraw the display from any thread", "src/progress_tracker.cc"), ("readers that report progress", "include/utl/parser/buf_reader.h")],
 ["result files versus a sequential import", "errors versus bad rows and injected faults", "screen versus trackers", "log lines versus log statements", "threads, handles, mappings and memory after the end"])
prop("N01", "Joins, diffs and set intersections of sorted ranges are complete and exact",
 "For sorted inputs, inner, left and full joins call the match, left and right handlers exactly once for every group of equal keys with exactly the groups' ranges; the sorted diff reports exactly the additions, deletions and changes, in order; the intersection visits exactly the pairs of equivalent elements.",
 ["inputs"], "every pair of sorted ranges and comparison", "tests sample a few small ranges",
 ["include/utl/join.h", "include/utl/sorted_diff.h", "include/utl/power_set_intersection.h"], [("merge loops", "include/utl/join.h")])
prop("N02", "Zipped, enumerated and n-wise views visit exactly the underlying elements",
 "Zip, enumerate, pairwise and n-wise views visit each position of the underlying containers exactly once in order, by reference where the container is an lvalue, and zipping containers of different sizes is rejected.",
 ["inputs"], "every container content and size", "tests sample a few containers",
 ["include/utl/zip.h", "include/utl/enumerate.h", "include/utl/nwise.h", "include/utl/pairwise.h"], [("iterator adaptors", "include/utl/zip.h")])
prop("N03", "String views, tokens and lines partition the text they are given",
 "Sub-strings, trimming, tokenising and line iteration over a text view return views inside that text whose concatenation with the separators gives back the text, and never read outside it.",
 ["inputs"], "every text and separator", "tests sample a few strings",
 ["include/utl/parser/cstr.h"], [("length-bounded view operations", "include/utl/parser/cstr.h")])
prop("N04", "CSV parsing returns the fields that the text encodes",
 "Parsing CSV text yields one row per record and for each declared column the field that the record holds under that header, with quoting undone and numbers converted, in any column order and with either line ending.",
 ["inputs"], "every CSV text and column declaration", "tests sample a few documents",
 ["include/utl/parser/csv.h", "include/utl/parser/csv_range.h", "include/utl/parser/arg_parser.h", "include/utl/parser/split.h"], [("column scanner and header permutation", "include/utl/parser/csv.h")])
prop("N05", "Command lines and struct initialisation map values to the right fields",
 "Command-line parsing assigns each flag's value to its field and rejects a missing required flag; struct initialisation from a parameter pack fills each member from the source of its type or yields nothing.",
 ["inputs"], "every argument list and struct", "tests sample a few cases",
 ["include/utl/cmd_line_parser.h", "include/utl/init_from.h"], [("compile-time field iteration", "include/utl/cmd_line_parser.h")])
prop("N06", "Pipelines equal their eager definition",
 "A pipeline of range stages (transform, remove_if, unique, take_while, iota, avg, sum, count, max, find, collection into containers) gives the result of applying the stages one after the other to the whole sequence.",
 ["inputs", "programs"], "every finite source and chain of stages", "tests sample a few chains",
 ["include/utl/pipes"], [("range adaptors", "include/utl/pipes/make_range.h")])
prop("N07", "Container algorithms meet their definition",
 "Sorting by a key list, erasing elements or duplicates, sorted insertion, equal-range grouping, uniformity test, concatenation, conversion to vector or set, bit iteration and dynamic-type matching return exactly what their definition says for every input.",
 ["inputs"], "every container content", "tests sample a few containers or none",
 ["include/utl/sort_by.h", "include/utl/erase_duplicates.h", "include/utl/insert_sorted.h", "include/utl/equal_ranges.h", "include/utl/is_uniform.h", "include/utl/match.h", "include/utl/to_vec.h"], [("thin wrappers over standard algorithms", "include/utl/sort_by.h")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
