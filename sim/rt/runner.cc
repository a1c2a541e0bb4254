// Search over seeds, gating, minimisation and replay. Every run is a fork of
// this process, so it starts from the same memory image and dirties nothing.

#include "rt_int.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

using namespace rt;

namespace {

char const* const fault_names[] = {
    "spurious_wakeup", "weak_cas_failure", "thread_creation_failure",
    "stalled_thread", "allocation_failure", "open_error", "stat_error",
    "seek_error", "read_error", "short_read", "interrupted_read",
    "write_error", "short_write", "interrupted_write", "disk_full",
    "close_error", "mmap_error", "file_shrinks", "file_grows",
    "wall_clock_jump", "callback_exception", "consumer_abandons",
    "output_stream_error"};
static_assert(sizeof fault_names / sizeof *fault_names == sim::F_COUNT);

sim::scenario const* g_list;
std::size_t g_n;

volatile sig_atomic_t g_alarm;
pid_t g_child;

double now_s() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

void wipe_scratch() {
  DIR* d = opendir(g_cfg.scratch);
  if (!d) { return; }
  while (dirent* e = readdir(d)) {
    if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
      unlinkat(dirfd(d), e->d_name, 0);
    }
  }
  closedir(d);
  rmdir(g_cfg.scratch);
}

// 0 = finished by itself, 1 = died without a report
int run_one(sim::scenario const* s, std::uint64_t seed, bool replay,
            bool record, bool verbose) {
  g_cfg.seed = seed;
  g_cfg.replay = replay;
  g_cfg.record = record;
  g_cfg.verbose = verbose;
  strcpy(g_cfg.scratch, "s");
  g_sh->res.done = 0;
  fflush(nullptr);
  pid_t const p = fork();
  if (p < 0) {
    perror("fork");
    exit(2);
  }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rlimit const l{30, 40};
    setrlimit(RLIMIT_CPU, &l);
    rlimit const c{0, 0};
    setrlimit(RLIMIT_CORE, &c);
    alarm(0);
    signal(SIGALRM, SIG_DFL);
    int const n = open("/dev/null", O_WRONLY);
    if (!verbose) { dup2(n, 1); }
    dup2(n, 2);
    close(n);
    run_child(s);
  }
  g_child = p;
  alarm(180);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  alarm(0);
  wipe_scratch();
  if (g_sh->res.done) { return 0; }
  auto& r = g_sh->res;
  snprintf(r.cls, sizeof r.cls, "harness-died");
  snprintf(r.msg, sizeof r.msg, "the run died without a report (status 0x%x%s)",
           st, g_alarm ? ", stuck outside the simulator" : "");
  g_alarm = 0;
  r.hash = 0;
  return 1;
}

std::string esc(char const* s) {
  std::string o;
  for (; *s; ++s) {
    auto const c = static_cast<unsigned char>(*s);
    if (c == '"' || c == '\\') {
      o += '\\';
      o += *s;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += *s;
    }
  }
  return o;
}

struct tr {
  std::vector<std::uint64_t> w;
  std::vector<sdec> s;
  std::vector<fdec> f;
};

void load_in(tr const& t) {
  auto& in = g_sh->in;
  in.nw = t.w.size();
  in.ns = t.s.size();
  in.nf = t.f.size();
  memcpy(in.w, t.w.data(), t.w.size() * sizeof t.w[0]);
  memcpy(in.s, t.s.data(), t.s.size() * sizeof(sdec));
  memcpy(in.f, t.f.data(), t.f.size() * sizeof(fdec));
}
tr take_out() {
  auto& o = g_sh->out;
  tr t;
  t.w.assign(o.w, o.w + o.nw);
  t.s.assign(o.s, o.s + o.ns);
  t.f.assign(o.f, o.f + o.nf);
  return t;
}

void write_replay(char const* path, char const* prop, sim::scenario const* s,
                  std::uint64_t seed, tr const& t) {
  FILE* f = fopen(path, "w");
  if (!f) {
    perror(path);
    exit(2);
  }
  auto& r = g_sh->res;
  fprintf(f, "simreplay 1\nproperty %s\nscenario %s\nseed %lu\nclass %s\n"
             "hash %016lx\n",
          prop, s->name, seed, r.cls, r.hash);
  fprintf(f, "# %s\n", esc(r.msg).c_str());
  fprintf(f, "# workload decisions, in order\nW");
  for (auto x : t.w) { fprintf(f, " %lu", x); }
  fprintf(f, "\n# schedule: at scheduling point i run the k-th next runnable "
             "thread\nS");
  for (auto& x : t.s) { fprintf(f, " %lu:%u", x.idx, x.off); }
  fprintf(f, "\n# faults: fault point : kind : value\nF");
  for (auto& x : t.f) { fprintf(f, " %lu:%u:%lu", x.idx, x.kind, x.val); }
  fprintf(f, "\n");
  for (auto& x : t.f) {
    fprintf(f, "# fault point %lu: %s\n", x.idx, fault_names[x.kind]);
  }
  fclose(f);
}

sim::scenario const* by_name(char const* n) {
  for (std::size_t i = 0; i < g_n; ++i) {
    if (strcmp(g_list[i].name, n) == 0) { return &g_list[i]; }
  }
  fprintf(stderr, "no scenario %s\n", n);
  exit(2);
}

struct found {
  std::uint64_t index;
  std::uint64_t seed;
  std::uint32_t scn;
  char cls[64];
};
struct common {
  std::uint64_t best;  // lowest index with a violation
  std::uint32_t broken;
  found f[64];
};

struct stats {
  std::uint64_t runs{}, steps{}, vtime{}, switches{}, threads{}, jumps{};
  std::uint64_t runs_with_faults{}, fault_points{}, det_checked{};
  std::uint64_t faults[sim::F_COUNT]{};
  std::map<std::string, std::uint64_t> probes;
  std::map<std::string, std::uint64_t> per_scn;
  std::unordered_set<std::uint64_t> dist, nontriv;
  std::vector<std::string> samples;
};

std::uint64_t seed_of(std::uint64_t base, std::uint64_t i) {
  return mix(mix(0x5eed, base), i);
}

// ---- minimisation -----------------------------------------------------------
struct minimiser {
  sim::scenario const* s;
  std::string cls;
  tr best;
  double until;
  unsigned tries{0};

  bool test(tr const& t) {
    if (now_s() > until || tries > 6000) { return false; }
    ++tries;
    load_in(t);
    run_one(s, 0, true, true, false);
    if (cls != g_sh->res.cls) { return false; }
    tr o = take_out();
    // the recorded run may have used less than it was given
    if (o.s.size() > t.s.size() || o.f.size() > t.f.size()) { o = t; }
    while (!o.w.empty() && o.w.back() == 0) { o.w.pop_back(); }
    best = o;
    return true;
  }

  template <typename V>
  bool ddmin(V tr::*m) {
    bool any = false;
    if ((best.*m).empty()) { return false; }
    {
      tr t = best;
      (t.*m).clear();
      if (test(t)) { return true; }
    }
    std::size_t chunk = ((best.*m).size() + 1) / 2;
    for (;;) {
      bool hit = false;
      for (std::size_t i = 0; i < (best.*m).size();) {
        if (now_s() > until) { return any; }
        tr t = best;
        auto b = (t.*m).begin() + static_cast<std::ptrdiff_t>(i);
        auto e = (t.*m).size() - i < chunk
                     ? (t.*m).end()
                     : b + static_cast<std::ptrdiff_t>(chunk);
        (t.*m).erase(b, e);
        if (test(t)) { hit = any = true; } else { i += chunk; }
      }
      if (chunk == 1) {
        if (!hit) { return any; }
      } else {
        chunk = (chunk + 1) / 2;
      }
    }
  }

  bool shrink_w() {
    bool any = false;
    // truncate
    for (std::size_t keep = 0; keep < best.w.size();
         keep = keep * 2 + 1) {
      tr t = best;
      t.w.resize(keep);
      if (test(t)) { any = true; break; }
      if (now_s() > until) { return any; }
    }
    // drop single decisions, then lower them
    for (std::size_t i = best.w.size(); i-- > 0;) {
      if (i >= best.w.size()) { continue; }
      if (now_s() > until) { return any; }
      tr t = best;
      t.w.erase(t.w.begin() + static_cast<std::ptrdiff_t>(i));
      if (test(t)) { any = true; continue; }
    }
    for (std::size_t i = 0; i < best.w.size(); ++i) {
      std::uint64_t lo = 0;
      while (i < best.w.size() && best.w[i] > lo) {
        if (now_s() > until) { return any; }
        tr t = best;
        std::uint64_t const was = best.w[i];
        t.w[i] = lo;
        if (test(t)) {
          any = true;
          if (i >= best.w.size() || best.w[i] >= was) { break; }
          continue;
        }
        lo = lo + (was - lo + 1) / 2;
        if (lo >= was) { break; }
      }
    }
    return any;
  }

  void go() {
    for (int round = 0; round < 6; ++round) {
      bool c = false;
      c |= ddmin(&tr::s);
      c |= ddmin(&tr::f);
      c |= shrink_w();
      if (!c || now_s() > until) { break; }
    }
  }
};

int do_search(char const* prop, std::uint64_t base, std::uint64_t runs,
              double secs, int jobs, char const* out, char const* replay_path,
              double min_secs) {
  auto* cm = static_cast<common*>(mmap(nullptr, sizeof(common),
                                       PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  cm->best = NEVER;
  double const t0 = now_s();
  std::vector<pid_t> kids;
  cpu_set_t avail;
  CPU_ZERO(&avail);
  sched_getaffinity(0, sizeof avail, &avail);
  std::vector<int> cpus;
  for (int i = 0; i < CPU_SETSIZE; ++i) {
    if (CPU_ISSET(i, &avail)) { cpus.push_back(i); }
  }
  if (jobs <= 0) { jobs = static_cast<int>(cpus.size()); }
  for (int k = 0; k < jobs; ++k) {
    fflush(nullptr);
    pid_t const p = fork();
    if (p != 0) {
      kids.push_back(p);
      continue;
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    cpu_set_t cs;
    CPU_ZERO(&cs);
    CPU_SET(cpus[static_cast<std::size_t>(k) % cpus.size()], &cs);
    sched_setaffinity(0, sizeof cs, &cs);
    // every worker has decision buffers of its own
    g_sh = static_cast<shared*>(mmap(nullptr, sizeof(shared),
                                     PROT_READ | PROT_WRITE,
                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    char dir[32];
    snprintf(dir, sizeof dir, "w%d", k);
    mkdir(dir, 0700);
    if (chdir(dir) != 0) { _exit(2); }
    stats a;
    for (std::uint64_t i = static_cast<std::uint64_t>(k); i < runs;
         i += static_cast<std::uint64_t>(jobs)) {
      if (i > __atomic_load_n(&cm->best, __ATOMIC_SEQ_CST)) { break; }
      if (now_s() - t0 > secs) { break; }
      std::uint64_t const sd = seed_of(base, i);
      auto const sc = static_cast<std::uint32_t>((sd >> 17) % g_n);
      run_one(&g_list[sc], sd, false, false, false);
      auto& r = g_sh->res;
      ++a.runs;
      ++a.per_scn[g_list[sc].name];
      a.steps += r.steps;
      a.vtime += r.vtime - 1000000000ULL;
      a.switches += r.switches;
      a.threads += r.threads;
      a.jumps += r.wall_jump;
      a.fault_points += r.fault_points;
      std::uint64_t nf = 0;
      for (unsigned j = 0; j < sim::F_COUNT; ++j) {
        a.faults[j] += r.faults[j];
        nf += r.faults[j];
      }
      a.runs_with_faults += nf > 0;
      for (unsigned j = 0; j < r.nprobes; ++j) {
        a.probes[r.probes[j].name] += r.probes[j].n;
      }
      a.dist.insert(mix(r.sync_hash, sc));
      if (r.switches > 1 || nf > 0) { a.nontriv.insert(mix(r.sync_hash, sc)); }
      if (r.sample[0] && a.samples.size() < 3 &&
          (a.samples.empty() || nf > 0 || i > runs / 4)) {
        r.sample[sizeof r.sample - 1] = 0;
        a.samples.push_back(std::string(g_list[sc].name) + ": " + r.sample);
      }
      if (r.cls[0]) {
        for (;;) {
          std::uint64_t b = __atomic_load_n(&cm->best, __ATOMIC_SEQ_CST);
          if (b <= i || __atomic_compare_exchange_n(&cm->best, &b, i, false, 5,
                                                    5)) {
            break;
          }
        }
        found& f = cm->f[k % 64];
        f.index = i;
        f.seed = sd;
        f.scn = sc;
        strcpy(f.cls, r.cls);
        break;
      }
      // a sample of the runs is executed twice and must be identical
      if (i % 97 < 2) {
        std::uint64_t const h = r.hash, steps = r.steps;
        run_one(&g_list[sc], sd, false, false, false);
        ++a.det_checked;
        if (r.hash != h) {
          fprintf(stderr, "NONDETERMINISM scenario %s seed %lu run %lu: %016lx after %lu steps, then %016lx after %lu%s%s %s\n",
                  g_list[sc].name, sd, i, h, steps, r.hash, r.steps, r.cls[0] ? ": " : "", r.cls, r.cls[0] ? r.msg : "");
          cm->broken = 1;
          break;
        }
      }
    }
    if (chdir("..") != 0) { _exit(2); }
    rmdir(dir);
    char fn[64];
    snprintf(fn, sizeof fn, "stat%d", k);
    FILE* f = fopen(fn, "w");
    fprintf(f, "{\"runs\":%lu,\"steps\":%lu,\"vtime\":%lu,\"switches\":%lu,"
               "\"threads\":%lu,\"jumps\":%lu,\"fault_points\":%lu,"
               "\"runs_with_faults\":%lu,\"det_checked\":%lu,\"faults\":{",
            a.runs, a.steps, a.vtime, a.switches, a.threads, a.jumps,
            a.fault_points, a.runs_with_faults, a.det_checked);
    bool first = true;
    for (unsigned j = 0; j < sim::F_COUNT; ++j) {
      if (a.faults[j] == 0) { continue; }
      fprintf(f, "%s\"%s\":%lu", first ? "" : ",", fault_names[j], a.faults[j]);
      first = false;
    }
    fprintf(f, "},\"probes\":{");
    first = true;
    for (auto& [n, c] : a.probes) {
      fprintf(f, "%s\"%s\":%lu", first ? "" : ",", esc(n.c_str()).c_str(), c);
      first = false;
    }
    fprintf(f, "},\"scenarios\":{");
    first = true;
    for (auto& [n, c] : a.per_scn) {
      fprintf(f, "%s\"%s\":%lu", first ? "" : ",", n.c_str(), c);
      first = false;
    }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& s : a.samples) {
      fprintf(f, "%s\"%s\"", first ? "" : ",", esc(s.c_str()).c_str());
      first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
    for (int z = 0; z < 2; ++z) {
      snprintf(fn, sizeof fn, "%s%d", z ? "nontriv" : "dist", k);
      f = fopen(fn, "wb");
      for (auto h : z ? a.nontriv : a.dist) { fwrite(&h, 8, 1, f); }
      fclose(f);
    }
    _exit(0);
  }
  bool bad = false;
  for (pid_t p : kids) {
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (st != 0) { bad = true; }
  }
  double const t1 = now_s();
  if (bad || cm->broken) {
    fprintf(stderr, "a search worker failed\n");
    return 2;
  }
  FILE* o = fopen(out, "w");
  fprintf(o, "{\"search_s\":%.3f,\"jobs\":%d}\n", t1 - t0, jobs);
  fclose(o);
  if (cm->best == NEVER) { return 0; }
  found hit{};
  for (auto& f : cm->f) {
    if (f.cls[0] && f.index == cm->best) { hit = f; }
  }
  sim::scenario const* s = &g_list[hit.scn];
  auto& r = g_sh->res;
  std::uint64_t hash = 0;
  bool const by_class_only = strcmp(hit.cls, "hang") == 0;
  tr full;
  for (int k = 0; k < 2; ++k) {
    run_one(s, hit.seed, false, true, false);
    if (strcmp(r.cls, hit.cls) != 0 ||
        (k == 1 && r.hash != hash && !by_class_only)) {
      fprintf(stderr, "NOT REPRODUCIBLE: seed %lu scenario %s: %s / %s: %s\n",
              hit.seed, s->name, hit.cls, r.cls, r.msg);
      return 2;
    }
    hash = r.hash;
    full = take_out();
  }
  fprintf(stderr, "run %lu seed %lu scenario %s: %s: %s\n", hit.index, hit.seed,
          s->name, r.cls, r.msg);
  if (strncmp(hit.cls, "harness", 7) == 0) { return 2; }
  bool const overflow = g_sh->out.overflow != 0;
  if (overflow) {
    fprintf(stderr, "decision trace too long\n");
    return 2;
  }
  minimiser m{s, hit.cls, full, now_s() + min_secs};
  load_in(full);
  run_one(s, 0, true, true, false);
  if (strcmp(r.cls, hit.cls) != 0 || (r.hash != hash && !by_class_only)) {
    fprintf(stderr, "REPLAY DIFFERS: %s / %s %s\n", hit.cls, r.cls, r.msg);
    return 2;
  }
  m.go();
  load_in(m.best);
  run_one(s, 0, true, true, false);
  if (strcmp(r.cls, hit.cls) != 0) {
    fprintf(stderr, "MINIMISED RUN DIFFERS: %s / %s\n", hit.cls, r.cls);
    return 2;
  }
  fprintf(stderr,
          "minimised: workload %zu -> %zu, schedule %zu -> %zu, faults %zu -> "
          "%zu (%u runs)\n%s: %s\n",
          full.w.size(), m.best.w.size(), full.s.size(), m.best.s.size(),
          full.f.size(), m.best.f.size(), m.tries, r.cls, r.msg);
  write_replay(replay_path, prop, s, hit.seed, m.best);
  return 1;
}

int do_replay(char const* path, bool verbose) {
  FILE* f = fopen(path, "r");
  if (!f) {
    perror(path);
    return 2;
  }
  tr t;
  char* line = nullptr;
  size_t cap = 0;
  std::string cls, scn, prop;
  std::uint64_t hash = 0;
  while (getline(&line, &cap, f) > 0) {
    std::string l = line;
    while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) { l.pop_back(); }
    if (l.rfind("class ", 0) == 0) { cls = l.substr(6); }
    if (l.rfind("scenario ", 0) == 0) { scn = l.substr(9); }
    if (l.rfind("property ", 0) == 0) { prop = l.substr(9); }
    if (l.rfind("hash ", 0) == 0) { hash = strtoull(l.c_str() + 5, nullptr, 16); }
    char* p = line + 1;
    if (line[0] == 'W') {
      for (char* e;; p = e) {
        std::uint64_t const v = strtoull(p, &e, 10);
        if (e == p) { break; }
        t.w.push_back(v);
      }
    }
    if (line[0] == 'S') {
      for (char* e;; p = e) {
        std::uint64_t const v = strtoull(p, &e, 10);
        if (e == p) { break; }
        t.s.push_back({v, static_cast<std::uint32_t>(strtoul(e + 1, &e, 10)), 0});
      }
    }
    if (line[0] == 'F') {
      for (char* e;; p = e) {
        std::uint64_t const v = strtoull(p, &e, 10);
        if (e == p) { break; }
        auto const k = static_cast<std::uint32_t>(strtoul(e + 1, &e, 10));
        std::uint64_t const x = strtoull(e + 1, &e, 10);
        t.f.push_back({v, x, k, 0});
      }
    }
  }
  free(line);
  fclose(f);
  load_in(t);
  run_one(by_name(scn.c_str()), 0, true, false, verbose);
  auto& r = g_sh->res;
  printf("%s: %s\n", r.cls[0] ? r.cls : "no violation", r.msg);
  bool const same = cls == r.cls && (cls == "hang" || hash == r.hash);
  printf("%s\n", same ? "REPRODUCED" : "DIFFERENT");
  if (same) { return 1; }
  return r.cls[0] ? 3 : 0;
}

}  // namespace

int sim::sim_main(int argc, char** argv, scenario const* list, std::size_t n) {
  // identical address space layout in every process
  if (!getenv("SIM_NO_ASLR")) {
    int const cur_p = personality(0xffffffff);
    if (cur_p >= 0 && !(cur_p & ADDR_NO_RANDOMIZE)) {
      if (personality(static_cast<unsigned long>(cur_p) | ADDR_NO_RANDOMIZE) >= 0) {
        setenv("SIM_NO_ASLR", "1", 1);
        execv("/proc/self/exe", argv);
      }
    }
  }
  setenv("TZ", "UTC", 1);
  g_list = list;
  g_n = n;
  rt_init();
  struct sigaction sa {};
  sa.sa_handler = [](int) {
    g_alarm = 1;
    if (g_child > 0) { kill(g_child, SIGKILL); }
  };
  sigaction(SIGALRM, &sa, nullptr);
  auto arg = [&](char const* name, char const* dflt) -> char const* {
    for (int i = 2; i + 1 < argc; ++i) {
      if (strcmp(argv[i], name) == 0) { return argv[i + 1]; }
    }
    return dflt;
  };
  std::string const mode = argc > 1 ? argv[1] : "";
  if (mode == "search") {
    return do_search(arg("--prop", "?"), strtoull(arg("--seed", "1"), nullptr, 10),
                     strtoull(arg("--runs", "1000"), nullptr, 10),
                     atof(arg("--secs", "1e9")), atoi(arg("--jobs", "0")),
                     arg("--out", "search.json"),
                     arg("--replay", "replay.txt"),
                     atof(arg("--min-secs", "30")));
  }
  if (mode == "replay" && argc > 2) {
    return do_replay(argv[2], argc > 3 && strcmp(argv[3], "-v") == 0);
  }
  if (mode == "one") {  // one run of a search, with its events
    std::uint64_t const i = strtoull(arg("--index", "0"), nullptr, 10);
    std::uint64_t const b = strtoull(arg("--seed", "1"), nullptr, 10);
    char const* sn = arg("--scenario", nullptr);
    auto const* s = sn ? by_name(sn) : &g_list[(seed_of(b, i) >> 17) % g_n];
    run_one(s, seed_of(b, i), false, false, true);
    auto& r = g_sh->res;
    printf("scenario %s: %s %s\nhash %016lx steps %lu switches %lu\n", s->name,
           r.cls[0] ? r.cls : "ok", r.msg, r.hash, r.steps, r.switches);
    return r.cls[0] ? 1 : 0;
  }
  if (mode == "hashes") {  // for determinism tests: one line per run
    std::uint64_t const a = strtoull(arg("--from", "0"), nullptr, 10);
    std::uint64_t const e = strtoull(arg("--to", "100"), nullptr, 10);
    std::uint64_t const b = strtoull(arg("--seed", "1"), nullptr, 10);
    for (std::uint64_t i = a; i < e; ++i) {
      run_one(&g_list[(seed_of(b, i) >> 17) % g_n], seed_of(b, i), false, false, false);
      auto& r = g_sh->res;
      printf("%lu %016lx %lu %s\n", i, r.hash, r.steps, r.cls);
    }
    return 0;
  }
  fprintf(stderr, "usage: %s search|replay|one|hashes ...\n", argv[0]);
  return 2;
}
