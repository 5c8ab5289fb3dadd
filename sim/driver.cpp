// Campaign driver: forks one process per simulated run, aggregates coverage.
#include "core_internal.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
using namespace sim;

static double wall() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
static std::string esc(const char *s) {
  std::string o;
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c > 126)
      o += ' ';
    else
      o += c;
  }
  return o;
}
typedef std::vector<std::pair<std::string, int64_t>> Over;
static RunResult *shared_result() {
  return (RunResult *)mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static int cpu_limit = 90;
static void fork_run(uint64_t seed, uint64_t run, RunResult *res, const Over &ov) {
  memset((void *)res, 0, sizeof *res);
  res->status = ST_INTERNAL;
  pid_t p = fork();
  if (p == 0) {
    rlimit rl{(rlim_t)cpu_limit, (rlim_t)cpu_limit + 5};
    setrlimit(RLIMIT_CPU, &rl);
    run_one(seed, run, res, ov);
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR)
    ;
  if (res->status == ST_INTERNAL && !res->msg[0]) {
    if (WIFSIGNALED(st))
      snprintf(res->msg, sizeof res->msg, "run process died of signal %d", WTERMSIG(st));
    else
      snprintf(res->msg, sizeof res->msg, "run process exited with %d", WEXITSTATUS(st));
  }
}
static const char *status_name(int s) {
  static const char *n[] = {"ok", "violation", "abort_ok", "crashed", "internal"};
  return n[s];
}
static void print_run(FILE *f, uint64_t seed, uint64_t run, const RunResult *r) {
  fprintf(f, "{\"seed\":%llu,\"run\":%llu,\"status\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\",\"plan_hash\":\"%016llx\",\"steps\":%llu,\"sim_us\":%llu,\"tasks\":%llu,\"items\":%llu,\"nops\":%u,\"knobs\":\"%s\",\"faults\":{",
          (unsigned long long)seed, (unsigned long long)run, status_name(r->status), esc(r->msg).c_str(), (unsigned long long)r->hash, (unsigned long long)r->plan_hash, (unsigned long long)r->steps, (unsigned long long)r->sim_us, (unsigned long long)r->tasks, (unsigned long long)r->items, r->nops, r->knobs);
  for (int i = 0; i < F_N; i++)
    fprintf(f, "%s\"%s\":%llu", i ? "," : "", fault_names[i], (unsigned long long)r->faults[i]);
  fprintf(f, "},\"counters\":{");
  for (uint32_t i = 0; i < r->ncounters; i++)
    fprintf(f, "%s\"%s\":%llu", i ? "," : "", r->counters[i].name, (unsigned long long)r->counters[i].n);
  fprintf(f, "}}\n");
}
struct WorkerStats {
  uint64_t runs, ok, aborted, crashed, viol, internal;
  uint64_t steps, sim_us, tasks, items;
  uint64_t faults[F_N], fault_runs[F_N];
  uint64_t nhash, nstate;
  uint32_t nc;
  struct {
    char name[40];
    uint64_t n, runs;
  } c[400];
  uint64_t rank_hist[16];
};
struct Shared {
  std::atomic<uint64_t> next, nviol, ninternal;
  WorkerStats w[64];
};
int main(int argc, char **argv) {
  // fixed address space
  const int pers = personality(0xffffffff);
  if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NO_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  // library behaviour must not depend on the caller's environment
  extern char **environ;
  std::vector<std::string> drop;
  for (char **e = environ; *e; e++)
    if (!strncmp(*e, "NESO", 4)) {
      std::string k(*e);
      drop.push_back(k.substr(0, k.find('=')));
    }
  for (auto &k : drop)
    unsetenv(k.c_str());
  std::string mode = argc > 1 ? argv[1] : "";
  uint64_t seed = 1, run = 0, start = 0, count = UINT64_MAX, maxviol = 8;
  double tlimit = 10;
  int jobs = 8;
  std::string out;
  Over ov;
  FILE *tf = nullptr;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() -> const char * {
      if (i + 1 >= argc) {
        fprintf(stderr, "missing value of %s\n", a.c_str());
        exit(2);
      }
      return argv[++i];
    };
    if (a == "--seed")
      seed = strtoull(nx(), nullptr, 10);
    else if (a == "--run")
      run = strtoull(nx(), nullptr, 10);
    else if (a == "--start")
      start = strtoull(nx(), nullptr, 10);
    else if (a == "--count")
      count = strtoull(nx(), nullptr, 10);
    else if (a == "--time")
      tlimit = atof(nx());
    else if (a == "--jobs")
      jobs = atoi(nx());
    else if (a == "--maxviol")
      maxviol = strtoull(nx(), nullptr, 10);
    else if (a == "--cpu")
      cpu_limit = atoi(nx());
    else if (a == "--out")
      out = nx();
    else if (a == "--trace")
      tf = fopen(nx(), "w");
    else if (a == "--set") {
      std::string kv = nx();
      auto q = kv.find('=');
      Knobs tmp;
      if (q == std::string::npos || !set_knob(tmp, kv.substr(0, q), 0)) {
        fprintf(stderr, "bad knob %s\n", kv.c_str());
        return 2;
      }
      ov.push_back({kv.substr(0, q), strtoll(kv.c_str() + q + 1, nullptr, 10)});
    } else if (a == "--skip") {
      std::string l = nx();
      for (size_t p = 0; p < l.size();) {
        skip_ops.push_back(atoi(l.c_str() + p));
        p = l.find(',', p);
        if (p == std::string::npos)
          break;
        p++;
      }
    } else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 2;
    }
  }
  arena_init();
  if (mode == "run") {
    set_trace(tf);
    RunResult *res = shared_result();
    fork_run(seed, run, res, ov);
    print_run(stdout, seed, run, res);
    return res->status == ST_VIOLATION ? 1 : res->status == ST_INTERNAL ? 2 : 0;
  }
  if (mode == "hashes") { // determinism probe: one line per run
    RunResult *res = shared_result();
    for (uint64_t r = start; r < start + count; r++) {
      fork_run(seed, r, res, ov);
      printf("%llu %016llx %llu %llu %d\n", (unsigned long long)r, (unsigned long long)res->hash, (unsigned long long)res->steps, (unsigned long long)res->sim_us, res->status);
    }
    return 0;
  }
  if (mode != "campaign") {
    fprintf(stderr, "usage: run|hashes|campaign ...\n");
    return 2;
  }
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const uint64_t HMAX = 1 << 21;
  uint64_t *hashes = (uint64_t *)mmap(nullptr, 2 * HMAX * 8 * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sh->next = start;
  const double t0 = wall();
  std::string vpath = out + ".viol";
  FILE *vf = fopen(vpath.c_str(), "w");
  fflush(nullptr);
  std::vector<pid_t> kids;
  for (int j = 0; j < jobs; j++) {
    pid_t p = fork();
    if (p == 0) {
      RunResult *res = shared_result();
      WorkerStats &w = sh->w[j];
      uint64_t *hh = hashes + (uint64_t)j * 2 * HMAX, *hs = hh + HMAX;
      while (wall() - t0 < tlimit && sh->nviol < maxviol && sh->ninternal < 5) {
        uint64_t r = sh->next++;
        if (r >= start + count || r < start)
          break;
        fork_run(seed, r, res, ov);
        w.runs++;
        switch (res->status) {
        case ST_OK: w.ok++; break;
        case ST_ABORT_OK: w.aborted++; break;
        case ST_CRASHED: w.crashed++; break;
        case ST_VIOLATION:
          w.viol++;
          sh->nviol++;
          break;
        default:
          w.internal++;
          sh->ninternal++;
        }
        if (res->status == ST_VIOLATION || res->status == ST_INTERNAL) {
          char *buf = nullptr;
          size_t sz = 0;
          FILE *ms = open_memstream(&buf, &sz);
          print_run(ms, seed, r, res);
          fclose(ms);
          if (write(fileno(vf), buf, sz) < 0)
            perror("write");
          free(buf);
        }
        w.steps += res->steps;
        w.sim_us += res->sim_us;
        w.tasks += res->tasks;
        w.items += res->items;
        for (int i = 0; i < F_N; i++) {
          w.faults[i] += res->faults[i];
          w.fault_runs[i] += res->faults[i] > 0;
        }
        if (w.nhash < HMAX)
          hh[w.nhash++] = res->hash;
        for (uint32_t i = 0; i < res->nstates && w.nstate < HMAX; i++)
          hs[w.nstate++] = res->states[i];
        for (uint32_t i = 0; i < res->ncounters; i++) {
          uint32_t k = 0;
          for (; k < w.nc; k++)
            if (!strcmp(w.c[k].name, res->counters[i].name))
              break;
          if (k == w.nc && w.nc < 400) {
            memcpy(w.c[k].name, res->counters[i].name, 40);
            w.nc++;
          }
          if (k < w.nc) {
            w.c[k].n += res->counters[i].n;
            w.c[k].runs++;
          }
        }
      }
      _exit(0);
    }
    kids.push_back(p);
  }
  for (auto p : kids) {
    int st;
    waitpid(p, &st, 0);
  }
  fclose(vf);
  const double el = wall() - t0;
  WorkerStats T;
  memset(&T, 0, sizeof T);
  std::vector<uint64_t> H, St;
  std::map<std::string, std::pair<uint64_t, uint64_t>> cn;
  for (int j = 0; j < jobs; j++) {
    WorkerStats &w = sh->w[j];
    T.runs += w.runs; T.ok += w.ok; T.aborted += w.aborted; T.crashed += w.crashed;
    T.viol += w.viol; T.internal += w.internal; T.steps += w.steps; T.sim_us += w.sim_us;
    T.tasks += w.tasks; T.items += w.items;
    for (int i = 0; i < F_N; i++) {
      T.faults[i] += w.faults[i];
      T.fault_runs[i] += w.fault_runs[i];
    }
    uint64_t *hh = hashes + (uint64_t)j * 2 * HMAX;
    H.insert(H.end(), hh, hh + w.nhash);
    St.insert(St.end(), hh + HMAX, hh + HMAX + w.nstate);
    for (uint32_t i = 0; i < w.nc; i++) {
      cn[w.c[i].name].first += w.c[i].n;
      cn[w.c[i].name].second += w.c[i].runs;
    }
  }
  std::sort(H.begin(), H.end());
  H.erase(std::unique(H.begin(), H.end()), H.end());
  std::sort(St.begin(), St.end());
  St.erase(std::unique(St.begin(), St.end()), St.end());
  FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(f, "{\"property\":\"%s\",\"seed\":%llu,\"runs\":%llu,\"ok\":%llu,\"aborted_acceptably\":%llu,\"crashed\":%llu,\"violations\":%llu,\"internal\":%llu,\"wall_s\":%.3f,\"steps\":%llu,\"sim_us\":%llu,\"tasks\":%llu,\"items\":%llu,\"distinct_interleavings\":%zu,\"distinct_states\":%zu,\"faults\":{",
          simwl::property_id, (unsigned long long)seed, (unsigned long long)T.runs, (unsigned long long)T.ok, (unsigned long long)T.aborted, (unsigned long long)T.crashed, (unsigned long long)T.viol, (unsigned long long)T.internal, el, (unsigned long long)T.steps, (unsigned long long)T.sim_us, (unsigned long long)T.tasks, (unsigned long long)T.items, H.size(), St.size());
  for (int i = 0; i < F_N; i++)
    fprintf(f, "%s\"%s\":[%llu,%llu]", i ? "," : "", fault_names[i], (unsigned long long)T.faults[i], (unsigned long long)T.fault_runs[i]);
  fprintf(f, "},\"counters\":{");
  bool first = true;
  for (auto &k : cn) {
    fprintf(f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", k.first.c_str(), (unsigned long long)k.second.first, (unsigned long long)k.second.second);
    first = false;
  }
  fprintf(f, "}}\n");
  if (!out.empty())
    fclose(f);
  return 0;
}
