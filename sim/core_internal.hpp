#pragma once
#include "simcore.hpp"
#include <cstdio>
#include <utility>
namespace sim {
static constexpr uint64_t ARENA_BASE = 0x100000000000ull;
static constexpr uint64_t REGION = 4ull << 30;
static constexpr uint64_t ARENA_SIZE = 3 * REGION;
static constexpr uint64_t SHADOW_BASE = 0x200000000000ull;
static constexpr uint64_t STACK_BASE = 0x300000000000ull;
static constexpr uint64_t HOST_STACK = 4ull << 20;
static constexpr uint64_t HOST_STACKS = 256ull << 20;
static constexpr uint64_t ITEM_STACK = 256ull << 10;
static constexpr uint64_t STACK_SIZE = 4ull << 30;

enum { ST_OK = 0, ST_VIOLATION = 1, ST_ABORT_OK = 2, ST_CRASHED = 3, ST_INTERNAL = 4 };
struct RunResult {
  static constexpr uint32_t MAXSTATES = 96, MAXCOUNTERS = 48;
  int status;
  int aborted;
  char msg[1024];
  char knobs[1600];
  uint64_t hash, plan_hash;
  uint64_t steps, sim_us, tasks, items;
  uint64_t faults[F_N];
  uint32_t nops;
  uint32_t nstates;
  uint64_t states[MAXSTATES];
  uint32_t ncounters;
  struct {
    char name[40];
    uint64_t n;
  } counters[MAXCOUNTERS];
};
extern RunResult *R;
extern int in_core;
enum { FK_HOST = 0, FK_ITEM = 1 };
enum { FS_RUNNABLE = 0, FS_BLOCKED, FS_DONE };
enum { TS_PENDING = 0, TS_ACTIVE, TS_DONE };
struct Group;
struct Fiber {
  void *sp = nullptr;
  char *stack = nullptr;
  size_t stack_sz = 0;
  void *eh_caught = nullptr;
  unsigned eh_uncaught = 0;
  int in_core_saved = 1;
  int kind = 0, state = 0, rank = -1;
  bool (*pred)(void *) = nullptr;
  void *pred_arg = nullptr;
  const char *what = nullptr;
  Task *task = nullptr;
  Group *group = nullptr;
  ItemCtx ctx;
  int li = 0;
  bool item_busy = false;
};
extern Fiber *cur;
struct Task {
  uint64_t id = 0;
  int queue = 0, state = 0, owner = -1;
  int refs = 0;
  bool needed = false;
  Submission s;
  std::vector<Task *> deps;
  size_t nitems = 0, ngroups = 0, group_items = 1, next_group = 0, finished = 0;
  size_t gstart = 0, gstride = 1;
  std::vector<Group *> active, group_pool;
  std::vector<Fiber *> runnable; // fibers that can continue
  size_t nfibers = 0;
};
void task_unref(Task *t);
const char *region_name(int);
void *arena_alloc(int region, size_t n, size_t align);
void arena_free(int region, void *p);
void arena_init();
void set_trace(FILE *f);
bool set_knob(Knobs &k, const std::string &n, int64_t v);
extern std::vector<int> skip_ops;
extern std::string (*deadlock_info)();
[[noreturn]] void finish_run(int status, const char *msg);
void mpi_setup(int nranks, int nnodes, int phase);
void mpi_check_clean();
void io_setup();
bool next_phase(int phase); // hdf5/crash phases: true = restart the ranks
void run_one(uint64_t seed, uint64_t run, RunResult *res,
             const std::vector<std::pair<std::string, int64_t>> &overrides);
} // namespace sim
