// Deterministic simulation core: PRNG streams, fibers, scheduler, simulated
// device (task graph, work-groups, work-items), checked memory arenas, clock.
// Compiled without instrumentation.
#include "core_internal.hpp"
#include <cassert>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <iostream>
#include <map>
#include <random>
#include <streambuf>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>

extern "C" void sim_switch(void **save_sp, void *load_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

namespace sim {
void mpi_usage(int64_t &comms, int64_t &wins);
int64_t h5_usage();

Knobs K;
RunResult *R = nullptr; // shared with the parent
int in_core = 1;
static constexpr int64_t RUNAWAY = 1500000000;
int64_t countdown = RUNAWAY;
static uint64_t base_seed = 0;

const char *fault_names[F_N] = {
    "task_deferred",     "task_reordered",    "task_overlap",
    "kernel_preempted",  "items_permuted",    "garbage_memory",
    "message_delayed",   "message_reordered", "send_rendezvous",
    "buffer_late",       "collective_synced", "collective_early",
    "rank_stalled",      "rma_deferred",      "reduction_permuted",
    "alloc_failed",      "io_error",          "io_short_write",
    "crash",             "clock_jump",        "multi_node",        "ranks_renumbered",  "part_of_the_job",
    "small_device"};

CoreGuard::CoreGuard() { in_core++; }
CoreGuard::~CoreGuard() { in_core--; }

// ------------------------------------------------------------------ PRNG ---
struct Xo {
  uint64_t s[4];
};
static Xo streams[S_N];
static inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
void seed_streams(uint64_t seed, uint64_t run) {
  base_seed = seed;
  for (int i = 0; i < S_N; i++) {
    uint64_t x = seed * 0x9e3779b97f4a7c15ull + run * 0xd1342543de82ef95ull +
                 (uint64_t)(i + 1) * 0x2545f4914f6cdd1dull;
    for (auto &w : streams[i].s)
      w = splitmix(x);
  }
}
uint64_t rnd(Stream st) {
  auto &s = streams[st].s;
  const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0];
  s[3] ^= s[1];
  s[1] ^= s[2];
  s[0] ^= s[3];
  s[2] ^= t;
  s[3] = rotl(s[3], 45);
  return r;
}
uint64_t rnd_below(Stream s, uint64_t n) {
  if (n <= 1)
    return 0;
  return (uint64_t)(((unsigned __int128)rnd(s) * n) >> 64);
}
int64_t rnd_range(Stream s, int64_t lo, int64_t hi) {
  return lo + (int64_t)rnd_below(s, (uint64_t)(hi - lo + 1));
}
bool chance(Stream s, int pc) {
  if (pc <= 0)
    return false;
  return (int)rnd_below(s, 100) < pc;
}
double rnd_unit(Stream s) { return (rnd(s) >> 11) * 0x1.0p-53; }

// schedule choices obey sched_limit (used by the minimiser)
static uint64_t sched_choices = 0;
static inline uint64_t sched_pick(uint64_t n) {
  if (n <= 1)
    return 0;
  uint64_t v = rnd_below(S_SCHED, n);
  if (K.sched_limit > 0 && (int64_t)++sched_choices > K.sched_limit)
    return 0;
  return v;
}

// ---------------------------------------------------------------- results --
void fault(Fault f, uint64_t n) { R->faults[f] += n; }
void note_hash(uint64_t v) {
  uint64_t h = R->hash ^ v;
  h *= 0x9fb21c651e98df25ull;
  h ^= h >> 35;
  R->hash = h;
}
void state_hash(uint64_t v) {
  if (R->nstates < RunResult::MAXSTATES) {
    for (uint32_t i = 0; i < R->nstates; i++)
      if (R->states[i] == v)
        return;
    R->states[R->nstates++] = v;
  }
}
void counter(const char *name, uint64_t n) {
  CoreGuard g;
  for (uint32_t i = 0; i < R->ncounters; i++)
    if (!strcmp(R->counters[i].name, name)) {
      R->counters[i].n += n;
      return;
    }
  if (R->ncounters < RunResult::MAXCOUNTERS) {
    auto &c = R->counters[R->ncounters++];
    snprintf(c.name, sizeof c.name, "%s", name);
    c.n = n;
  }
}
std::vector<int> skip_ops;
bool op_enabled(int i) {
  for (int x : skip_ops)
    if (x == i)
      return false;
  return true;
}
static bool trace_on = false;
static FILE *trace_file = nullptr;
void set_trace(FILE *f) {
  trace_file = f;
  trace_on = f != nullptr;
}
void trace(const char *fmt, ...) {
  if (!trace_on)
    return;
  CoreGuard g;
  va_list ap;
  va_start(ap, fmt);
  fprintf(trace_file, "[t=%llu step=%llu rank=%d] ", (unsigned long long)now_us(),
          (unsigned long long)steps(), rank());
  vfprintf(trace_file, fmt, ap);
  fputc('\n', trace_file);
  fflush(trace_file);
  va_end(ap);
}
void op_begin(int i, const char *name) {
  note_hash(0x5151 + i);
  if (R->nops < (uint32_t)i + 1)
    R->nops = i + 1;
  trace("op %d %s", i, name);
}

static std::string *cerr_buf = nullptr;
struct CapBuf : std::streambuf {
  int overflow(int c) override {
    if (c != EOF && cerr_buf) {
      CoreGuard g;
      if (cerr_buf->size() > 8192)
        cerr_buf->erase(0, 4096);
      cerr_buf->push_back((char)c);
    }
    return c;
  }
};
struct NullBuf : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
};
const char *captured_stderr() { return cerr_buf->c_str(); }

[[noreturn]] void finish_run(int status, const char *msg) {
  in_core++;
  R->status = status;
  if (msg)
    snprintf(R->msg, sizeof R->msg, "%s", msg);
  R->sim_us = now_us();
  R->steps = steps();
  if (trace_file) {
    fprintf(trace_file, "run ends: status=%d %s\n", status, msg ? msg : "");
    fflush(trace_file);
  }
  _exit(0);
}
const char *(*violation_filter)(const char *msg, bool oracle) = nullptr;
uint64_t fault_count(Fault f) { return R->faults[f]; }
[[noreturn]] static void judged_violation(const char *b, bool oracle) {
  const char *q = violation_filter ? violation_filter(b, oracle) : nullptr;
  if (!q)
    finish_run(ST_VIOLATION, b);
  counter(q);
  trace("run ended (%s): %s", q, b);
  finish_run(ST_ABORT_OK, b);
}
[[noreturn]] void violation(const char *fmt, ...) {
  in_core++;
  char b[900];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  judged_violation(b, false);
}
[[noreturn]] void oracle_violation(const char *fmt, ...) {
  in_core++;
  char b[900];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  judged_violation(b, true);
}
[[noreturn]] void stop_run() { finish_run(ST_CRASHED, "simulated crash"); }
[[noreturn]] void aborted(const char *why) {
  in_core++;
  char b[1200];
  std::string c = cerr_buf ? *cerr_buf : "";
  if (c.size() > 700)
    c = c.substr(c.size() - 700);
  for (auto &ch : c)
    if (ch == '\n')
      ch = ' ';
  snprintf(b, sizeof b, "%s: %s", why, c.c_str());
  R->aborted = 1;
  const char *j = simwl::judge_abort(b);
  if (j) {
    char m[1000];
    snprintf(m, sizeof m, "%s [%.800s]", j, b);
    finish_run(ST_VIOLATION, m);
  }
  finish_run(ST_ABORT_OK, b);
}

// ------------------------------------------------------------------ arena --
static unsigned char *const SH = (unsigned char *)SHADOW_BASE;
static uint64_t bump[3];
struct Hdr {
  uint64_t n;
  uint32_t magic;
  uint32_t kind;
};
static constexpr uint32_t MAGIC = 0x51a110c8, MAGIC_FREED = 0xdeadf4ee;
struct FreeList {
  std::vector<char *> v;
  size_t head = 0;
};
static std::unordered_map<uint64_t, FreeList> *freel = nullptr;
static uint64_t live_allocs = 0;
static uint64_t dev_alloc_count = 0;

struct UsmRec {
  int rank;
  bool device;
  int64_t n;
};
static std::unordered_map<void *, UsmRec> *usm_owner = nullptr;
void arena_init() {
  void *p = mmap((void *)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                 -1, 0);
  if (p != (void *)ARENA_BASE) {
    perror("arena");
    _exit(3);
  }
  p = mmap((void *)SHADOW_BASE, ARENA_SIZE >> 3, PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1,
           0);
  if (p != (void *)SHADOW_BASE) {
    perror("shadow");
    _exit(3);
  }
  p = mmap((void *)STACK_BASE, STACK_SIZE, PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1,
           0);
  if (p != (void *)STACK_BASE) {
    perror("stacks");
    _exit(3);
  }
  for (int i = 0; i < 3; i++)
    bump[i] = ARENA_BASE + REGION * i + 4096;
  freel = new std::unordered_map<uint64_t, FreeList>[3];
  usm_owner = new std::unordered_map<void *, UsmRec>();
  cerr_buf = new std::string();
}
static inline void shadow_set(uint64_t a, size_t n) {
  unsigned char *s = SH + ((a - ARENA_BASE) >> 3);
  memset(s, 8, n >> 3);
  if (n & 7)
    s[n >> 3] = n & 7;
}
static inline void poison_fill(void *p, size_t n) {
  switch (K.poison) {
  case 0:
    memset(p, 0, n);
    return;
  case 1:
    memset(p, 0xff, n);
    break;
  case 2:
    memset(p, 0xa5, n);
    break;
  default: {
    uint64_t x = rnd(S_MEM);
    char *c = (char *)p;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      memcpy(c + i, &x, 8);
    }
    for (; i < n; i++)
      c[i] = (char)(x >> (8 * (i & 7)));
  }
  }
  fault(F_GARBAGE_MEM);
}
// Sizes that share freed memory; big blocks are rounded up so that growing buffers are reused.
static inline uint64_t size_class(uint64_t n) {
  uint64_t t = ((n + 15) & ~15ull) + 16;
  if (t > 65536) {
    const uint64_t q = 1ull << (60 - __builtin_clzll(t));
    t = (t + q - 1) & ~(q - 1);
  }
  return t;
}
void *arena_alloc(int region, size_t n, size_t align) {
  if (align < 16)
    align = 16;
  const uint64_t total = size_class(n);
  char *user = nullptr;
  if (align == 16) {
    auto &fl = freel[region][total];
    if (fl.v.size() - fl.head > (total > 65536 ? 2u : 12u)) {
      user = fl.v[fl.head++];
      if (fl.head > 64) {
        fl.v.erase(fl.v.begin(), fl.v.begin() + fl.head);
        fl.head = 0;
      }
    }
  }
  if (!user) {
    uint64_t a = bump[region] + sizeof(Hdr);
    a = (a + align - 1) & ~(align - 1);
    user = (char *)a;
    bump[region] = a + total - 16 + 16;
    if (bump[region] > ARENA_BASE + REGION * (region + 1) - (1 << 20))
      violation("simulated memory region %d exhausted", region);
  }
  Hdr *h = (Hdr *)(user - sizeof(Hdr));
  h->n = n;
  h->magic = MAGIC;
  h->kind = align == 16 ? 0 : 1;
  shadow_set((uint64_t)user, n);
  poison_fill(user, n);
  live_allocs++;
  return user;
}
void arena_free(int region, void *p) {
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
  if (h->magic != MAGIC) {
    if (h->magic == MAGIC_FREED)
      violation("double free of %s memory", region_name(region));
    violation("invalid free of %s memory", region_name(region));
  }
  h->magic = MAGIC_FREED;
  const size_t n = h->n;
  if (K.poison)
    memset(p, 0xdd, n);
  memset(SH + (((uint64_t)p - ARENA_BASE) >> 3), 0xF0, (n + 7) >> 3);
  live_allocs--;
  if (h->kind == 0)
    freel[region][size_class(n)].v.push_back((char *)p);
}
const char *region_name(int r) {
  return r == 0 ? "host" : r == 1 ? "device" : r == 2 ? "host-USM" : "stack";
}
uint64_t heap_live() { return live_allocs; }

bool is_device_ptr(const void *p) {
  uint64_t o = (uint64_t)p - ARENA_BASE;
  return o < ARENA_SIZE && (o / REGION) == 1;
}
[[noreturn]] static void bad_access(uint64_t a, size_t n, bool w, const char *what) {
  in_core++;
  uint64_t o = a - ARENA_BASE;
  int reg = o < ARENA_SIZE ? (int)(o / REGION) : 3;
  unsigned char v = o < ARENA_SIZE ? SH[o >> 3] : 0;
  if (reg < 3 && v <= 8 && (o & 7) + (n > 8 ? 8 : n) <= v)
    v = SH[((a + n - 1) - ARENA_BASE) >> 3]; // the end of the range is bad
  violation("memory: %s %s of %zu bytes touches %s memory that is %s", what,
            w ? "write" : "read", n, region_name(reg),
            v == 0xF0 ? "already freed" : "outside any allocation");
}
static inline void check_small(uint64_t a, size_t n, bool w) {
  const uint64_t o = a - ARENA_BASE;
  const int reg = (int)(o / REGION);
  const bool dev = cur && cur->kind == FK_ITEM;
  if (K.discrete) {
    if (dev && reg == 0)
      violation("memory: kernel %s of ordinary host memory (%zu bytes)", w ? "write" : "read", n);
    if (!dev && reg == 1)
      violation("memory: host %s of device memory (%zu bytes)", w ? "write" : "read", n);
  }
  const unsigned char v = SH[o >> 3];
  if (__builtin_expect(!(v <= 8 && (o & 7) + n <= v), 0)) {
    if (n <= 8 && (o & 7) + n > 8) { // straddles
      check_range((void *)a, n, w, !dev, dev ? "kernel" : "host");
      return;
    }
    bad_access(a, n, w, dev ? "kernel" : "host");
  }
}
void check_range(const void *p, size_t n, bool w, bool host, const char *what) {
  if (!n)
    return;
  const uint64_t a = (uint64_t)p, o = a - ARENA_BASE;
  if (o >= ARENA_SIZE) {
    if (a < 4096)
      violation("memory: %s %s through a null pointer (%zu bytes)", what, w ? "write" : "read", n);
    return;
  }
  const int reg = (int)(o / REGION);
  if (host && K.discrete && reg == 1)
    violation("memory: %s %s of device memory (%zu bytes)", what, w ? "write" : "read", n);
  if (o + n > ARENA_SIZE)
    bad_access(a, n, w, what);
  uint64_t i = o, e = o + n;
  while (i < e) {
    const unsigned char v = SH[i >> 3];
    const uint64_t take = std::min<uint64_t>(8 - (i & 7), e - i);
    if (!(v <= 8 && (i & 7) + take <= v))
      bad_access(a, n, w, what);
    i += take;
  }
}

static void preempt_now();
static void do_preempt();
static inline __attribute__((always_inline)) void hook(const void *p, size_t n, bool w) {
  if (in_core)
    return;
  const uint64_t o = (uint64_t)p - ARENA_BASE;
  if (o < ARENA_SIZE)
    check_small((uint64_t)p, n, w);
  else if ((uint64_t)p - STACK_BASE < HOST_STACKS && cur->kind == FK_ITEM && K.discrete)
    violation("memory: kernel %s of a host stack variable (%zu bytes)", w ? "write" : "read", n);
  if (--countdown <= 0)
    preempt_now();
}

// ------------------------------------------------------------------ fibers -
Fiber *cur = nullptr;
static void *sched_sp = nullptr;
static std::vector<Fiber *> *free_fibers = nullptr;
static uint64_t host_stack_next = 0, item_stack_next = 0;
struct EhGlobals {
  void *caught;
  unsigned int uncaught;
};
extern "C" void *__cxa_get_globals() noexcept;

static uint64_t clock_now = 1000;
static uint64_t step_count = 0;
uint64_t now_us() { return clock_now; }
uint64_t steps() { return step_count; }
int rank() { return cur && cur->kind == FK_HOST ? cur->rank : -1; }
bool in_device() { return cur && cur->kind == FK_ITEM; }

static void fiber_main();
static void fiber_prepare(Fiber *f) {
  uint64_t *sp = (uint64_t *)(f->stack + f->stack_sz);
  sp -= 1; // alignment
  *--sp = (uint64_t)&fiber_main;
  for (int i = 0; i < 6; i++)
    *--sp = 0;
  f->sp = sp;
  f->eh_caught = nullptr;
  f->eh_uncaught = 0;
  f->in_core_saved = 1;
}
static Fiber *fiber_new(int kind) {
  if (kind == FK_ITEM && free_fibers->size()) {
    Fiber *f = free_fibers->back();
    free_fibers->pop_back();
    fiber_prepare(f);
    return f;
  }
  Fiber *f = new Fiber();
  f->kind = kind;
  if (kind == FK_HOST) {
    f->stack_sz = HOST_STACK;
    f->stack = (char *)(STACK_BASE + host_stack_next);
    host_stack_next += HOST_STACK + 65536;
    if (host_stack_next > HOST_STACKS)
      violation("simulator: too many host stacks");
    mprotect(f->stack - 0, 4096, PROT_NONE);
  } else {
    f->stack_sz = ITEM_STACK;
    f->stack = (char *)(STACK_BASE + HOST_STACKS + item_stack_next);
    item_stack_next += ITEM_STACK;
    if (HOST_STACKS + item_stack_next > STACK_SIZE)
      violation("simulator: too many work-item stacks");
  }
  fiber_prepare(f);
  return f;
}
static void switch_to(Fiber *f) {
  EhGlobals *g = (EhGlobals *)__cxa_get_globals();
  EhGlobals save = *g;
  g->caught = f->eh_caught;
  g->uncaught = f->eh_uncaught;
  cur = f;
  in_core = f->in_core_saved;
  sim_switch(&sched_sp, f->sp);
  f->in_core_saved = in_core;
  in_core = 1;
  cur = nullptr;
  f->eh_caught = g->caught;
  f->eh_uncaught = g->uncaught;
  *g = save;
}
static void to_sched() { sim_switch(&cur->sp, sched_sp); }

static std::vector<Fiber *> *hosts = nullptr;
static int hosts_done = 0;

// ------------------------------------------------------------------ device -
struct Group {
  uint64_t linear = 0;
  int nitems = 0, started = 0, finished = 0, at_barrier = 0;
  uint64_t epoch = 0;
  std::vector<Fiber *> waiting;
  std::vector<void *> xch;
  std::vector<void *> local;
  Task *task = nullptr;
};
struct Queue {
  bool in_order;
  bool alive;
  Task *last = nullptr;
};
static std::vector<Queue> *queues = nullptr;
static std::vector<Task *> *pending = nullptr; // not DONE, submission order
static uint64_t task_ids = 0;
static int active_tasks = 0;

TaskRef::TaskRef(Task *x) : t(x) {
  if (t)
    t->refs++;
}
TaskRef::TaskRef(const TaskRef &o) : t(o.t) {
  if (t)
    t->refs++;
}
TaskRef &TaskRef::operator=(const TaskRef &o) {
  if (o.t)
    o.t->refs++;
  if (t)
    task_unref(t);
  t = o.t;
  return *this;
}
TaskRef::~TaskRef() {
  if (t)
    task_unref(t);
}
void task_unref(Task *t) {
  if (--t->refs == 0) {
    CoreGuard g;
    if (t->s.fn.obj) {
      t->s.fn.destroy(t->s.fn.obj);
      internal_free(t->s.fn.obj);
      t->s.fn.obj = nullptr;
    }
    delete t;
  }
}
void *internal_alloc(size_t n) {
  void *p = malloc(n + 16);
  memset(p, 0, n);
  return p;
}
void internal_free(void *p) { free(p); }

int queue_create(bool io) {
  CoreGuard g;
  queues->push_back({io || K.in_order != 0, true, nullptr});
  return (int)queues->size() - 1;
}
bool queue_in_order(int q) { return (*queues)[q].in_order; }
void queue_release(int q) { (*queues)[q].alive = false; }

static void mark_needed(Task *t) {
  if (t->needed || t->state == TS_DONE)
    return;
  t->needed = true;
  for (auto *d : t->deps)
    mark_needed(d);
}

bool task_done(Task *t) { return t->state == TS_DONE; }

static size_t pick_coprime(size_t n) {
  if (n <= 2)
    return 1;
  for (int k = 0; k < 64; k++) {
    size_t s = 1 + rnd_below(S_SCHED, n - 1);
    size_t a = s, b = n;
    while (b) {
      size_t t = a % b;
      a = b;
      b = t;
    }
    if (a == 1)
      return s;
  }
  return 1;
}

Task *task_submit(int q, Submission &s) {
  CoreGuard g;
  Task *t = new Task();
  t->id = ++task_ids;
  t->queue = q;
  t->s = s;
  t->owner = cur ? cur->rank : -1;
  t->refs = 1; // scheduler's reference
  for (int i = 0; i < s.ndeps; i++)
    if (s.deps[i]->state != TS_DONE) {
      t->deps.push_back(s.deps[i]);
      s.deps[i]->refs++;
    }
  Queue &qq = (*queues)[q];
  if (qq.in_order && qq.last && qq.last->state != TS_DONE) {
    t->deps.push_back(qq.last);
    qq.last->refs++;
  }
  if (qq.in_order) {
    if (qq.last)
      task_unref(qq.last);
    qq.last = t;
    t->refs++;
  }
  // geometry
  if (s.kind == 1) {
    t->nitems = 1;
    for (int i = 0; i < s.dims; i++)
      t->nitems *= s.global[i];
    t->ngroups = t->nitems;
    t->group_items = 1;
  } else if (s.kind == 2) {
    t->nitems = 1;
    t->group_items = 1;
    for (int i = 0; i < s.dims; i++) {
      t->nitems *= s.global[i];
      t->group_items *= s.local[i];
    }
    t->ngroups = t->nitems / t->group_items;
  } else {
    t->nitems = t->ngroups = t->group_items = 1;
  }
  size_t lm = 0;
  for (int i = 0; i < s.nlocal_slots; i++)
    lm += s.local_slots[i];
  if (lm > (size_t)K.local_mem)
    violation("device: kernel needs %zu bytes of local memory, device has %lld", lm,
              (long long)K.local_mem);
  if (K.item_order == 0 || t->ngroups < 2) {
    t->gstart = 0;
    t->gstride = 1;
  } else if (K.item_order == 1) {
    t->gstart = t->ngroups - 1;
    t->gstride = t->ngroups - 1;
  } else {
    t->gstart = rnd_below(S_SCHED, t->ngroups);
    t->gstride = pick_coprime(t->ngroups);
    fault(F_ITEM_PERMUTE);
  }
  t->state = TS_PENDING;
  pending->push_back(t);
  note_hash(0x1000 + s.kind + t->nitems * 131);
  if (trace_on)
    trace("submit task %llu kind=%d items=%zu local=%zu bytes=%zu",
          (unsigned long long)t->id, s.kind, t->nitems, t->group_items, s.nbytes);
  if (cur && cur->kind == FK_HOST) {
    t->refs++;
    if (K.task_mode == 0) {
      struct W {
        Task *t;
      } w{t};
      mark_needed(t);
      host_block([](void *p) { return ((W *)p)->t->state == TS_DONE; }, &w, "task");
    } else
      host_yield();
    if (t->state == TS_PENDING)
      fault(F_TASK_DEFER);
    t->refs--;
  }
  return t;
}

void task_wait(Task *t) {
  CoreGuard g;
  if (t->state == TS_DONE) {
    if (K.host_yield)
      host_yield();
    return;
  }
  if (cur->kind != FK_HOST)
    violation("simulator: wait inside a kernel");
  t->refs++;
  mark_needed(t);
  host_block([](void *p) { return ((Task *)p)->state == TS_DONE; }, t, "task");
  task_unref(t);
}
void queue_wait(int q) {
  CoreGuard g;
  for (auto *t : *pending)
    if (t->queue == q)
      mark_needed(t);
  struct W {
    int q;
  } w{q};
  host_block(
      [](void *p) {
        for (auto *t : *pending)
          if (t->queue == ((W *)p)->q)
            return false;
        return true;
      },
      &w, "queue");
}

static void fill_ctx(Task *t, Group *g, int li, ItemCtx &c) {
  const Submission &s = t->s;
  c.dims = s.dims;
  size_t rg = g->linear, rl = li;
  for (int d = s.dims - 1; d >= 0; d--) {
    const size_t l = s.kind == 2 ? s.local[d] : 1;
    const size_t ng = s.global[d] / l;
    c.global_range[d] = s.global[d];
    c.local_range[d] = l;
    c.group_range[d] = ng;
    c.grp[d] = rg % ng;
    rg /= ng;
    c.lid[d] = rl % l;
    rl /= l;
    c.gid[d] = c.grp[d] * l + c.lid[d];
  }
}
static Group *group_activate(Task *t) {
  Group *g;
  if (t->group_pool.size()) {
    g = t->group_pool.back();
    t->group_pool.pop_back();
  } else {
    g = new Group();
  }
  const size_t i = t->next_group++;
  g->task = t;
  g->linear = t->ngroups < 2 ? 0 : (size_t)(((unsigned __int128)t->gstride * i + t->gstart) % t->ngroups);
  g->nitems = (int)t->group_items;
  g->started = g->finished = g->at_barrier = 0;
  g->epoch = 0;
  g->local.clear();
  for (int k = 0; k < t->s.nlocal_slots; k++)
    g->local.push_back(arena_alloc(1, t->s.local_slots[k] ? t->s.local_slots[k] : 1, 64));
  t->active.push_back(g);
  return g;
}
static void group_finish(Task *t, Group *g) {
  for (void *p : g->local)
    arena_free(1, p);
  g->local.clear();
  for (size_t i = 0; i < t->active.size(); i++)
    if (t->active[i] == g) {
      t->active.erase(t->active.begin() + i);
      break;
    }
  t->group_pool.push_back(g);
}
// next unstarted work item of the task or false
static bool next_item(Task *t, Group **g, int *li) {
  // prefer groups already active
  size_t n = t->active.size();
  Group *cands[16];
  size_t nc = 0;
  for (size_t i = 0; i < n && nc < 16; i++)
    if (t->active[i]->started < t->active[i]->nitems)
      cands[nc++] = t->active[i];
  const bool can_new = t->next_group < t->ngroups && (int64_t)n < std::max<int64_t>(1, K.group_window);
  if (nc == 0 && !can_new)
    return false;
  Group *x;
  if (nc == 0 || (can_new && sched_pick(4) == 3))
    x = group_activate(t);
  else
    x = cands[sched_pick(nc)];
  // local order: linear, or reversed per item_order
  int k = x->started++;
  if (K.item_order == 1)
    k = x->nitems - 1 - k;
  else if (K.item_order == 2 && x->nitems > 1) {
    k = (int)((k + x->linear * 7 + t->gstart) % x->nitems);
    if (t->gstride & 1)
      k = x->nitems - 1 - k;
  }
  *g = x;
  *li = k;
  return true;
}
static bool has_unstarted(Task *t) {
  if (t->next_group < t->ngroups && (int64_t)t->active.size() < std::max<int64_t>(1, K.group_window))
    return true;
  for (auto *g : t->active)
    if (g->started < g->nitems)
      return true;
  return false;
}

static void run_copy(Task *t) {
  const Submission &s = t->s;
  if (s.kind == 4) {
    check_range(s.src, s.nbytes, false, false, "copy");
    check_range(s.dst, s.nbytes, true, false, "copy");
    if (K.preempt_mean && s.nbytes > 64 && sched_pick(3) == 0) {
      const size_t half = (s.nbytes / 2) & ~7ull;
      memmove(s.dst, s.src, half);
      fault(F_KERNEL_PREEMPT);
      to_sched();
      check_range(s.src, s.nbytes, false, false, "copy");
      check_range(s.dst, s.nbytes, true, false, "copy");
      memmove((char *)s.dst + half, (const char *)s.src + half, s.nbytes - half);
    } else
      memmove(s.dst, s.src, s.nbytes);
  } else if (s.kind == 5) {
    check_range(s.dst, s.nbytes, true, false, "fill");
    for (size_t i = 0; i < s.nbytes; i += s.pattern_size)
      memcpy((char *)s.dst + i, s.pattern, s.pattern_size);
  }
}

static uint64_t preempts_armed = 0; // preemption thins out in very long runs
static inline void arm_countdown() {
  if (K.preempt_mean > 0 && !(K.sched_limit > 0 && (int64_t)sched_choices > K.sched_limit)) {
    uint64_t sh = ++preempts_armed / 30000;
    countdown = 1 + (int64_t)rnd_below(S_PREEMPT, (uint64_t)(2 * K.preempt_mean) << (sh > 12 ? 12 : sh));
  }
  else
    countdown = RUNAWAY;
}

// body of a device worker fiber: executes work items until none is available
static void worker_body(Fiber *f) {
  Task *t = f->task;
  for (;;) {
    Group *g;
    int li;
    if (!next_item(t, &g, &li))
      break;
    f->group = g;
    f->item_busy = true;
    fill_ctx(t, g, li, f->ctx);
    f->li = li;
    if (t->s.kind >= 4)
      run_copy(t);
    else if (t->s.kind != 0) {
      in_core--;
      try {
        t->s.fn.call(t->s.fn.obj, f->ctx);
      } catch (const std::exception &e) {
        in_core++;
        violation("kernel threw: %s", e.what());
      }
      in_core++;
    }
    f->item_busy = false;
    g->finished++;
    t->finished++;
    if (g->at_barrier && g->at_barrier + g->finished == g->nitems)
      violation("device: work-group barrier not reached by every work item");
    if (g->finished == g->nitems)
      group_finish(t, g);
  }
}

static void fiber_main() {
  // entered in core mode
  Fiber *f = cur;
  if (f->kind == FK_HOST) {
    in_core--;
    try {
      simwl::rank_main(f->rank);
    } catch (const std::exception &e) {
      in_core++;
      std::string m = std::string("uncaught exception: ") + e.what();
      aborted(m.c_str());
    }
    in_core++;
    f->state = FS_DONE;
    hosts_done++;
    to_sched();
    __builtin_unreachable();
  }
  for (;;) {
    worker_body(f);
    f->state = FS_DONE;
    to_sched();
  }
}

static void preempt_now() {
  if (K.preempt_mean == 0 || !cur || cur->kind != FK_ITEM)
    violation("progress: %s code makes no progress (over %lld memory accesses without reaching a scheduling point)",
              cur && cur->kind == FK_ITEM ? "kernel" : "host", (long long)RUNAWAY);
  do_preempt();
}
static void do_preempt() {
  arm_countdown();
  CoreGuard g;
  fault(F_KERNEL_PREEMPT);
  cur->state = FS_RUNNABLE;
  to_sched();
}
void atomic_point(const void *p, size_t n, bool w) {
  if (in_core)
    return;
  hook(p, n, w);
  if (K.atomic_preempt && in_device() && (int)rnd_below(S_PREEMPT, 100) < K.atomic_preempt)
    do_preempt();
}
void group_barrier() {
  CoreGuard g;
  if (!cur || cur->kind != FK_ITEM)
    violation("device: barrier outside a kernel");
  Group *gr = cur->group;
  if (gr->task->s.kind != 2)
    violation("device: barrier in a kernel without work-groups");
  if (gr->nitems == 1)
    return;
  gr->at_barrier++;
  if (gr->finished && gr->at_barrier + gr->finished == gr->nitems)
    violation("device: work-group barrier not reached by every work item");
  if (gr->at_barrier == gr->nitems) {
    gr->at_barrier = 0;
    gr->epoch++;
    for (auto *f : gr->waiting) {
      f->state = FS_RUNNABLE;
      gr->task->runnable.push_back(f);
    }
    gr->waiting.clear();
    if (K.atomic_preempt && (int)rnd_below(S_PREEMPT, 100) < K.atomic_preempt) {
      cur->state = FS_RUNNABLE;
      to_sched();
    }
    return;
  }
  gr->waiting.push_back(cur);
  cur->state = FS_BLOCKED;
  to_sched();
}
void **group_exchange(void *v, int *n) {
  {
    CoreGuard g;
    Group *gr = cur->group;
    if ((int)gr->xch.size() < gr->nitems)
      gr->xch.resize(gr->nitems);
    gr->xch[cur->li] = v;
    *n = gr->nitems;
  }
  Group *gr = cur->group;
  group_barrier();
  return gr->xch.data();
}
void *local_slot_ptr(int slot) {
  if (!cur || cur->kind != FK_ITEM || slot < 0)
    violation("device: local memory accessed outside a kernel");
  return cur->group->local[slot];
}
const ItemCtx &item_ctx() { return cur->ctx; }

// step of a task: returns after one fiber yielded
static void task_finish(Task *t);
static void task_step(Task *t) {
  if (t->state == TS_PENDING) {
    t->state = TS_ACTIVE;
    active_tasks++;
    if (active_tasks > 1)
      fault(F_TASK_OVERLAP);
    for (auto *o : *pending) {
      if (o == t)
        break;
      if (o->state == TS_PENDING && o->queue == t->queue) {
        fault(F_TASK_REORDER);
        break;
      }
    }
    note_hash(0x2000 + t->id);
    if (trace_on)
      trace("start task %llu", (unsigned long long)t->id);
  }
  if (t->nitems == 0 || t->s.kind == 0) {
    task_finish(t);
    return;
  }
  auto &run = t->runnable;
  const size_t nr = run.size();
  Fiber *f = nullptr;
  bool spawn = false;
  if (nr == 0) {
    if (!has_unstarted(t))
      violation("device: kernel cannot make progress (work items stuck at a barrier)");
    spawn = true;
  } else if (nr < 24 && (K.preempt_mean || K.atomic_preempt || K.group_window > 1))
    spawn = sched_pick(3) == 0 && has_unstarted(t);
  if (spawn) {
    f = fiber_new(FK_ITEM);
    f->task = t;
    f->rank = t->owner;
    f->state = FS_RUNNABLE;
    t->nfibers++;
  } else {
    const size_t i = sched_pick(nr);
    f = run[i];
    run[i] = run.back();
    run.pop_back();
  }
  arm_countdown();
  switch_to(f);
  countdown = RUNAWAY;
  if (f->state == FS_DONE) {
    t->nfibers--;
    free_fibers->push_back(f);
  } else if (f->state == FS_RUNNABLE)
    run.push_back(f);
  if (t->finished == t->nitems && t->nfibers == 0)
    task_finish(t);
}
static void task_finish(Task *t) {
  t->state = TS_DONE;
  active_tasks--;
  R->tasks++;
  R->items += t->nitems;
  for (size_t i = 0; i < pending->size(); i++)
    if ((*pending)[i] == t) {
      pending->erase(pending->begin() + i);
      break;
    }
  for (auto *d : t->deps)
    task_unref(d);
  t->deps.clear();
  for (auto *g : t->group_pool)
    delete g;
  t->group_pool.clear();
  if (trace_on)
    trace("finish task %llu", (unsigned long long)t->id);
  note_hash(0x3000 + t->id);
  task_unref(t);
}
static bool task_ready(Task *t) {
  if (t->state == TS_ACTIVE)
    return true;
  if (active_tasks >= std::max<int64_t>(1, K.task_conc))
    return false;
  for (auto *d : t->deps)
    if (d->state != TS_DONE)
      return false;
  return true;
}

// --------------------------------------------------------------- scheduler -
static std::vector<uint64_t> *timed = nullptr;
void timed_event_at(uint64_t t) {
  CoreGuard g;
  if (t > clock_now)
    timed->push_back(t);
}
void host_yield_force() {
  CoreGuard g;
  if (!cur || cur->kind != FK_HOST)
    return;
  cur->state = FS_RUNNABLE;
  to_sched();
}
void host_yield() {
  if (!cur || cur->kind != FK_HOST)
    return;
  if (K.host_yield && (int)rnd_below(S_SCHED, 100) < K.host_yield)
    host_yield_force();
}
void host_block(bool (*pred)(void *), void *arg, const char *what) {
  CoreGuard g;
  if (!cur || cur->kind != FK_HOST)
    violation("simulator: host wait outside a rank (%s)", what);
  if (pred(arg) && !(K.host_yield && chance(S_SCHED, (int)K.host_yield)))
    return;
  cur->pred = pred;
  cur->pred_arg = arg;
  cur->what = what;
  cur->state = FS_BLOCKED;
  to_sched();
  cur->pred = nullptr;
}
static bool host_runnable(Fiber *f) {
  if (f->state == FS_DONE)
    return false;
  if (f->state == FS_RUNNABLE)
    return true;
  return f->pred(f->pred_arg);
}
std::string (*deadlock_info)() = nullptr;

static bool crashed = false;
static int run_phase = 0;
int phase() { return run_phase; }
void crash_all() {
  CoreGuard g;
  fault(F_CRASH);
  trace("simulated crash of the whole job");
  crashed = true;
  to_sched();
  __builtin_unreachable();
}

static void schedule_loop() {
  std::vector<Fiber *> rh;
  std::vector<Task *> rt;
  const uint64_t max_steps = 40000000;
  for (;;) {
    step_count++;
    clock_now++;
    if (step_count > max_steps)
      violation("progress: no completion within %llu scheduler steps",
                (unsigned long long)max_steps);
    if (crashed || hosts_done == (int)hosts->size())
      break;
    bool hosts_first;
    switch (K.task_mode) {
    case 0:
      hosts_first = false;
      break;
    case 1:
      hosts_first = sched_pick(2) == 0;
      break;
    default:
      hosts_first = true;
    }
    for (int pass = 0; pass < 2; pass++) {
      if ((pass == 0) == hosts_first) {
        rh.clear();
        for (auto *f : *hosts)
          if (host_runnable(f))
            rh.push_back(f);
        if (rh.size()) {
          Fiber *f = rh[sched_pick(rh.size())];
          f->state = FS_RUNNABLE;
          note_hash(0x4000 + f->rank);
          countdown = RUNAWAY;
          switch_to(f);
          goto next;
        }
      } else {
        rt.clear();
        bool any_needed = false;
        for (auto *t : *pending)
          if (task_ready(t)) {
            rt.push_back(t);
            any_needed |= t->needed;
          }
        if (rt.size()) {
          if (K.task_mode >= 2 && any_needed) {
            size_t j = 0;
            for (auto *t : rt)
              if (t->needed || t->state == TS_ACTIVE)
                rt[j++] = t;
            rt.resize(j);
          }
          Task *t;
          if (K.task_mode == 3)
            t = rt[rt.size() - 1 - (sched_pick(4) == 3 ? sched_pick(rt.size()) : 0)];
          else
            t = rt[sched_pick(rt.size())];
          task_step(t);
          goto next;
        }
      }
    }
    // nothing runnable: advance simulated time
    {
      uint64_t best = UINT64_MAX;
      size_t j = 0;
      for (auto x : *timed)
        if (x > clock_now) {
          best = std::min(best, x);
          (*timed)[j++] = x;
        }
      timed->resize(j);
      if (best != UINT64_MAX) {
        clock_now = best;
        continue;
      }
      std::string d = "deadlock:";
      for (auto *f : *hosts)
        if (f->state != FS_DONE)
          d += " rank" + std::to_string(f->rank) + "=" + (f->what ? f->what : "?");
        else
          d += " rank" + std::to_string(f->rank) + "=finished";
      if (deadlock_info)
        d += " " + deadlock_info();
      violation("%s", d.c_str());
    }
  next:;
  }
}

// ------------------------------------------------------------------ public -
Usage usage() {
  CoreGuard g;
  Usage u;
  for (auto &kv : *usm_owner)
    if (kv.second.rank == rank()) {
      (kv.second.device ? u.device : u.usm)++;
      if (kv.second.device)
        u.device_bytes += kv.second.n;
    }
  mpi_usage(u.comms, u.windows);
  u.files = h5_usage();
  return u;
}
void *usm_alloc(size_t n, size_t align, MemKind k) {
  CoreGuard g;
  host_yield();
  dev_alloc_count++;
  if (K.alloc_fail && ((int64_t)dev_alloc_count == K.alloc_fail ||
                       (K.alloc_fail < 0 && (int64_t)dev_alloc_count >= -K.alloc_fail))) {
    fault(F_ALLOC_FAIL);
    trace("device allocation of %zu bytes fails", n);
    return nullptr;
  }
  void *p = arena_alloc(k == M_DEVICE ? 1 : 2, n ? n : 1, align);
  (*usm_owner)[p] = {rank(), k == M_DEVICE, (int64_t)n};
  return p;
}
void usm_free(void *p) {
  CoreGuard g;
  if (!p)
    return;
  host_yield();
  uint64_t o = (uint64_t)p - ARENA_BASE;
  if (o >= ARENA_SIZE || o / REGION == 0)
    violation("memory: USM free of a pointer that is not USM");
  usm_owner->erase(p);
  arena_free((int)(o / REGION), p);
}

static void on_signal(int sig, siginfo_t *si, void *) {
  in_core++;
  if (sig == SIGABRT)
    aborted("abort()");
  if (sig == SIGXCPU)
    judged_violation("progress: the run does not finish (processor time limit)", false);
  char b[128];
  const bool null = sig == SIGSEGV && (uint64_t)si->si_addr < (1 << 20);
  snprintf(b, sizeof b, "crash: signal %d in %s%s", sig,
           cur ? (cur->kind == FK_ITEM ? "a kernel" : "host code") : "the scheduler",
           null ? " through a null pointer" : "");
  if (!cur)
    finish_run(ST_INTERNAL, b);
  judged_violation(b, false);
}
static int draw(int n, const int *w) {
  int tot = 0;
  for (int i = 0; i < n; i++)
    tot += w[i];
  int x = (int)rnd_below(S_CFG, tot);
  for (int i = 0; i < n; i++) {
    if (x < w[i])
      return i;
    x -= w[i];
  }
  return n - 1;
}
void default_knobs() {
  K = Knobs();
  static const int wr[6] = {1, 3, 3, 3, 1, 1};
  K.nranks = 1 + draw(6, wr);
  K.nnodes = 1 + (int64_t)rnd_below(S_CFG, K.nranks);
  if (chance(S_CFG, 40))
    K.nnodes = 1;
  K.in_order = chance(S_CFG, 20);
  K.task_mode = (int64_t)rnd_below(S_CFG, 4);
  K.task_conc = 1 + (int64_t)rnd_below(S_CFG, 4);
  K.group_window = 1 + (int64_t)rnd_below(S_CFG, 6);
  K.item_order = (int64_t)rnd_below(S_CFG, 3);
  static const int64_t pm[6] = {0, 0, 6, 40, 300, 3000};
  K.preempt_mean = pm[rnd_below(S_CFG, 6)];
  static const int64_t ap[4] = {0, 0, 10, 50};
  K.atomic_preempt = ap[rnd_below(S_CFG, 4)];
  K.host_yield = chance(S_CFG, 50) ? rnd_range(S_CFG, 5, 60) : 0;
  K.poison = (int64_t)rnd_below(S_CFG, 4);
  static const int64_t nd[5] = {0, 5, 50, 500, 5000};
  K.net_delay = nd[rnd_below(S_CFG, 5)];
  static const int64_t rv[4] = {0, 30, 100, 50};
  K.rendezvous = rv[rnd_below(S_CFG, 4)];
  K.late_coll = rv[rnd_below(S_CFG, 4)];
  K.stall = chance(S_CFG, 40) ? rnd_range(S_CFG, 1, 100) : 0;
  K.stall_len = rnd_range(S_CFG, 10, 20000);
  K.rma_late = rv[rnd_below(S_CFG, 4)];
  K.reduce_order = chance(S_CFG, 60);
  K.any_source = chance(S_CFG, 80);
  K.device_aware = chance(S_CFG, 30);
  static const int64_t wg[4] = {1024, 256, 512, 4096};
  K.wg_max = wg[rnd_below(S_CFG, 4)];
  static const int64_t lm[5] = {65536, 49152, 32768, 16384, 65536};
  K.local_mem = lm[rnd_below(S_CFG, 5)];
  K.compute_units = 1 + (int64_t)rnd_below(S_CFG, 64);
  K.loop_local_size = chance(S_CFG, 60) ? 1ll << rnd_below(S_CFG, 7) : 0;
  K.loop_nbin = chance(S_CFG, 60) ? 1 + (int64_t)rnd_below(S_CFG, 16) : 0;
  K.clock_jump = chance(S_CFG, 20) ? 20 : 0;
  K.cpu_device = chance(S_CFG, 30);
  static const int64_t cl[5] = {64, 64, 128, 32, 4};
  K.cacheline = cl[rnd_below(S_CFG, 5)];
  K.in_order_env = chance(S_CFG, 8);
  K.profile = chance(S_CFG, 4);
  K.verbose = chance(S_CFG, 3);
  K.idle_ranks = chance(S_CFG, 15) ? 1 + (int64_t)rnd_below(S_CFG, 3) : 0;
  K.cart_reorder = chance(S_CFG, 25);
  K.cart_parent = chance(S_CFG, 15) ? 1 + (int64_t)rnd_below(S_CFG, 6) : 0;
}
std::string knobs_string() {
  std::string s;
#define X(n, d) s += std::string(#n) + "=" + std::to_string(K.n) + " ";
  SIM_KNOBS(X)
#undef X
  return s;
}
bool set_knob(Knobs &k, const std::string &n, int64_t v) {
#define X(m, d)                                                                \
  if (n == #m) {                                                               \
    k.m = v;                                                                   \
    return true;                                                               \
  }
  SIM_KNOBS(X)
#undef X
  return false;
}
static void set_env_num(const char *n, int64_t v) {
  if (v > 0)
    setenv(n, std::to_string(v).c_str(), 1);
  else
    unsetenv(n);
}

void run_one(uint64_t seed, uint64_t run, RunResult *res,
             const std::vector<std::pair<std::string, int64_t>> &overrides) {
  R = res;
  memset((void *)R, 0, sizeof *R);
  R->status = ST_INTERNAL;
  R->hash = 0x1234567;
  seed_streams(seed, run);
  default_knobs();
  simwl::choose_knobs();
  for (auto &o : overrides)
    set_knob(K, o.first, o.second);
  if (K.nnodes > K.nranks)
    K.nnodes = K.nranks;
  if (K.nnodes > 1)
    fault(F_MULTI_NODE);
  if (K.idle_ranks)
    fault(F_IDLE_RANKS);
  if (K.wg_max < 512 || K.local_mem < 32768)
    fault(F_SMALL_DEVICE);
  snprintf(R->knobs, sizeof R->knobs, "%s", knobs_string().c_str());
#define X(n, d) note_hash((uint64_t)K.n * 31 + 7);
  SIM_KNOBS(X)
#undef X
  set_env_num("NESO_PARTICLES_LOOP_LOCAL_SIZE", K.loop_local_size);
  set_env_num("NESO_PARTICLES_LOOP_NBIN", K.loop_nbin);
  set_env_num("NESO_PARTICLES_IN_ORDER_QUEUE", K.in_order_env);
  if (K.profile) // the file that is written at the end cannot be created
    setenv("NESO_PARTICLES_AUTO_PROFILE", "/dev/null/profile", 1);
  else
    unsetenv("NESO_PARTICLES_AUTO_PROFILE");
  set_env_num("NESO_PARTICLES_DEBUG_SUB_GROUPS", K.verbose);
  set_env_num("NESO_PARTICLES_DEBUG_LEVEL", K.verbose ? 10 : 0);
  if (K.verbose) { // what the library prints about itself is formatted and dropped
    static struct : std::streambuf {
      int overflow(int c) override { return c == EOF ? 0 : c; }
    } drop;
    std::cout.rdbuf(&drop);
  }
  setenv("NESO_PARTICLES_DEVICE_AWARE_MPI", K.device_aware ? "1" : "0", 1);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_SIGINFO;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU})
    sigaction(s, &sa, nullptr);
  static CapBuf cap;
  static NullBuf nul;
  std::cerr.rdbuf(&cap);
  std::cout.rdbuf(&nul);
  free_fibers = new std::vector<Fiber *>();
  queues = new std::vector<Queue>();
  pending = new std::vector<Task *>();
  timed = new std::vector<uint64_t>();
  hosts = new std::vector<Fiber *>();
  clock_now = 1000;
  simwl::plan();
  R->plan_hash = R->hash;
  io_setup();
  int phase = 0;
  do {
    hosts->clear();
    hosts_done = 0;
    run_phase = phase;
    crashed = false;
    usm_owner->clear();
    mpi_setup((int)K.nranks, (int)K.nnodes, phase);
    for (int r = 0; r < K.nranks; r++) {
      Fiber *f = fiber_new(FK_HOST);
      f->rank = r;
      f->state = FS_RUNNABLE;
      hosts->push_back(f);
    }
    schedule_loop();
    if (crashed) { // volatile state is lost
      pending->clear();
      queues->clear();
      timed->clear();
      free_fibers->clear();
      active_tasks = 0;
      phase++;
      continue;
    }
    // drain what is still pending on the device
    {
      uint64_t guard = 0;
      while (pending->size()) {
        Task *t = nullptr;
        for (auto *x : *pending)
          if (task_ready(x)) {
            t = x;
            break;
          }
        if (!t || ++guard > 10000000)
          violation("device: tasks still pending at exit can not run");
        task_step(t);
      }
    }
    mpi_check_clean();
    phase++;
  } while (next_phase(phase));
  in_core--; // oracles may use arena memory freely
  simwl::finish();
  in_core++;
  finish_run(ST_OK, "");
}

} // namespace sim

// ----------------------------------------------------- operator new/delete --
static inline bool use_arena() { return sim::in_core == 0 && sim::cur != nullptr; }
static void *do_new(size_t n) {
  if (use_arena()) {
    sim::CoreGuard g;
    if (sim::cur->kind == sim::FK_ITEM)
      sim::violation("memory: heap allocation inside a kernel");
    return sim::arena_alloc(0, n ? n : 1, 16);
  }
  void *p = malloc(n ? n : 1);
  if (!p)
    abort();
  return p;
}
static void *do_new_al(size_t n, size_t a) {
  if (use_arena()) {
    sim::CoreGuard g;
    return sim::arena_alloc(0, n ? n : 1, a);
  }
  return aligned_alloc(a, (n + a - 1) / a * a);
}
static void do_del(void *p) {
  if (!p)
    return;
  uint64_t o = (uint64_t)p - sim::ARENA_BASE;
  if (o < sim::ARENA_SIZE) {
    sim::CoreGuard g;
    if (o / sim::REGION != 0)
      sim::violation("memory: operator delete on USM memory");
    sim::arena_free(0, p);
    return;
  }
  free(p);
}
void *operator new(size_t n) { return do_new(n); }
void *operator new[](size_t n) { return do_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new(n); }
void *operator new(size_t n, std::align_val_t a) { return do_new_al(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return do_new_al(n, (size_t)a); }
void operator delete(void *p) noexcept { do_del(p); }
void operator delete[](void *p) noexcept { do_del(p); }
void operator delete(void *p, size_t) noexcept { do_del(p); }
void operator delete[](void *p, size_t) noexcept { do_del(p); }
void operator delete(void *p, std::align_val_t) noexcept { do_del(p); }
void operator delete[](void *p, std::align_val_t) noexcept { do_del(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_del(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_del(p); }

// ------------------------------------------------------------------- clock --
namespace sim {
static int64_t clock_offset_us = 0;
static int64_t sim_clock_ns() {
  if (K.clock_jump && chance(S_CLOCK, (int)K.clock_jump)) {
    clock_offset_us += rnd_range(S_CLOCK, -3600000000ll, 3600000000ll);
    fault(F_CLOCK_JUMP);
  }
  return ((int64_t)clock_now + clock_offset_us) * 1000 + 1700000000000000000ll;
}
} // namespace sim
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  return time_point(duration(sim::sim_clock_ns()));
}
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(duration((int64_t)sim::clock_now * 1000));
}
} // namespace _V2
} // namespace chrono
random_device::result_type random_device::_M_getval() {
  return (result_type)sim::rnd(sim::S_LIB);
}
} // namespace std

// -------------------------------------------------------------- tsan hooks --
extern "C" {
#define HK(n)                                                                  \
  void __tsan_read##n(void *p) { sim::hook(p, n, false); }                     \
  void __tsan_write##n(void *p) { sim::hook(p, n, true); }                     \
  void __tsan_unaligned_read##n(void *p) { sim::hook(p, n, false); }           \
  void __tsan_unaligned_write##n(void *p) { sim::hook(p, n, true); }           \
  void __tsan_read_write##n(void *p) { sim::hook(p, n, true); }                \
  void __tsan_unaligned_read_write##n(void *p) { sim::hook(p, n, true); }
HK(1) HK(2) HK(4) HK(8)
static inline void hook16(void *p, bool w) {
  sim::hook(p, 8, w);
  sim::hook((char *)p + 8, 8, w);
}
void __tsan_read16(void *p) { hook16(p, false); }
void __tsan_write16(void *p) { hook16(p, true); }
void __tsan_unaligned_read16(void *p) { hook16(p, false); }
void __tsan_unaligned_write16(void *p) { hook16(p, true); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { sim::hook(p, 8, true); }
void __tsan_vptr_read(void **p) { sim::hook(p, 8, false); }
void __tsan_read_range(void *p, unsigned long n) {
  if (!sim::in_core)
    sim::check_range(p, n, false, !sim::in_device(), sim::in_device() ? "kernel" : "host");
}
void __tsan_write_range(void *p, unsigned long n) {
  if (!sim::in_core)
    sim::check_range(p, n, true, !sim::in_device(), sim::in_device() ? "kernel" : "host");
}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
  __tsan_read_range((void *)s, n);
  __tsan_write_range(d, n);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, unsigned long n) {
  __tsan_read_range((void *)s, n);
  __tsan_write_range(d, n);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int v, unsigned long n) {
  __tsan_write_range(d, n);
  return memset(d, v, n);
}
}
// the standard library's own bounds checks in the code under test
namespace std {
void __glibcxx_assert_fail(const char *, int, const char *fn, const char *cond) noexcept {
  sim::in_core++;
  sim::violation("memory: out of bounds use of a standard container: %.80s in %.120s", cond ? cond : "", fn ? fn : "");
  __builtin_unreachable();
}
} // namespace std
