// Deterministic simulation core: public interface used by the simulated SYCL,
// MPI and HDF5 front ends and by the workloads.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ------------------------------------------------------------------ PRNG ---
enum Stream : int {
  S_CFG = 0, // knob (swarm) selection
  S_SCHED,   // who runs next
  S_PREEMPT, // where a work item is preempted
  S_MEM,     // memory contents / placement
  S_NET,     // message delays, matching choices
  S_IO,      // storage faults
  S_WORK,    // workload plan (inputs / histories)
  S_CLOCK,   // clock behaviour
  S_LIB,     // randomness handed to the library (std::random_device)
  S_N
};
uint64_t rnd(Stream s);
uint64_t rnd_below(Stream s, uint64_t n);           // [0,n)
int64_t rnd_range(Stream s, int64_t lo, int64_t hi); // [lo,hi]
bool chance(Stream s, int percent);
double rnd_unit(Stream s); // [0,1)

// ----------------------------------------------------------------- knobs ---
#define SIM_KNOBS(X)                                                           \
  X(nranks, 1)                                                                 \
  X(nnodes, 1)                                                                 \
  X(in_order, 0)                                                               \
  X(task_mode, 0)      /* 0 eager 1 random 2 lazy 3 reverse-lazy */            \
  X(task_conc, 1)      /* max concurrently active tasks */                     \
  X(group_window, 1)   /* concurrently active groups per task */               \
  X(item_order, 0)     /* 0 ascending 1 descending 2 random */                 \
  X(preempt_mean, 0)   /* mean #accesses between in-kernel preemptions */      \
  X(atomic_preempt, 0) /* percent preemption at atomics/barriers */            \
  X(host_yield, 0)     /* percent yield at host API calls */                   \
  X(poison, 0)         /* 0 zero fill, 1 0xff, 2 0xa5, 3 random */             \
  X(net_delay, 0)      /* max delivery delay (us) */                           \
  X(rendezvous, 0)     /* percent of sends that are rendezvous */              \
  X(late_coll, 0)      /* percent of rooted collectives that synchronise */    \
  X(stall, 0)          /* per-mille of rank stalls at MPI calls */             \
  X(stall_len, 0)      /* max stall duration (us) */                           \
  X(rma_late, 0)       /* percent of RMA ops completed at the epoch end */     \
  X(reduce_order, 0)   /* 1: random reduction order */                         \
  X(any_source, 0)     /* 1: random matching of wildcard receives */           \
  X(device_aware, 0)                                                           \
  X(wg_max, 1024)                                                              \
  X(local_mem, 65536)                                                          \
  X(compute_units, 8)                                                          \
  X(loop_local_size, 0) /* 0 = library default */                              \
  X(loop_nbin, 0)                                                              \
  X(discrete, 1) /* device memory is not host accessible */                    \
  X(alloc_fail, 0)                                                             \
  X(io_fail, 0)                                                                \
  X(io_short, 0)                                                               \
  X(crash_io, 0)                                                               \
  X(clock_jump, 0)                                                             \
  X(cpu_device, 0)                                                             \
  X(cacheline, 64)                                                             \
  X(profile, 0) /* ask the library to record profiling regions */             \
  X(verbose, 0) /* ask the library to print its diagnostics */                 \
  X(cart_reorder, 0) /* grid communicators number their ranks differently */   \
  X(idle_ranks, 0) /* ranks of the job outside the communicator of the user */ \
  X(cart_parent, 0) /* meshes are made over a grid the user chose */           \
  X(in_order_env, 0) /* ask the library for an in-order queue */               \
  X(sched_limit, 0) /* >0: only the first N schedule choices are random */     \
  X(work_a, 0)                                                                 \
  X(work_b, 0)                                                                 \
  X(work_c, 0)

struct Knobs {
#define X(n, d) int64_t n = d;
  SIM_KNOBS(X)
#undef X
};
extern Knobs K;

// ---------------------------------------------------------------- faults ---
enum Fault : int {
  F_TASK_DEFER = 0,
  F_TASK_REORDER,
  F_TASK_OVERLAP,
  F_KERNEL_PREEMPT,
  F_ITEM_PERMUTE,
  F_GARBAGE_MEM,
  F_MSG_DELAY,
  F_MSG_REORDER,
  F_RENDEZVOUS,
  F_LATE_BUFFER,
  F_COLL_SYNC,
  F_COLL_EARLY,
  F_RANK_STALL,
  F_RMA_LATE,
  F_REDUCE_PERMUTE,
  F_ALLOC_FAIL,
  F_IO_ERROR,
  F_IO_SHORT,
  F_CRASH,
  F_CLOCK_JUMP,
  F_MULTI_NODE,
  F_RENUMBERED,
  F_IDLE_RANKS,
  F_SMALL_DEVICE,
  F_N
};
extern const char *fault_names[F_N];
void fault(Fault f, uint64_t n = 1);
int users_comm(); // the communicator the workload gives to the library

// ------------------------------------------------------------------ runs ---
// Report a violation of the property and end the run (does not return).
[[noreturn]] void violation(const char *fmt, ...)
    __attribute__((format(printf, 1, 2)));
// What a workload's own oracle finds when the workload serves as a part of a
// composite check: the composite decides what it means.
[[noreturn]] void oracle_violation(const char *fmt, ...)
    __attribute__((format(printf, 1, 2)));
// Composite checks may look at every violation first: returning non-null ends
// the run without one.
extern const char *(*violation_filter)(const char *msg, bool oracle);
uint64_t fault_count(Fault f);
// The library stopped loudly (MPI_Abort / uncaught exception).
[[noreturn]] void aborted(const char *why);
// End the run now as a simulated crash (not a violation).
[[noreturn]] void stop_run();
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void note_hash(uint64_t v); // fold a value into the run's history hash
void state_hash(uint64_t v); // fold into state-coverage set
void counter(const char *name, uint64_t n = 1);
bool op_enabled(int op_index); // false when the minimiser removed the op
void op_begin(int op_index, const char *name);
const char *captured_stderr();
uint64_t now_us();
uint64_t steps();
int rank(); // current host rank, -1 when not in a rank
bool in_device();
void crash_all(); // the whole job dies now; only durable storage survives
int phase();      // 0 first incarnation, 1.. after restarts
void host_yield();      // scheduling point for the current rank
void host_yield_force();
// block current host fiber until pred() is true
void host_block(bool (*pred)(void *), void *arg, const char *what);
template <typename F> void host_block_until(F &f, const char *what) {
  host_block([](void *p) -> bool { return (*static_cast<F *>(p))(); },
             static_cast<void *>(&f), what);
}
void timed_event_at(uint64_t t_us); // something becomes possible at time t
// is `p` a device pointer (not host accessible)?
bool is_device_ptr(const void *p);
// check a range can be accessed; ctx: 0 host, 1 device/any(memcpy)
void check_range(const void *p, size_t n, bool write, bool host, const char *what);
uint64_t heap_live(); // number of live arena allocations
// what the calling rank has acquired and not released
struct Usage {
  int64_t device = 0, device_bytes = 0, usm = 0, comms = 0, windows = 0, files = 0, heap = 0;
};
Usage usage();

struct CoreGuard {
  CoreGuard();
  ~CoreGuard();
};

// --------------------------------------------------------------- device ----
struct ItemCtx {
  size_t global_range[3];
  size_t local_range[3];
  size_t group_range[3];
  size_t gid[3];
  size_t lid[3];
  size_t grp[3];
  int dims;
};
struct Task;
struct TaskRef { // intrusive ref-counted handle
  Task *t = nullptr;
  TaskRef() = default;
  TaskRef(Task *t);
  TaskRef(const TaskRef &o);
  TaskRef(TaskRef &&o) noexcept : t(o.t) { o.t = nullptr; }
  TaskRef &operator=(const TaskRef &o);
  ~TaskRef();
};
struct Functor {
  void *obj = nullptr;
  void (*call)(void *, const ItemCtx &) = nullptr;
  void (*destroy)(void *) = nullptr;
};
void *internal_alloc(size_t n);
void internal_free(void *p);

struct Submission {
  int kind = 0; // 0 none,1 range,2 nd_range,3 single,4 memcpy,5 fill
  int dims = 1;
  size_t global[3] = {1, 1, 1};
  size_t local[3] = {1, 1, 1};
  Functor fn;
  void *dst = nullptr;
  const void *src = nullptr;
  size_t nbytes = 0;
  unsigned char pattern[64];
  size_t pattern_size = 0;
  Task *deps[64];
  int ndeps = 0;
  size_t local_slots[32];
  int nlocal_slots = 0;
};
Task *task_submit(int queue_id, Submission &s);
void task_wait(Task *t);
bool task_done(Task *t);
int queue_create(bool in_order);
bool queue_in_order(int q);
void queue_wait(int q);
void queue_release(int q);
void *local_slot_ptr(int slot);
void group_barrier();
// collective helper: every item of the group deposits `v`; returns the array of
// deposited pointers in linear local order (valid until next collective)
void **group_exchange(void *v, int *n);
int group_linear_id();
const ItemCtx &item_ctx();
void atomic_point(const void *p, size_t n, bool write);
enum MemKind { M_DEVICE = 0, M_HOST, M_SHARED };
void *usm_alloc(size_t n, size_t align, MemKind k);
void usm_free(void *p);

} // namespace sim

// ------------------------------------------------------------- workloads ---
namespace simwl {
// Defined by the workload TU linked into the binary.
extern const char *property_id;
void choose_knobs();   // may adjust sim::K after the default swarm draw
void plan();           // build the shared plan from S_WORK
void rank_main(int r); // runs on every simulated rank
void finish();         // after all ranks returned (checks over the history)
// judge the run when the library aborted: return nullptr if acceptable,
// otherwise a description of the violation
const char *judge_abort(const char *msg);
} // namespace simwl
