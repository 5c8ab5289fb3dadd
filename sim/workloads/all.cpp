// P18, P24: one run is one whole program of another property's workload, under
// its own swarm of schedules; the question is not what it computes but whether
// it ends, stays inside its memory, and gives everything back (P18), and what
// it does when a device allocation is refused (P24).
#include "simcore.hpp"
#include <cstring>
#include <string>
using namespace sim;
#define X(p)                                                                                                           \
  namespace simwl_##p {                                                                                                \
  extern const char *property_id;                                                                                      \
  void choose_knobs();                                                                                                 \
  void plan();                                                                                                         \
  void rank_main(int);                                                                                                 \
  void finish();                                                                                                       \
  const char *judge_abort(const char *);                                                                               \
  }
SIM_PARTS
#undef X
namespace simwl {
const char *property_id = SIM_PROPERTY;
struct Part {
  const char *name;
  void (*knobs)();
  void (*plan)();
  void (*rank_main)(int);
  void (*finish)();
  const char *(*judge)(const char *);
};
static const Part parts[] = {
#define X(p) {#p, simwl_##p::choose_knobs, simwl_##p::plan, simwl_##p::rank_main, simwl_##p::finish, simwl_##p::judge_abort},
    SIM_PARTS
#undef X
};
static const int NP = sizeof parts / sizeof parts[0];
static const Part *P = nullptr;
static const char *filter(const char *msg, bool oracle) {
#ifdef SIM_P24
  if (!fault_count(F_ALLOC_FAIL))
    return "ended_before_the_refusal";
  if (!oracle && strstr(msg, "through a null pointer"))
    return "stopped_at_the_missing_block";
  return nullptr;
#else
  // wrong results are the business of the property whose workload this is
  return oracle ? "left_to_the_other_property" : nullptr;
#endif
}
void choose_knobs() {
  P = &parts[rnd_below(S_CFG, NP)];
  P->knobs();
  violation_filter = filter;
  K.io_fail = K.io_short = K.crash_io = 0;
  K.alloc_fail = 0;
#ifdef SIM_P24
  static const int64_t top[4] = {100, 400, 1500, 5000};
  K.alloc_fail = 1 + (int64_t)rnd_below(S_CFG, top[rnd_below(S_CFG, 4)]);
  if (chance(S_CFG, 25)) // memory stays exhausted
    K.alloc_fail = -K.alloc_fail;
#endif
}
void plan() {
  counter((std::string("program_of_") + P->name).c_str());
  P->plan();
}
void rank_main(int r) {
  P->rank_main(r);
#ifndef SIM_P24
  const Usage u = usage();
  if (u.device || u.usm)
    violation("release: %lld device blocks (%lld bytes) and %lld host or shared device-visible blocks are still allocated after everything was freed",
              (long long)u.device, (long long)u.device_bytes, (long long)u.usm);
  if (u.comms)
    violation("release: %lld communicators were not freed", (long long)u.comms);
  if (u.windows)
    violation("release: %lld shared memory windows were not freed", (long long)u.windows);
  if (u.files)
    violation("release: %lld file objects are still open", (long long)u.files);
  counter("clean_exits");
#endif
}
void finish() {
  P->finish();
#ifdef SIM_P24
  if (fault_count(F_ALLOC_FAIL))
    counter("completed_despite_the_refusal");
#endif
}
const char *judge_abort(const char *msg) {
#ifdef SIM_P24
  if (fault_count(F_ALLOC_FAIL)) {
    counter("stopped_with_a_message");
    return nullptr;
  }
  return nullptr;
#else
  return P->judge(msg);
#endif
}
} // namespace simwl
