// Simulated MPI: every rank is a fiber of one process. Message delivery,
// matching, buffering mode, collective synchronisation, RMA completion and
// node layout are decided by the seeded scheduler.
#include "include/mpi.h"
#include "core_internal.hpp"
#include <algorithm>
#include <array>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim {
void crash_tick();
namespace {

struct Coll;
struct Comm {
  int id = 0;
  std::vector<int> ranks; // world rank of each member
  std::map<int, int> index;
  std::map<int, uint64_t> seq; // per world rank collective count
  std::map<uint64_t, std::shared_ptr<Coll>> colls;
  int nfreed = 0;
  std::map<int, bool> freed;
  int topo = MPI_UNDEFINED;
  std::vector<int> cdims, cperiods;
  std::vector<std::vector<int>> in, out, inw, outw;
  bool weighted = true;
  bool user = true;
  const char *origin = "";
};
struct Part {
  bool arrived = false, left = false;
  std::vector<char> send;
  const void *sbuf = nullptr;
  int root = 0, count = 0, type = 0, op = 0;
  long a = 0, b = 0;
  std::vector<int> ints;
  std::vector<std::vector<char>> blocks;
};
struct Coll {
  std::string kind;
  int narrived = 0, nleft = 0;
  std::vector<Part> parts;
  bool sync_all = false;
  std::vector<int> perm;
  std::map<int, int> made; // result comm/win per colour
  std::map<int, std::vector<char>> cache;
};
struct Msg {
  int src, dst, tag, comm; // comm-local ranks
  size_t n;
  uint64_t arrive;
  bool snap = false;
  std::vector<char> data;
  const void *buf = nullptr;
  int send_req = 0;
  uint64_t order;
};
struct Req {
  int kind; // 1 send 2 recv 3 ibarrier
  int owner;
  bool done = false;
  std::shared_ptr<Msg> msg;
  // recv
  void *buf = nullptr;
  size_t cap = 0;
  int src = 0, tag = 0, comm = 0;
  bool matched = false, written = false, late = false;
  MPI_Status st{};
  bool rendezvous = false;
  std::shared_ptr<Coll> coll;
};
struct RmaOp {
  int kind; // 1 get_accumulate/accumulate 2 put 3 get
  const void *origin;
  int ocount, type;
  void *result;
  int target;
  long disp;
  int op;
};
struct Win {
  int comm;
  std::vector<char *> base;
  std::vector<long> size;
  std::vector<int> disp;
  bool shared = false;
  std::map<std::pair<int, int>, std::vector<RmaOp>> pend; // (origin world, target)
  std::map<std::pair<int, int>, int> locks;
  std::vector<int> nshared, nexcl;
  int nfreed = 0;
  std::map<int, std::vector<RmaOp>> fence_pend;
  char *alloc = nullptr;
};
struct State {
  std::vector<Comm> comms;
  std::vector<int> node_of;
  std::map<int, Req> reqs;
  int next_req = 1;
  std::vector<std::deque<std::shared_ptr<Msg>>> *dummy = nullptr;
  std::map<std::pair<int, int>, std::deque<std::shared_ptr<Msg>>> chan; // (comm,dst local) -> msgs in send order
  std::map<std::pair<int, int>, std::vector<int>> posted;               // (comm,dst local) -> req ids in order
  std::map<std::vector<int>, uint64_t> last_arrive;
  std::vector<Win> wins;
  uint64_t order = 0;
  int nranks = 0;
  std::vector<int> self;
};
State *S = nullptr;

const int type_sz[18] = {0, 1, 1, 4, 8, 8, 8, 4, 8, 8, 8, 8, 4, 4, 4, 2, 1, 1};
size_t tsize(int t) {
  if (t < 1 || t > 17)
    violation("mpi: invalid datatype %d", t);
  return type_sz[t];
}
int me() {
  int r = rank();
  if (r < 0)
    violation("mpi: call outside a rank");
  return r;
}
Comm &C(int c, const char *what) {
  if (c == MPI_COMM_SELF)
    c = S->self[me()];
  if (c <= 0 || c >= (int)S->comms.size())
    violation("mpi: %s on an invalid communicator", what);
  Comm &x = S->comms[c];
  if (!x.index.count(me()))
    violation("mpi: %s on a communicator this rank is not a member of", what);
  auto it = x.freed.find(me());
  if (it != x.freed.end() && it->second)
    violation("mpi: %s on a freed communicator", what);
  return x;
}
void enter(const char *what) {
  crash_tick();
  trace("%s", what);
  note_hash(0x7000 + me() * 17 + what[4] + 31 * what[5]);
  host_yield();
  if (K.stall && (int)rnd_below(S_NET, 1000) < K.stall) {
    fault(F_RANK_STALL);
    const uint64_t until = now_us() + 1 + rnd_below(S_NET, K.stall_len);
    timed_event_at(until);
    auto p = [&]() { return now_us() >= until; };
    host_block_until(p, "stalled");
  }
}
void chk(const void *p, size_t n, bool w, const char *what) {
  if (n)
    check_range(p, n, w, !K.device_aware, what);
}

// ------------------------------------------------------------- reductions --
template <typename T> void red(T *a, const T *b, int n, int op) {
  for (int i = 0; i < n; i++)
    switch (op) {
    case MPI_SUM: a[i] = (T)(a[i] + b[i]); break;
    case MPI_MAX: a[i] = a[i] < b[i] ? b[i] : a[i]; break;
    case MPI_MIN: a[i] = b[i] < a[i] ? b[i] : a[i]; break;
    case MPI_PROD: a[i] = (T)(a[i] * b[i]); break;
    case MPI_LAND: a[i] = (T)(a[i] && b[i]); break;
    case MPI_LOR: a[i] = (T)(a[i] || b[i]); break;
    case MPI_REPLACE: a[i] = b[i]; break;
    case MPI_NO_OP: break;
    default:
      if constexpr (std::is_integral_v<T>) {
        if (op == MPI_BAND) { a[i] &= b[i]; break; }
        if (op == MPI_BOR) { a[i] |= b[i]; break; }
      }
      violation("mpi: invalid reduction operation %d", op);
    }
}
void reduce_buf(void *a, const void *b, int n, int t, int op) {
  switch (t) {
  case MPI_INT: case MPI_INT32_T: red((int *)a, (const int *)b, n, op); break;
  case MPI_UNSIGNED: case MPI_UINT32_T: red((unsigned *)a, (const unsigned *)b, n, op); break;
  case MPI_INT64_T: case MPI_LONG: case MPI_LONG_LONG: red((int64_t *)a, (const int64_t *)b, n, op); break;
  case MPI_UINT64_T: case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: red((uint64_t *)a, (const uint64_t *)b, n, op); break;
  case MPI_DOUBLE: red((double *)a, (const double *)b, n, op); break;
  case MPI_FLOAT: red((float *)a, (const float *)b, n, op); break;
  case MPI_CHAR: red((signed char *)a, (const signed char *)b, n, op); break;
  case MPI_BYTE: case MPI_UNSIGNED_CHAR: case MPI_C_BOOL: red((unsigned char *)a, (const unsigned char *)b, n, op); break;
  case MPI_SHORT: red((short *)a, (const short *)b, n, op); break;
  default: violation("mpi: reduction on datatype %d", t);
  }
}

// ------------------------------------------------------------- collectives --
struct CollCall {
  Comm *c;
  std::shared_ptr<Coll> k;
  uint64_t seq;
  int idx;
  Part *p;
};
CollCall coll_begin(int comm, const char *kind) {
  enter(kind);
  Comm &c = C(comm, kind);
  CollCall cc;
  cc.c = &c;
  cc.idx = c.index[me()];
  cc.seq = c.seq[me()]++;
  auto &k = c.colls[cc.seq];
  if (!k) {
    k = std::make_shared<Coll>();
    k->kind = kind;
    k->parts.resize(c.ranks.size());
    k->sync_all = chance(S_NET, (int)K.late_coll);
    k->perm.resize(c.ranks.size());
    for (size_t i = 0; i < k->perm.size(); i++)
      k->perm[i] = (int)i;
    if (K.reduce_order && k->perm.size() > 1)
      for (size_t i = k->perm.size() - 1; i > 0; i--)
        std::swap(k->perm[i], k->perm[rnd_below(S_NET, i + 1)]);
  }
  if (k->kind != kind)
    violation("mpi: collective mismatch: rank %d called %s while another rank of the same communicator called %s",
              me(), kind, k->kind.c_str());
  cc.k = k;
  cc.p = &k->parts[cc.idx];
  return cc;
}
void coll_arrive(CollCall &cc) {
  cc.p->arrived = true;
  cc.k->narrived++;
}
void check_same(CollCall &cc, bool root, bool bytes, bool op) {
  for (auto &q : cc.k->parts)
    if (q.arrived) {
      if (root && q.root != cc.p->root)
        violation("mpi: %s root mismatch between ranks", cc.k->kind.c_str());
      if (bytes && q.a != cc.p->a)
        violation("mpi: %s message size mismatch between ranks (%ld vs %ld bytes)", cc.k->kind.c_str(), q.a, cc.p->a);
      if (op && q.op != cc.p->op)
        violation("mpi: %s operation mismatch between ranks", cc.k->kind.c_str());
    }
}
template <typename F> void coll_wait(CollCall &cc, F need) {
  Coll *k = cc.k.get();
  const int n = (int)k->parts.size();
  auto pred = [&]() {
    if (k->sync_all && k->narrived < n)
      return false;
    return need();
  };
  if (k->sync_all)
    fault(F_COLL_SYNC);
  else if (k->narrived < n && need())
    fault(F_COLL_EARLY);
  host_block_until(pred, k->kind.c_str());
}
void coll_end(CollCall &cc) {
  cc.p->left = true;
  Comm &c = *cc.c;
  if (++cc.k->nleft == (int)cc.k->parts.size())
    c.colls.erase(cc.seq);
}
bool all_in(CollCall &cc) { return cc.k->narrived == (int)cc.k->parts.size(); }
void snap(std::vector<char> &v, const void *p, size_t n) {
  chk(p, n, false, "MPI send buffer");
  v.resize(n);
  if (n)
    memcpy(v.data(), p, n);
}
void put(void *p, const void *s, size_t n) {
  chk(p, n, true, "MPI receive buffer");
  if (n)
    memcpy(p, s, n);
}

int new_comm() {
  S->comms.emplace_back();
  Comm &c = S->comms.back();
  c.id = (int)S->comms.size() - 1;
  return c.id;
}
void set_members(Comm &c, const std::vector<int> &r) {
  c.ranks = r;
  for (size_t i = 0; i < r.size(); i++)
    c.index[r[i]] = (int)i;
}

// -------------------------------------------------------------------- p2p --
int new_req(Req &&r) {
  int id = S->next_req++;
  S->reqs.emplace(id, std::move(r));
  return id;
}
void take_snapshot(Msg &m) {
  if (m.snap)
    return;
  chk(m.buf, m.n, false, "MPI send buffer");
  m.data.resize(m.n);
  if (m.n)
    memcpy(m.data.data(), m.buf, m.n);
  m.snap = true;
}
void deliver(Req &r) {
  if (r.written)
    return;
  Msg &m = *r.msg;
  put(r.buf, m.data.data(), m.n);
  r.written = true;
}
// try to match posted receives of (comm,dst)
void progress(int comm, int dst) {
  auto &q = S->chan[{comm, dst}];
  auto &post = S->posted[{comm, dst}];
  for (size_t i = 0; i < post.size();) {
    Req &r = S->reqs[post[i]];
    // candidates: first tag-matching message of each source, in send order
    std::vector<size_t> cand;
    std::vector<int> seen;
    for (size_t j = 0; j < q.size(); j++) {
      Msg &m = *q[j];
      if (r.src != MPI_ANY_SOURCE && m.src != r.src)
        continue;
      if (r.tag != MPI_ANY_TAG && m.tag != r.tag)
        continue;
      if (std::find(seen.begin(), seen.end(), m.src) != seen.end())
        continue;
      seen.push_back(m.src);
      if (m.arrive <= now_us())
        cand.push_back(j);
    }
    if (cand.empty()) {
      i++;
      continue;
    }
    size_t pick = 0;
    if (cand.size() > 1 && K.any_source) {
      pick = rnd_below(S_NET, cand.size());
      if (pick)
        fault(F_MSG_REORDER);
    } else if (cand.size() > 1) {
      for (size_t z = 1; z < cand.size(); z++)
        if (q[cand[z]]->src < q[cand[pick]]->src)
          pick = z;
    }
    auto m = q[cand[pick]];
    q.erase(q.begin() + cand[pick]);
    if (m->n > r.cap)
      violation("mpi: message truncated: %zu bytes received into a buffer of %zu bytes (tag %d)", m->n, r.cap, m->tag);
    take_snapshot(*m);
    r.msg = m;
    r.matched = true;
    r.st.MPI_SOURCE = m->src;
    r.st.MPI_TAG = m->tag;
    r.st.MPI_ERROR = 0;
    r.st.sim_bytes = (long)m->n;
    if (m->send_req) {
      auto it = S->reqs.find(m->send_req);
      if (it != S->reqs.end())
        it->second.matched = true;
    }
    note_hash(0x8000 + m->src * 7 + m->tag * 131 + dst);
    trace("match rank(local)%d <- %d tag %d bytes %zu comm %d", dst, m->src, m->tag, m->n, comm);
    if (!r.late)
      deliver(r);
    post.erase(post.begin() + i);
  }
}
int do_isend(const void *buf, int count, int type, int dest, int tag, int comm, bool force_sync, const char *nm) {
  Comm &c = C(comm, nm);
  comm = c.id;
  if (dest == MPI_PROC_NULL) {
    Req r{};
    r.kind = 1;
    r.owner = me();
    r.done = true;
    return new_req(std::move(r));
  }
  if (dest < 0 || dest >= (int)c.ranks.size())
    violation("mpi: %s to invalid rank %d", nm, dest);
  if (count < 0)
    violation("mpi: %s with negative count", nm);
  auto m = std::make_shared<Msg>();
  m->src = c.index[me()];
  m->dst = dest;
  m->tag = tag;
  m->comm = comm;
  m->n = (size_t)count * tsize(type);
  m->buf = buf;
  m->order = S->order++;
  uint64_t delay = K.net_delay ? rnd_below(S_NET, K.net_delay + 1) : 0;
  uint64_t &la = S->last_arrive[{comm, m->src, dest}];
  m->arrive = std::max(la, now_us() + delay);
  la = m->arrive;
  if (delay) {
    fault(F_MSG_DELAY);
    timed_event_at(m->arrive);
  }
  Req r{};
  r.kind = 1;
  r.owner = me();
  r.msg = m;
  r.comm = comm;
  r.rendezvous = force_sync || chance(S_NET, (int)K.rendezvous);
  chk(buf, m->n, false, "MPI send buffer");
  if (r.rendezvous) {
    fault(F_RENDEZVOUS);
  } else if (chance(S_NET, 50)) {
    take_snapshot(*m);
  } else
    fault(F_LATE_BUFFER);
  int id = new_req(std::move(r));
  m->send_req = id;
  S->chan[{comm, dest}].push_back(m);
  progress(comm, dest);
  return id;
}
int do_irecv(void *buf, int count, int type, int src, int tag, int comm, const char *nm) {
  Comm &c = C(comm, nm);
  comm = c.id;
  if (src != MPI_ANY_SOURCE && src != MPI_PROC_NULL && (src < 0 || src >= (int)c.ranks.size()))
    violation("mpi: %s from invalid rank %d", nm, src);
  if (count < 0)
    violation("mpi: %s with negative count", nm);
  Req r{};
  r.kind = 2;
  r.owner = me();
  r.buf = buf;
  r.cap = (size_t)count * tsize(type);
  r.src = src;
  r.tag = tag;
  r.comm = comm;
  r.late = chance(S_NET, 60);
  if (r.late)
    fault(F_LATE_BUFFER);
  chk(buf, r.cap, true, "MPI receive buffer");
  int id = new_req(std::move(r));
  if (src == MPI_PROC_NULL) {
    Req &q = S->reqs[id];
    q.matched = q.written = true;
    return id;
  }
  const int dst = c.index[me()];
  S->posted[{comm, dst}].push_back(id);
  progress(comm, dst);
  return id;
}
bool req_ready(int id) {
  auto it = S->reqs.find(id);
  if (it == S->reqs.end())
    violation("mpi: wait on an invalid request");
  Req &r = it->second;
  if (r.done)
    return true;
  if (r.kind == 1) {
    if (r.rendezvous && !r.matched) {
      progress(r.comm, r.msg->dst);
      return S->reqs[id].matched;
    }
    return true;
  }
  if (r.kind == 2) {
    if (!r.matched)
      progress(r.comm, S->comms[r.comm].index[r.owner]);
    return S->reqs[id].matched;
  }
  return r.coll->narrived == (int)r.coll->parts.size();
}
void req_finish(int *id, MPI_Status *st) {
  Req &r = S->reqs[*id];
  if (r.kind == 1 && r.msg && !r.msg->snap)
    take_snapshot(*r.msg);
  if (r.kind == 2 && r.msg)
    deliver(r);
  if (st)
    *st = r.st;
  S->reqs.erase(*id);
  *id = MPI_REQUEST_NULL;
}

// -------------------------------------------------------------------- RMA --
void rma_apply(Win &w, const RmaOp &o) {
  if (o.target < 0 || o.target >= (int)w.base.size())
    violation("mpi: RMA to invalid rank %d", o.target);
  const size_t n = (size_t)o.ocount * tsize(o.type);
  char *t = w.base[o.target] + o.disp * w.disp[o.target];
  if (o.disp < 0 || o.disp * w.disp[o.target] + (long)n > w.size[o.target])
    violation("mpi: RMA outside the window (disp %ld)", o.disp);
  if (o.kind == 2) {
    check_range(o.origin, n, false, true, "RMA origin");
    memcpy(t, o.origin, n);
    return;
  }
  if (o.result) {
    check_range(o.result, n, true, true, "RMA result");
    memcpy(o.result, t, n);
  }
  if (o.kind == 1 && o.op != MPI_NO_OP) {
    check_range(o.origin, n, false, true, "RMA origin");
    reduce_buf(t, o.origin, o.ocount, o.type, o.op);
  }
}
Win &W(int w, const char *what) {
  if (w <= 0 || w >= (int)S->wins.size())
    violation("mpi: %s on an invalid window", what);
  return S->wins[w];
}
int rma(RmaOp o, int win, const char *nm) {
  CoreGuard g;
  enter(nm);
  Win &w = W(win, nm);
  const int m = S->comms[w.comm].index[me()];
  (void)m;
  const bool locked = w.locks.count({me(), o.target}) && w.locks[{me(), o.target}];
  const bool late = chance(S_NET, (int)K.rma_late);
  if (locked) {
    auto &p = w.pend[{me(), o.target}];
    if (late || p.size()) {
      p.push_back(o);
      fault(F_RMA_LATE);
    } else
      rma_apply(w, o);
  } else {
    auto &p = w.fence_pend[me()];
    if (late || p.size()) {
      p.push_back(o);
      fault(F_RMA_LATE);
    } else
      rma_apply(w, o);
  }
  return MPI_SUCCESS;
}
std::string dl_info() {
  std::string s;
  for (auto &kv : S->chan)
    for (auto &m : kv.second)
      s += "[undelivered " + std::to_string(m->src) + "->" + std::to_string(m->dst) + " tag " + std::to_string(m->tag) + "]";
  for (auto &kv : S->posted)
    for (int id : kv.second) {
      Req &r = S->reqs[id];
      s += "[unmatched recv rank " + std::to_string(kv.first.second) + " from " + std::to_string(r.src) + " tag " + std::to_string(r.tag) + "]";
    }
  return s;
}
} // namespace

// used by the storage layer
int mpi_internal_dup(int comm) {
  MPI_Comm out;
  MPI_Comm_dup(comm, &out);
  return out;
}
void mpi_internal_free(int comm) {
  MPI_Comm c = comm;
  MPI_Comm_free(&c);
}
int mpi_internal_size(int comm) { return (int)C(comm, "hdf5").ranks.size(); }
void mpi_internal_enter(const char *what) { enter(what); }
void mpi_internal_point(int comm, const char *kind, bool sync) {
  CollCall cc = coll_begin(comm, kind);
  if (sync)
    cc.k->sync_all = true;
  coll_arrive(cc);
  coll_wait(cc, [&] { return true; });
  coll_end(cc);
}
static int the_users_comm = 1;
int users_comm() { return the_users_comm; }
void mpi_setup(int nranks, int nnodes, int) {
  delete S;
  S = new State();
  S->comms.reserve(4096); // references stay valid
  S->wins.reserve(1024);
  S->comms.emplace_back();
  S->wins.emplace_back();
  S->nranks = nranks;
  deadlock_info = dl_info;
  int w = new_comm();
  std::vector<int> all;
  for (int i = 0; i < nranks; i++)
    all.push_back(i);
  std::vector<int> world = all;
  for (int i = 0; i < K.idle_ranks; i++) // ranks of the job that do not take part
    world.insert(world.begin() + (long)rnd_below(S_NET, world.size() + 1), nranks + i);
  set_members(S->comms[w], world);
  new_comm(); // id 2 = MPI_COMM_SELF, redirected to one communicator per rank
  for (int i = 0; i < nranks; i++) {
    const int id = new_comm();
    set_members(S->comms[id], {i});
    S->self.push_back(id);
  }
  the_users_comm = 1;
  if (K.idle_ranks) {
    the_users_comm = new_comm();
    set_members(S->comms[the_users_comm], all);
  }
  S->node_of.resize(nranks);
  const bool blocked = chance(S_NET, 50);
  for (int i = 0; i < nranks; i++)
    S->node_of[i] = blocked ? i * nnodes / nranks : (int)rnd_below(S_NET, nnodes);
}
void mpi_usage(int64_t &comms, int64_t &wins) {
  comms = wins = 0;
  if (!S)
    return;
  for (auto &c : S->comms)
    if (c.id > 2 + S->nranks && *c.origin && c.index.count(rank()) && !c.freed.count(rank()))
      comms++;
  for (auto &w : S->wins)
    if (w.base.size() && S->comms[w.comm].index.count(rank()))
      wins++;
}
void mpi_check_clean() {
  if (!S)
    return;
  for (auto &kv : S->chan)
    for (auto &m : kv.second)
      violation("mpi: a message from rank %d to rank %d (tag %d, %zu bytes) was never received", m->src, m->dst, m->tag, m->n);
  for (auto &kv : S->reqs)
    violation("mpi: a %s request of rank %d was never completed", kv.second.kind == 1 ? "send" : kv.second.kind == 2 ? "receive" : "barrier", kv.second.owner);
  for (auto &c : S->comms)
    for (auto &k : c.colls)
      if (k.second->narrived < (int)k.second->parts.size())
        violation("mpi: collective %s was not entered by every rank", k.second->kind.c_str());
}
} // namespace sim

using namespace sim;

extern "C" {
int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *, char ***, int r, int *p) {
  if (p)
    *p = r;
  return 0;
}
int MPI_Initialized(int *f) {
  *f = 1;
  return 0;
}
int MPI_Finalized(int *f) {
  *f = 0;
  return 0;
}
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm, int) {
  CoreGuard g;
  aborted("MPI_Abort");
}
double MPI_Wtime(void) { return (double)now_us() * 1e-6; }
int MPI_Error_string(int e, char *s, int *n) {
  *n = snprintf(s, 64, "simulated MPI error %d", e);
  return 0;
}
int MPI_Comm_rank(MPI_Comm c, int *r) {
  CoreGuard g;
  *r = C(c, "MPI_Comm_rank").index[me()];
  return 0;
}
int MPI_Comm_size(MPI_Comm c, int *r) {
  CoreGuard g;
  *r = (int)C(c, "MPI_Comm_size").ranks.size();
  return 0;
}
int MPI_Comm_free(MPI_Comm *c) {
  CoreGuard g;
  Comm &x = C(*c, "MPI_Comm_free");
  enter("MPI_Comm_free");
  if (*c <= 2 || x.id <= 2 + S->nranks)
    violation("mpi: MPI_Comm_free on a predefined communicator");
  x.freed[me()] = true;
  *c = MPI_COMM_NULL;
  return 0;
}
static int split_impl(MPI_Comm comm, int color, int key, MPI_Comm *out, const char *nm) {
  CollCall cc = coll_begin(comm, nm);
  cc.p->ints = {color, key};
  coll_arrive(cc);
  cc.k->sync_all = true;
  coll_wait(cc, [&] { return all_in(cc); });
  if (color == MPI_UNDEFINED)
    *out = MPI_COMM_NULL;
  else {
    if (!cc.k->made.count(color)) {
      std::vector<std::pair<std::pair<int, int>, int>> m;
      for (size_t i = 0; i < cc.k->parts.size(); i++)
        if (cc.k->parts[i].ints[0] == color)
          m.push_back({{cc.k->parts[i].ints[1], (int)i}, cc.c->ranks[i]});
      std::sort(m.begin(), m.end());
      std::vector<int> r;
      for (auto &x : m)
        r.push_back(x.second);
      int id = new_comm();
      set_members(S->comms[id], r);
      S->comms[id].origin = nm;
      cc.k->made[color] = id;
    }
    *out = cc.k->made[color];
  }
  coll_end(cc);
  return 0;
}
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm *out) {
  CoreGuard g;
  return split_impl(comm, color, key, out, "MPI_Comm_split");
}
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *out) {
  CoreGuard g;
  return split_impl(comm, 0, 0, out, "MPI_Comm_dup");
}
int MPI_Comm_split_type(MPI_Comm comm, int type, int key, MPI_Info, MPI_Comm *out) {
  CoreGuard g;
  (void)type;
  return split_impl(comm, S->node_of[me()], key, out, "MPI_Comm_split_type");
}
int MPI_Barrier(MPI_Comm comm) {
  CoreGuard g;
  CollCall cc = coll_begin(comm, "MPI_Barrier");
  coll_arrive(cc);
  coll_wait(cc, [&] { return all_in(cc); });
  coll_end(cc);
  return 0;
}
int MPI_Ibarrier(MPI_Comm comm, MPI_Request *rq) {
  CoreGuard g;
  CollCall cc = coll_begin(comm, "MPI_Ibarrier");
  coll_arrive(cc);
  Req r{};
  r.kind = 3;
  r.owner = me();
  r.coll = cc.k;
  *rq = new_req(std::move(r));
  coll_end(cc);
  return 0;
}
int MPI_Bcast(void *buf, int n, MPI_Datatype t, int root, MPI_Comm comm) {
  CoreGuard g;
  CollCall cc = coll_begin(comm, "MPI_Bcast");
  cc.p->root = root;
  cc.p->a = (long)n * tsize(t);
  check_same(cc, true, true, false);
  if (root < 0 || root >= (int)cc.c->ranks.size())
    violation("mpi: MPI_Bcast invalid root");
  if (cc.idx == root)
    snap(cc.p->send, buf, cc.p->a);
  else
    chk(buf, cc.p->a, true, "MPI receive buffer");
  coll_arrive(cc);
  coll_wait(cc, [&] { return cc.idx == root || cc.k->parts[root].arrived; });
  if (cc.idx != root)
    put(buf, cc.k->parts[root].send.data(), cc.p->a);
  coll_end(cc);
  return 0;
}
static std::vector<char> reduce_all(CollCall &cc, int n, int t, int op) {
  std::vector<char> acc = cc.k->parts[cc.k->perm[0]].send;
  for (size_t i = 1; i < cc.k->perm.size(); i++)
    reduce_buf(acc.data(), cc.k->parts[cc.k->perm[i]].send.data(), n, t, op);
  if (K.reduce_order && cc.k->perm.size() > 1)
    fault(F_REDUCE_PERMUTE);
  return acc;
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm) {
  CoreGuard g;
  CollCall cc = coll_begin(comm, "MPI_Allreduce");
  cc.p->a = (long)n * tsize(t);
  cc.p->op = op;
  check_same(cc, false, true, true);
  snap(cc.p->send, s == MPI_IN_PLACE ? r : s, cc.p->a);
  chk(r, cc.p->a, true, "MPI receive buffer");
  coll_arrive(cc);
  coll_wait(cc, [&] { return all_in(cc); });
  auto acc = reduce_all(cc, n, t, op);
  put(r, acc.data(), cc.p->a);
  coll_end(cc);
  return 0;
}
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm comm) {
  CoreGuard g;
  CollCall cc = coll_begin(comm, "MPI_Reduce");
  cc.p->a = (long)n * tsize(t);
  cc.p->op = op;
  cc.p->root = root;
  check_same(cc, true, true, true);
  snap(cc.p->send, s == MPI_IN_PLACE ? r : s, cc.p->a);
  coll_arrive(cc);
  coll_wait(cc, [&] { return cc.idx != root || all_in(cc); });
  if (cc.idx == root) {
    auto acc = reduce_all(cc, n, t, op);
    put(r, acc.data(), cc.p->a);
  }
  coll_end(cc);
  return 0;
}
static int scan_impl(const void *s, void *r, int n, int t, int op, int comm, bool ex) {
  CollCall cc = coll_begin(comm, ex ? "MPI_Exscan" : "MPI_Scan");
  cc.p->a = (long)n * tsize(t);
  cc.p->op = op;
  check_same(cc, false, true, true);
  snap(cc.p->send, s == MPI_IN_PLACE ? r : s, cc.p->a);
  coll_arrive(cc);
  const int upto = ex ? cc.idx : cc.idx + 1;
  coll_wait(cc, [&] {
    for (int i = 0; i < upto; i++)
      if (!cc.k->parts[i].arrived)
        return false;
    return true;
  });
  if (upto > 0) {
    auto acc = cc.k->parts[0].send;
    for (int i = 1; i < upto; i++)
      reduce_buf(acc.data(), cc.k->parts[i].send.data(), n, t, op);
    put(r, acc.data(), cc.p->a);
  } else if (K.poison) // Exscan leaves rank 0 undefined
    ; 
  coll_end(cc);
  return 0;
}
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  CoreGuard g;
  return scan_impl(s, r, n, t, op, c, false);
}
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  CoreGuard g;
  return scan_impl(s, r, n, t, op, c, true);
}
static int gather_impl(const void *s, int sn, int st, void *r, const int *rn, const int *disp, int rn1, int rt, int root, int comm, bool all, const char *nm) {
  CollCall cc = coll_begin(comm, nm);
  const size_t sb = (size_t)sn * tsize(st);
  if (sn < 0)
    violation("mpi: %s negative count", nm);
  cc.p->root = root;
  cc.p->a = 0;
  if (!all)
    check_same(cc, true, false, false);
  if (s == MPI_IN_PLACE)
    violation("simulator: MPI_IN_PLACE gather unsupported");
  snap(cc.p->send, s, sb);
  coll_arrive(cc);
  const bool recv = all || cc.idx == root;
  coll_wait(cc, [&] { return !recv || all_in(cc); });
  if (recv) {
    const size_t rs = tsize(rt);
    for (size_t i = 0; i < cc.k->parts.size(); i++) {
      const size_t want = (size_t)(rn ? rn[i] : rn1) * rs;
      if (want != cc.k->parts[i].send.size())
        violation("mpi: %s receives %zu bytes from rank %zu which sent %zu", nm, want, i, cc.k->parts[i].send.size());
      put((char *)r + (rn ? (size_t)disp[i] : i * rn1) * rs, cc.k->parts[i].send.data(), want);
    }
  }
  coll_end(cc);
  return 0;
}
int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  CoreGuard g;
  return gather_impl(s, sn, st, r, nullptr, nullptr, rn, rt, root, c, false, "MPI_Gather");
}
int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rn, const int *d, MPI_Datatype rt, int root, MPI_Comm c) {
  CoreGuard g;
  static const int z = 0;
  return gather_impl(s, sn, st, r, rn ? rn : &z, d, 0, rt, root, c, false, "MPI_Gatherv");
}
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) {
  CoreGuard g;
  return gather_impl(s, sn, st, r, nullptr, nullptr, rn, rt, 0, c, true, "MPI_Allgather");
}
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rn, const int *d, MPI_Datatype rt, MPI_Comm c) {
  CoreGuard g;
  return gather_impl(s, sn, st, r, rn, d, 0, rt, 0, c, true, "MPI_Allgatherv");
}
int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm comm) {
  CoreGuard g;
  CollCall cc = coll_begin(comm, "MPI_Alltoall");
  const size_t n = cc.k->parts.size(), b = (size_t)sn * tsize(st);
  snap(cc.p->send, s, b * n);
  coll_arrive(cc);
  coll_wait(cc, [&] { return all_in(cc); });
  for (size_t i = 0; i < n; i++) {
    if (cc.k->parts[i].send.size() != b * n || b != (size_t)rn * tsize(rt))
      violation("mpi: MPI_Alltoall size mismatch");
    put((char *)r + i * b, cc.k->parts[i].send.data() + cc.idx * b, b);
  }
  coll_end(cc);
  return 0;
}
static void topo_neighbors(Comm &c, int i, std::vector<int> &in, std::vector<int> &out) {
  if (c.topo == MPI_DIST_GRAPH) {
    in = c.in[i];
    out = c.out[i];
    return;
  }
  if (c.topo != MPI_CART)
    violation("mpi: neighbourhood collective on a communicator without topology");
  violation("simulator: neighbourhood collectives on cartesian communicators unsupported");
}
// k-th edge src->dst carries the k-th such block
static int neigh_impl(std::vector<std::vector<char>> &blocks, const std::vector<size_t> &rn, const std::vector<char *> &rp, int comm, const char *nm, CollCall &cc) {
  (void)comm;
  std::vector<int> in, out;
  topo_neighbors(*cc.c, cc.idx, in, out);
  cc.p->blocks = std::move(blocks);
  coll_arrive(cc);
  coll_wait(cc, [&] {
    for (int x : in)
      if (!cc.k->parts[x].arrived)
        return false;
    return true;
  });
  std::map<int, int> nth;
  for (size_t i = 0; i < in.size(); i++) {
    const int src = in[i];
    int k = nth[src]++;
    auto &so = cc.c->out[src];
    int found = -1;
    for (size_t j = 0; j < so.size(); j++)
      if (so[j] == cc.idx && k-- == 0) {
        found = (int)j;
        break;
      }
    if (found < 0)
      violation("mpi: %s graph edges are inconsistent", nm);
    auto &b = cc.k->parts[src].blocks[found];
    if (b.size() != rn[i])
      violation("mpi: %s receives %zu bytes from rank %d which sent %zu", nm, rn[i], src, b.size());
    put(rp[i], b.data(), b.size());
  }
  coll_end(cc);
  return 0;
}
int MPI_Neighbor_alltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm comm) {
  CoreGuard g;
  CollCall cc = coll_begin(comm, "MPI_Neighbor_alltoall");
  std::vector<int> in, out;
  topo_neighbors(*cc.c, cc.idx, in, out);
  const size_t sb = (size_t)sn * tsize(st), rb = (size_t)rn * tsize(rt);
  std::vector<std::vector<char>> bl(out.size());
  for (size_t i = 0; i < out.size(); i++)
    snap(bl[i], (const char *)s + i * sb, sb);
  std::vector<size_t> ns(in.size(), rb);
  std::vector<char *> ps;
  for (size_t i = 0; i < in.size(); i++)
    ps.push_back((char *)r + i * rb);
  return neigh_impl(bl, ns, ps, comm, "MPI_Neighbor_alltoall", cc);
}
int MPI_Neighbor_alltoallw(const void *s, const int *sn, const MPI_Aint *sd, const MPI_Datatype *st, void *r, const int *rn, const MPI_Aint *rd, const MPI_Datatype *rt, MPI_Comm comm) {
  CoreGuard g;
  CollCall cc = coll_begin(comm, "MPI_Neighbor_alltoallw");
  std::vector<int> in, out;
  topo_neighbors(*cc.c, cc.idx, in, out);
  std::vector<std::vector<char>> bl(out.size());
  for (size_t i = 0; i < out.size(); i++)
    snap(bl[i], (const char *)s + sd[i], (size_t)sn[i] * tsize(st[i]));
  std::vector<size_t> ns;
  std::vector<char *> ps;
  for (size_t i = 0; i < in.size(); i++) {
    ns.push_back((size_t)rn[i] * tsize(rt[i]));
    ps.push_back((char *)r + rd[i]);
  }
  return neigh_impl(bl, ns, ps, comm, "MPI_Neighbor_alltoallw", cc);
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) {
  CoreGuard g;
  enter("MPI_Isend");
  *r = do_isend(b, n, t, d, tag, c, false, "MPI_Isend");
  return 0;
}
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) {
  CoreGuard g;
  enter("MPI_Issend");
  *r = do_isend(b, n, t, d, tag, c, true, "MPI_Issend");
  return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) {
  CoreGuard g;
  enter("MPI_Irecv");
  *r = do_irecv(b, n, t, s, tag, c, "MPI_Irecv");
  return 0;
}
int MPI_Wait(MPI_Request *r, MPI_Status *st) {
  CoreGuard g;
  enter("MPI_Wait");
  if (*r == MPI_REQUEST_NULL)
    return 0;
  auto p = [&]() { return req_ready(*r); };
  host_block_until(p, "MPI_Wait");
  req_finish(r, st);
  return 0;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) {
  CoreGuard g;
  enter("MPI_Waitall");
  auto p = [&]() {
    bool all = true;
    for (int i = 0; i < n; i++)
      if (r[i] != MPI_REQUEST_NULL && !req_ready(r[i]))
        all = false;
    return all;
  };
  host_block_until(p, "MPI_Waitall");
  for (int i = 0; i < n; i++)
    if (r[i] != MPI_REQUEST_NULL)
      req_finish(&r[i], st ? &st[i] : nullptr);
  return 0;
}
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st) {
  CoreGuard g;
  enter("MPI_Waitany");
  std::vector<int> ready;
  bool any = false;
  for (int i = 0; i < n; i++)
    any |= r[i] != MPI_REQUEST_NULL;
  if (!any) {
    *idx = MPI_UNDEFINED;
    return 0;
  }
  auto p = [&]() {
    ready.clear();
    for (int i = 0; i < n; i++)
      if (r[i] != MPI_REQUEST_NULL && req_ready(r[i]))
        ready.push_back(i);
    return ready.size() > 0;
  };
  host_block_until(p, "MPI_Waitany");
  p();
  *idx = ready[rnd_below(S_NET, ready.size())];
  req_finish(&r[*idx], st);
  return 0;
}
int MPI_Test(MPI_Request *r, int *f, MPI_Status *st) {
  CoreGuard g;
  enter("MPI_Test");
  host_yield_force();
  if (*r == MPI_REQUEST_NULL) {
    *f = 1;
    return 0;
  }
  *f = req_ready(*r) && !chance(S_NET, 20);
  if (*f)
    req_finish(r, st);
  return 0;
}
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *st) {
  CoreGuard g;
  enter("MPI_Testall");
  host_yield_force();
  bool all = true;
  for (int i = 0; i < n; i++)
    if (r[i] != MPI_REQUEST_NULL && !req_ready(r[i]))
      all = false;
  *f = all;
  if (all)
    for (int i = 0; i < n; i++)
      if (r[i] != MPI_REQUEST_NULL)
        req_finish(&r[i], st ? &st[i] : nullptr);
  return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  CoreGuard g;
  enter("MPI_Send");
  MPI_Request r = do_isend(b, n, t, d, tag, c, false, "MPI_Send");
  auto p = [&]() { return req_ready(r); };
  host_block_until(p, "MPI_Send");
  req_finish(&r, nullptr);
  return 0;
}
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  CoreGuard g;
  enter("MPI_Ssend");
  MPI_Request r = do_isend(b, n, t, d, tag, c, true, "MPI_Ssend");
  auto p = [&]() { return req_ready(r); };
  host_block_until(p, "MPI_Ssend");
  req_finish(&r, nullptr);
  return 0;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) {
  CoreGuard g;
  enter("MPI_Recv");
  MPI_Request r = do_irecv(b, n, t, s, tag, c, "MPI_Recv");
  auto p = [&]() { return req_ready(r); };
  host_block_until(p, "MPI_Recv");
  req_finish(&r, st);
  return 0;
}
int MPI_Sendrecv(const void *b, int n, MPI_Datatype t, int d, int tag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st) {
  CoreGuard g;
  enter("MPI_Sendrecv");
  MPI_Request q[2];
  q[0] = do_irecv(rb, rn, rt, s, rtag, c, "MPI_Sendrecv");
  q[1] = do_isend(b, n, t, d, tag, c, false, "MPI_Sendrecv");
  auto p = [&]() { return req_ready(q[0]) && req_ready(q[1]); };
  host_block_until(p, "MPI_Sendrecv");
  req_finish(&q[0], st);
  req_finish(&q[1], nullptr);
  return 0;
}
int MPI_Iprobe(int s, int tag, MPI_Comm comm, int *f, MPI_Status *st) {
  CoreGuard g;
  enter("MPI_Iprobe");
  host_yield_force();
  Comm &c = C(comm, "MPI_Iprobe");
  *f = 0;
  for (auto &m : S->chan[{c.id, c.index[me()]}])
    if ((s == MPI_ANY_SOURCE || m->src == s) && (tag == MPI_ANY_TAG || m->tag == tag) && m->arrive <= now_us()) {
      *f = 1;
      if (st) {
        st->MPI_SOURCE = m->src;
        st->MPI_TAG = m->tag;
        st->sim_bytes = (long)m->n;
      }
      break;
    }
  return 0;
}
int MPI_Probe(int s, int tag, MPI_Comm comm, MPI_Status *st) {
  int f = 0;
  while (!f)
    MPI_Iprobe(s, tag, comm, &f, st);
  return 0;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) {
  CoreGuard g;
  *n = (int)(st->sim_bytes / (long)tsize(t));
  return 0;
}
int MPI_Type_size(MPI_Datatype t, int *n) {
  CoreGuard g;
  *n = (int)tsize(t);
  return 0;
}
static int win_create(MPI_Aint n, int disp, MPI_Comm comm, void *baseptr, MPI_Win *win, bool shared, const char *nm) {
  CollCall cc = coll_begin(comm, nm);
  cc.p->ints = {disp};
  cc.p->a = n;
  cc.p->b = n;
  coll_arrive(cc);
  cc.k->sync_all = true;
  coll_wait(cc, [&] { return all_in(cc); });
  if (!cc.k->made.count(0)) {
    S->wins.emplace_back();
    Win &w = S->wins.back();
    // a window keeps its own copy of the group of its communicator
    w.comm = new_comm();
    set_members(S->comms[w.comm], cc.c->ranks);
    w.shared = shared;
    const size_t N = cc.k->parts.size();
    w.nshared.resize(N);
    w.nexcl.resize(N);
    long tot = 0;
    for (auto &p : cc.k->parts)
      tot += p.b;
    char *base = shared ? (char *)arena_alloc(2, tot ? tot : 1, 64) : nullptr;
    w.alloc = base;
    long off = 0;
    for (auto &p : cc.k->parts) {
      w.size.push_back(p.b);
      w.disp.push_back(p.ints[0]);
      w.base.push_back(shared ? base + off : (char *)arena_alloc(2, p.b ? p.b : 1, 64));
      off += p.b;
    }
    cc.k->made[0] = (int)S->wins.size() - 1;
  }
  *win = cc.k->made[0];
  *(void **)baseptr = S->wins[*win].base[cc.idx];
  coll_end(cc);
  return 0;
}
int MPI_Win_allocate(MPI_Aint n, int d, MPI_Info, MPI_Comm c, void *b, MPI_Win *w) {
  CoreGuard g;
  return win_create(n, d, c, b, w, false, "MPI_Win_allocate");
}
int MPI_Win_allocate_shared(MPI_Aint n, int d, MPI_Info, MPI_Comm c, void *b, MPI_Win *w) {
  CoreGuard g;
  return win_create(n, d, c, b, w, true, "MPI_Win_allocate_shared");
}
int MPI_Win_shared_query(MPI_Win win, int r, MPI_Aint *n, int *d, void *b) {
  CoreGuard g;
  Win &w = W(win, "MPI_Win_shared_query");
  if (!w.shared)
    violation("mpi: MPI_Win_shared_query on a window that is not shared");
  if (r == MPI_PROC_NULL)
    r = 0;
  *n = w.size[r];
  *d = w.disp[r];
  *(void **)b = w.base[r];
  return 0;
}
int MPI_Win_free(MPI_Win *win) {
  CoreGuard g;
  Win &w = W(*win, "MPI_Win_free");
  CollCall cc = coll_begin(w.comm, "MPI_Win_free");
  coll_arrive(cc);
  cc.k->sync_all = true;
  coll_wait(cc, [&] { return all_in(cc); });
  if (!cc.k->made.count(0)) {
    cc.k->made[0] = 1;
    for (auto &l : w.locks)
      if (l.second)
        violation("mpi: MPI_Win_free on a locked window");
    if (w.shared)
      arena_free(2, w.alloc);
    else
      for (auto *b : w.base)
        arena_free(2, b);
    w.base.clear();
  }
  coll_end(cc);
  *win = MPI_WIN_NULL;
  return 0;
}
int MPI_Win_fence(int, MPI_Win win) {
  CoreGuard g;
  Win &w = W(win, "MPI_Win_fence");
  for (auto &o : w.fence_pend[me()])
    rma_apply(w, o);
  w.fence_pend[me()].clear();
  CollCall cc = coll_begin(w.comm, "MPI_Win_fence");
  coll_arrive(cc);
  coll_wait(cc, [&] { return all_in(cc); });
  coll_end(cc);
  return 0;
}
int MPI_Win_lock(int type, int target, int, MPI_Win win) {
  CoreGuard g;
  enter("MPI_Win_lock");
  Win &w = W(win, "MPI_Win_lock");
  if (target < 0 || target >= (int)w.base.size())
    violation("mpi: MPI_Win_lock invalid target %d", target);
  if (w.locks[{me(), target}])
    violation("mpi: MPI_Win_lock on an already locked target");
  auto p = [&]() { return type == MPI_LOCK_SHARED ? w.nexcl[target] == 0 : (w.nexcl[target] == 0 && w.nshared[target] == 0); };
  host_block_until(p, "MPI_Win_lock");
  w.locks[{me(), target}] = type;
  (type == MPI_LOCK_SHARED ? w.nshared : w.nexcl)[target]++;
  return 0;
}
int MPI_Win_unlock(int target, MPI_Win win) {
  CoreGuard g;
  enter("MPI_Win_unlock");
  Win &w = W(win, "MPI_Win_unlock");
  int t = w.locks[{me(), target}];
  if (!t)
    violation("mpi: MPI_Win_unlock without lock");
  auto &p = w.pend[{me(), target}];
  for (auto &o : p)
    rma_apply(w, o);
  p.clear();
  w.locks[{me(), target}] = 0;
  (t == MPI_LOCK_SHARED ? w.nshared : w.nexcl)[target]--;
  return 0;
}
int MPI_Win_lock_all(int, MPI_Win win) {
  CoreGuard g;
  Win &w = W(win, "MPI_Win_lock_all");
  for (size_t i = 0; i < w.base.size(); i++)
    MPI_Win_lock(MPI_LOCK_SHARED, (int)i, 0, win);
  return 0;
}
int MPI_Win_unlock_all(MPI_Win win) {
  CoreGuard g;
  Win &w = W(win, "MPI_Win_unlock_all");
  for (size_t i = 0; i < w.base.size(); i++)
    MPI_Win_unlock((int)i, win);
  return 0;
}
int MPI_Win_flush(int target, MPI_Win win) {
  CoreGuard g;
  enter("MPI_Win_flush");
  Win &w = W(win, "MPI_Win_flush");
  auto &p = w.pend[{me(), target}];
  for (auto &o : p)
    rma_apply(w, o);
  p.clear();
  return 0;
}
int MPI_Win_sync(MPI_Win) { return 0; }
int MPI_Get_accumulate(const void *o, int on, MPI_Datatype ot, void *r, int rn, MPI_Datatype rt, int target, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Op op, MPI_Win win) {
  (void)rn; (void)rt; (void)tn; (void)tt;
  return rma({1, o, op == MPI_NO_OP ? rn : on, op == MPI_NO_OP ? rt : ot, r, target, disp, op}, win, "MPI_Get_accumulate");
}
int MPI_Fetch_and_op(const void *o, void *r, MPI_Datatype t, int target, MPI_Aint disp, MPI_Op op, MPI_Win win) {
  return rma({1, o, 1, t, r, target, disp, op}, win, "MPI_Fetch_and_op");
}
int MPI_Accumulate(const void *o, int on, MPI_Datatype ot, int target, MPI_Aint disp, int, MPI_Datatype, MPI_Op op, MPI_Win win) {
  return rma({1, o, on, ot, nullptr, target, disp, op}, win, "MPI_Accumulate");
}
int MPI_Put(const void *o, int on, MPI_Datatype ot, int target, MPI_Aint disp, int, MPI_Datatype, MPI_Win win) {
  return rma({2, o, on, ot, nullptr, target, disp, MPI_REPLACE}, win, "MPI_Put");
}
int MPI_Get(void *o, int on, MPI_Datatype ot, int target, MPI_Aint disp, int, MPI_Datatype, MPI_Win win) {
  return rma({3, nullptr, on, ot, o, target, disp, MPI_NO_OP}, win, "MPI_Get");
}
int MPI_Dims_create(int n, int nd, int *dims) {
  CoreGuard g;
  int rem = n;
  std::vector<int> freed;
  for (int i = 0; i < nd; i++)
    if (dims[i] > 0) {
      if (rem % dims[i])
        violation("mpi: MPI_Dims_create invalid constraint");
      rem /= dims[i];
    } else
      freed.push_back(i);
  std::vector<int> f(freed.size(), 1), pf;
  for (int p = 2, m = rem; m > 1; p++)
    while (m % p == 0) {
      pf.push_back(p);
      m /= p;
    }
  std::sort(pf.rbegin(), pf.rend());
  for (int p : pf) {
    if (f.empty())
      break;
    *std::min_element(f.begin(), f.end()) *= p;
  }
  std::sort(f.rbegin(), f.rend());
  for (size_t i = 0; i < freed.size(); i++)
    dims[freed[i]] = f[i];
  return 0;
}
int MPI_Cart_create(MPI_Comm comm, int nd, const int *dims, const int *per, int reorder, MPI_Comm *out) {
  CoreGuard g;
  CollCall cc = coll_begin(comm, "MPI_Cart_create");
  cc.p->ints.assign(dims, dims + nd);
  coll_arrive(cc);
  cc.k->sync_all = true;
  coll_wait(cc, [&] { return all_in(cc); });
  for (auto &p : cc.k->parts)
    if (p.ints != cc.p->ints)
      violation("mpi: MPI_Cart_create arguments differ between ranks");
  int tot = 1;
  for (int i = 0; i < nd; i++)
    tot *= dims[i];
  if (tot > (int)cc.c->ranks.size())
    violation("mpi: MPI_Cart_create grid larger than the communicator");
  if (!cc.k->made.count(0)) {
    int id = new_comm();
    Comm &x = S->comms[id];
    std::vector<int> mem(cc.c->ranks.begin(), cc.c->ranks.begin() + tot);
    if (reorder && K.cart_reorder) // allowed: the new numbering may follow the network
      for (int i = tot - 1; i > 0; i--)
        std::swap(mem[i], mem[rnd_below(S_NET, i + 1)]);
    if (!std::equal(mem.begin(), mem.end(), cc.c->ranks.begin()))
      fault(F_RENUMBERED);
    set_members(x, mem);
    x.topo = MPI_CART;
    x.cdims.assign(dims, dims + nd);
    x.cperiods.assign(per, per + nd);
    x.origin = "cart";
    cc.k->made[0] = id;
  }
  *out = cc.idx < tot ? cc.k->made[0] : MPI_COMM_NULL;
  coll_end(cc);
  return 0;
}
static void cart_coords(Comm &c, int r, int *co) {
  for (int i = (int)c.cdims.size() - 1; i >= 0; i--) {
    co[i] = r % c.cdims[i];
    r /= c.cdims[i];
  }
}
int MPI_Cart_get(MPI_Comm comm, int nd, int *dims, int *per, int *co) {
  CoreGuard g;
  Comm &c = C(comm, "MPI_Cart_get");
  if (c.topo != MPI_CART)
    violation("mpi: MPI_Cart_get on a communicator without cartesian topology");
  std::vector<int> tmp(c.cdims.size());
  cart_coords(c, c.index[me()], tmp.data());
  for (int i = 0; i < nd && i < (int)c.cdims.size(); i++) {
    dims[i] = c.cdims[i];
    per[i] = c.cperiods[i];
    co[i] = tmp[i];
  }
  return 0;
}
int MPI_Cart_coords(MPI_Comm comm, int r, int nd, int *co) {
  CoreGuard g;
  Comm &c = C(comm, "MPI_Cart_coords");
  std::vector<int> tmp(c.cdims.size());
  cart_coords(c, r, tmp.data());
  for (int i = 0; i < nd && i < (int)tmp.size(); i++)
    co[i] = tmp[i];
  return 0;
}
int MPI_Cart_rank(MPI_Comm comm, const int *co, int *r) {
  CoreGuard g;
  Comm &c = C(comm, "MPI_Cart_rank");
  int x = 0;
  for (size_t i = 0; i < c.cdims.size(); i++) {
    int k = co[i];
    if (c.cperiods[i])
      k = ((k % c.cdims[i]) + c.cdims[i]) % c.cdims[i];
    else if (k < 0 || k >= c.cdims[i])
      violation("mpi: MPI_Cart_rank coordinate out of range");
    x = x * c.cdims[i] + k;
  }
  *r = x;
  return 0;
}
int MPI_Topo_test(MPI_Comm comm, int *s) {
  CoreGuard g;
  *s = C(comm, "MPI_Topo_test").topo;
  return 0;
}
int MPI_Dist_graph_create(MPI_Comm comm, int n, const int *src, const int *deg, const int *dst, const int *wt, MPI_Info, int, MPI_Comm *out) {
  CoreGuard g;
  CollCall cc = coll_begin(comm, "MPI_Dist_graph_create");
  cc.p->ints.clear();
  int k = 0;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < deg[i]; j++, k++) {
      cc.p->ints.push_back(src[i]);
      cc.p->ints.push_back(dst[k]);
      cc.p->ints.push_back(wt > (const int *)16 ? wt[k] : 1);
    }
  coll_arrive(cc);
  cc.k->sync_all = true;
  coll_wait(cc, [&] { return all_in(cc); });
  if (!cc.k->made.count(0)) {
    int id = new_comm();
    Comm &x = S->comms[id];
    x.origin = "dist graph";
    set_members(x, cc.c->ranks);
    x.topo = MPI_DIST_GRAPH;
    x.weighted = wt != MPI_UNWEIGHTED;
    const size_t N = x.ranks.size();
    x.in.resize(N);
    x.out.resize(N);
    x.inw.resize(N);
    x.outw.resize(N);
    std::vector<std::array<int, 3>> e;
    for (auto &p : cc.k->parts)
      for (size_t i = 0; i < p.ints.size(); i += 3) {
        if (p.ints[i] < 0 || p.ints[i] >= (int)N || p.ints[i + 1] < 0 || p.ints[i + 1] >= (int)N)
          violation("mpi: MPI_Dist_graph_create edge with an invalid rank");
        e.push_back({p.ints[i], p.ints[i + 1], p.ints[i + 2]});
      }
    // the neighbour order of the general constructor is implementation defined
    if (K.any_source && e.size() > 1)
      for (size_t i = e.size() - 1; i > 0; i--)
        std::swap(e[i], e[rnd_below(S_NET, i + 1)]);
    for (auto &q : e) {
      x.out[q[0]].push_back(q[1]);
      x.outw[q[0]].push_back(q[2]);
      x.in[q[1]].push_back(q[0]);
      x.inw[q[1]].push_back(q[2]);
    }
    cc.k->made[0] = id;
  }
  *out = cc.k->made[0];
  coll_end(cc);
  return 0;
}
int MPI_Dist_graph_create_adjacent(MPI_Comm comm, int ni, const int *src, const int *sw, int no, const int *dst, const int *dw, MPI_Info, int, MPI_Comm *out) {
  CoreGuard g;
  CollCall cc = coll_begin(comm, "MPI_Dist_graph_create_adjacent");
  cc.p->ints.clear();
  cc.p->ints.push_back(ni);
  cc.p->ints.push_back(no);
  for (int i = 0; i < ni; i++) {
    cc.p->ints.push_back(src[i]);
    cc.p->ints.push_back(sw > (const int *)16 ? sw[i] : 1);
  }
  for (int i = 0; i < no; i++) {
    cc.p->ints.push_back(dst[i]);
    cc.p->ints.push_back(dw > (const int *)16 ? dw[i] : 1);
  }
  coll_arrive(cc);
  cc.k->sync_all = true;
  coll_wait(cc, [&] { return all_in(cc); });
  if (!cc.k->made.count(0)) {
    int id = new_comm();
    Comm &x = S->comms[id];
    x.origin = "dist graph";
    set_members(x, cc.c->ranks);
    x.topo = MPI_DIST_GRAPH;
    x.weighted = sw != MPI_UNWEIGHTED || dw != MPI_UNWEIGHTED;
    const size_t N = x.ranks.size();
    x.in.resize(N);
    x.out.resize(N);
    x.inw.resize(N);
    x.outw.resize(N);
    for (size_t r = 0; r < N; r++) {
      auto &v = cc.k->parts[r].ints;
      size_t q = 2;
      for (int i = 0; i < v[0]; i++, q += 2) {
        x.in[r].push_back(v[q]);
        x.inw[r].push_back(v[q + 1]);
      }
      for (int i = 0; i < v[1]; i++, q += 2) {
        x.out[r].push_back(v[q]);
        x.outw[r].push_back(v[q + 1]);
      }
    }
    for (size_t r = 0; r < N; r++)
      for (int d : x.out[r]) {
        if (d < 0 || d >= (int)N)
          violation("mpi: MPI_Dist_graph_create_adjacent edge with an invalid rank");
        if (std::count(x.out[r].begin(), x.out[r].end(), d) != std::count(x.in[d].begin(), x.in[d].end(), (int)r))
          violation("mpi: MPI_Dist_graph_create_adjacent edges disagree between ranks");
      }
    for (size_t r = 0; r < N; r++)
      for (int d : x.in[r])
        if (d < 0 || d >= (int)N || std::count(x.out[d].begin(), x.out[d].end(), (int)r) != std::count(x.in[r].begin(), x.in[r].end(), d))
          violation("mpi: MPI_Dist_graph_create_adjacent edges disagree between ranks");
    cc.k->made[0] = id;
  }
  *out = cc.k->made[0];
  coll_end(cc);
  return 0;
}
int MPI_Dist_graph_neighbors_count(MPI_Comm comm, int *i, int *o, int *w) {
  CoreGuard g;
  Comm &c = C(comm, "MPI_Dist_graph_neighbors_count");
  if (c.topo != MPI_DIST_GRAPH)
    violation("mpi: MPI_Dist_graph_neighbors_count without graph topology");
  const int r = c.index[me()];
  *i = (int)c.in[r].size();
  *o = (int)c.out[r].size();
  *w = c.weighted;
  return 0;
}
int MPI_Dist_graph_neighbors(MPI_Comm comm, int mi, int *s, int *sw, int mo, int *d, int *dw) {
  CoreGuard g;
  Comm &c = C(comm, "MPI_Dist_graph_neighbors");
  const int r = c.index[me()];
  for (int i = 0; i < mi && i < (int)c.in[r].size(); i++) {
    s[i] = c.in[r][i];
    if (sw > (int *)16)
      sw[i] = c.inw[r][i];
  }
  for (int i = 0; i < mo && i < (int)c.out[r].size(); i++) {
    d[i] = c.out[r][i];
    if (dw > (int *)16)
      dw[i] = c.outw[r][i];
  }
  return 0;
}
}
