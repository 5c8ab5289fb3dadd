// P03 cell ownership, P15 communication helpers, P16 per-cell object gathering.
#include "wl.hpp"
#include <neso_particles/mesh_hierarchy_data/mesh_hierarchy_data.hpp>
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
enum OpK { CLAIM, CONT, EDGES, GATHV, AGATHV, SBCAST, SRED, SALLRED, SPAIR, NEIGH, NEIGHW, REVG, CART, OK_N };
static const char *kn[] = {"claim epoch", "cell container", "edge exchange", "gather", "all gather", "set broadcast",
                           "set union on root", "set union on all", "set send and receive", "neighbour all to all",
                           "neighbour all to all w", "reverse graph", "cartesian mesh"};
#if defined(SIM_P15)
static const int wt[OK_N] = {0, 0, 24, 8, 8, 8, 14, 10, 8, 12, 12, 6, 0};
#elif defined(SIM_P16)
static const int wt[OK_N] = {20, 80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
#else
static const int wt[OK_N] = {80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 20};
#endif
struct Op {
  int k, n;
  u64 salt;
};
static std::vector<Op> ops;
static std::vector<int> color, local; // sub communicator of each rank and the rank there
static std::vector<std::vector<int>> members;
struct HSpec {
  int ndim, order;
  std::vector<int> dims;
  i64 n;
};
static std::vector<HSpec> hs;
void choose_knobs() {
  if (sim::K.nranks < 2 && sim::chance(sim::S_CFG, 80))
    sim::K.nranks = 2 + (i64)sim::rnd_below(sim::S_CFG, 6);
  if (sim::chance(sim::S_CFG, 3))
    sim::K.nranks = 7 + (i64)sim::rnd_below(sim::S_CFG, 6);
}
void plan() {
  seed_plan();
  Rng r = rng(1);
  const int R = nranks();
  int nc = R > 1 && r.pct(35) ? 2 : 1;
  color.assign(R, 0);
  local.assign(R, 0);
  members.assign(nc, {});
  for (int i = 0; i < R; i++) {
    color[i] = nc == 1 ? 0 : (int)r.below(nc);
    local[i] = (int)members[color[i]].size();
    members[color[i]].push_back(i);
  }
  hs.clear();
  for (int h = 0; h < 2; h++) {
    HSpec s;
    do {
      s.ndim = (int)r.range(1, 3);
      s.order = (int)r.below(3);
      s.dims.clear();
      s.n = 1;
      for (int d = 0; d < s.ndim; d++) {
        s.dims.push_back((int)r.range(1, 5));
        s.n *= (i64)s.dims[d] << s.order;
      }
    } while (s.n > 128);
    hs.push_back(s);
  }
  int n = (int)r.range(3, 10), tot = 0;
  for (int k = 0; k < OK_N; k++)
    tot += wt[k];
  ops.clear();
  for (int i = 0; i < n; i++) {
    int x = (int)r.below(tot), k = 0;
    while (k < OK_N - 1 && x >= wt[k])
      x -= wt[k], k++;
    ops.push_back({k, (int)r.range(0, 12), r.next()});
  }
}
// claims of one rank: (cell, weight); the same cell can be claimed repeatedly
static std::vector<std::pair<i64, int>> claims(const HSpec &s, u64 salt, int wr) {
  Rng g = rng(salt, (u64)wr, 31);
  std::vector<std::pair<i64, int>> c;
  int mode = (int)(salt % 6);
  if (mode == 5 && g.pct(50))
    return c;
  int n = (int)g.range(0, 2 * s.n);
  for (int i = 0; i < n; i++) {
    i64 cell = mode == 1 ? g.below(std::max<i64>(1, s.n / 3)) : g.below(s.n);
    int w = mode == 0 ? 1
            : mode == 2 ? (int)g.range(1, 2)
            : mode == 3 ? (int)g.range(std::numeric_limits<int>::max() - 3, std::numeric_limits<int>::max() - 1)
                        : (int)g.range(1, 1000);
    c.push_back({cell, w});
  }
  return c;
}
static std::vector<int> owners(const HSpec &s, u64 salt, int col) {
  std::vector<int> best(s.n, 0), own(s.n, -1);
  for (int wr : members[col])
    for (auto &c : claims(s, salt, wr))
      if (c.second >= best[c.first]) {
        best[c.first] = c.second;
        own[c.first] = local[wr];
      }
  return own;
}
struct Obj : MeshHierarchyData::SerialInterface {
  std::vector<i64> v;
  std::size_t get_num_bytes() const override { return v.size() * 8; }
  void serialise(std::byte *b, const std::size_t n) const override {
    if (n)
      std::memcpy(b, v.data(), n);
  }
  void deserialise(const std::byte *b, const std::size_t n) override {
    v.resize(n / 8);
    if (n)
      std::memcpy(v.data(), b, n);
  }
};
// objects rank wr contributes to the cells
static std::map<INT, std::vector<Obj>> objects(const HSpec &s, u64 salt, int wr) {
  std::map<INT, std::vector<Obj>> m;
  Rng g = rng(salt, (u64)wr, 77);
  int dens = (int)g.below(3);
  for (i64 c = 0; c < s.n; c++)
    if (g.pct(dens == 0 ? 0 : dens == 1 ? 15 : 50)) {
      auto &l = m[c];
      int k = (int)g.below(4);
      for (int j = 0; j < k; j++) {
        Obj o;
        o.v.resize(g.pct(15) ? 0 : g.range(1, 6));
        for (auto &x : o.v)
          x = (i64)g.next();
        l.push_back(o);
      }
    }
  return m;
}
static std::set<int> set_of(u64 salt, int wr, int n) {
  Rng g = rng(salt, (u64)wr, 55);
  std::set<int> s;
  int k = g.pct(25) ? 0 : (int)g.range(0, n * 2);
  for (int i = 0; i < k; i++)
    s.insert((int)g.range(-40, 40));
  if (k && g.pct(20)) {
    s.insert(std::numeric_limits<int>::max());
    s.insert(std::numeric_limits<int>::lowest());
  }
  return s;
}
template <class T> static std::set<T> wide(const std::set<int> &s) {
  std::set<T> o;
  for (int x : s)
    o.insert(sizeof(T) == 8 ? (T)x * (T)4294967311ll : (T)x);
  return o;
}
template <class T> static std::vector<T> vec_of(u64 salt, int wr, int n) {
  Rng g = rng(salt, (u64)wr, 56);
  std::vector<T> v(g.pct(25) ? 0 : (size_t)g.range(0, n));
  for (auto &x : v)
    x = (T)((i64)(g.next() >> 8) - ((i64)1 << 55)) / (T)3;
  return v;
}
template <class T> static bool same(const std::vector<T> &a, const std::vector<T> &b) { return a == b; }
template <class T> static void gathers(const Op &o, int i, MPI_Comm comm, int col, int me) {
  const int sz = (int)members[col].size();
  std::vector<T> want;
  for (int wr : members[col])
    for (auto x : vec_of<T>(o.salt, wr, o.n))
      want.push_back(x);
  auto in = vec_of<T>(o.salt, members[col][me], o.n);
  std::vector<T> out(3, (T)7);
  if (o.k == AGATHV) {
    all_gather_v(in, comm, out);
    if (!same(out, want))
      sim::violation("op %d (all gather): rank %d received %zu values that are not the concatenation of the %zu values "
                     "of all ranks in rank order", i, me, out.size(), want.size());
  } else {
    const int root = (int)((o.salt >> 20) % (u64)sz);
    gather_v(in, comm, root, out);
    if (me != root)
      want.clear();
    if (!same(out, want))
      sim::violation("op %d (gather on %d): rank %d holds %zu values instead of the expected %zu", i, root, me,
                     out.size(), want.size());
  }
}
template <class T> static void sets(const Op &o, int i, MPI_Comm comm, int col, int me) {
  const int sz = (int)members[col].size(), root = (int)((o.salt >> 20) % (u64)sz);
  auto in = wide<T>(set_of(o.salt, members[col][me], o.n));
  std::set<T> got, want;
  if (o.k == SBCAST) {
    got = set_bcast(in, root, comm);
    want = wide<T>(set_of(o.salt, members[col][root], o.n));
  } else {
    for (int wr : members[col])
      for (auto x : wide<T>(set_of(o.salt, wr, o.n)))
        want.insert(x);
    if (o.k == SALLRED)
      got = set_all_reduce_union(in, comm);
    else {
      got = set_reduce_union(in, root, comm);
      if (me != root)
        want.clear();
    }
  }
  if (got != want)
    sim::violation("op %d (%s, root %d of %d): rank %d holds %zu elements, expected %zu%s", i, kn[o.k], root, sz, me,
                   got.size(), want.size(), got.size() == want.size() ? " others" : "");
}
// a random directed multigraph over the ranks of a communicator, in order per rank
static std::vector<std::vector<int>> graph(u64 salt, int sz) {
  Rng g = rng(salt, 9, 9);
  std::vector<std::vector<int>> out(sz);
  for (int a = 0; a < sz; a++) {
    int k = (int)g.below(2 * sz + 1);
    for (int j = 0; j < k; j++)
      out[a].push_back((int)g.below(sz));
  }
  return out;
}
static std::vector<int> sources_of(const std::vector<std::vector<int>> &out, int me) {
  std::vector<int> s;
  for (size_t a = 0; a < out.size(); a++)
    for (int b : out[a])
      if (b == me)
        s.push_back((int)a);
  return s;
}
void rank_main(int) {
  int wr, me;
  MPI_Comm_rank(sim::users_comm(), &wr);
  const int col = color[wr];
  MPI_Comm comm = sim::users_comm();
  const bool split = members.size() > 1;
  if (split)
    MPI_Comm_split(sim::users_comm(), col, wr, &comm);
  MPI_Comm_rank(comm, &me);
  const int sz = (int)members[col].size();
  std::vector<std::shared_ptr<MeshHierarchy>> H;
  std::vector<u64> salt_of(hs.size(), 0);
  for (auto &s : hs)
    H.push_back(std::make_shared<MeshHierarchy>(comm, s.ndim, s.dims, std::vector<double>(s.ndim, -0.5), 0.5, s.order));
  auto claim = [&](int h, u64 salt) {
    const HSpec &s = hs[h];
    salt_of[h] = salt;
    H[h]->claim_initialise();
    for (auto &c : claims(s, salt, wr)) {
      if (c.first % 2)
        H[h]->claim_cell(c.first, c.second);
      else {
        std::vector<INT> t(2 * s.ndim);
        H[h]->linear_to_tuple_global(c.first, t.data());
        H[h]->claim_cell(H[h]->tuple_to_linear_global(t.data()), c.second);
      }
    }
    H[h]->claim_finalise();
  };
  auto check_claim = [&](int h, int i, const char *when) {
    const HSpec &s = hs[h];
    auto want = owners(s, salt_of[h], col);
    std::vector<INT> tup;
    for (i64 c = 0; c < s.n; c++) {
      int o = H[h]->get_owner(c);
      sim::note_hash((u64)(o + 2) * 1315423911u + (u64)c);
      bool ok = want[c] < 0 ? (o < 0 || o >= sz) : o == want[c];
      if (!ok)
        sim::violation("op %d (%s): rank %d sees owner %d of cell %lld, the strongest claim is rank %d's", i, when, me,
                       o, (long long)c, want[c]);
      std::vector<INT> t(2 * s.ndim);
      H[h]->linear_to_tuple_global(c, t.data());
      tup.insert(tup.end(), t.begin(), t.end());
    }
    std::vector<int> r((size_t)s.n, -77);
    H[h]->get_owners((int)s.n, tup.data(), r.data());
    for (i64 c = 0; c < s.n; c++)
      if (r[c] != H[h]->get_owner(c))
        sim::violation("op %d (%s): the owner of cell %lld looked up by its tuple is %d, by its index %d", i, when,
                       (long long)c, r[c], H[h]->get_owner(c));
  };
  for (size_t h = 0; h < hs.size(); h++) {
    claim((int)h, g_seed + h);
    check_claim((int)h, -1, "first claims");
  }
  for (int i = 0; i < (int)ops.size(); i++) {
    const Op &o = ops[i];
    if (!sim::op_enabled(i))
      continue;
    sim::op_begin(i, kn[o.k]);
    sim::counter(kn[o.k]);
    sim::state_hash((u64)o.k * 131 + (u64)sz * 17 + (o.salt % 64) * 1000003);
    Rng g = rng(o.salt, (u64)wr, 1);
    switch (o.k) {
    case CLAIM: {
      int h = (int)(o.salt >> 8) & 1;
      claim(h, o.salt);
      check_claim(h, i, "claims");
      check_claim(1 - h, i, "claims on another mesh");
      break;
    }
    case CART: {
      MeshSpec ms;
      Rng q = rng(o.salt, 3, 4);
      ms = random_mesh(q, 64);
      static std::map<u64, std::map<int, Owned>> pub; // shared by all simulated ranks
      auto mesh = make_mesh(ms);
      int r;
      MPI_Comm_rank(mesh->get_comm(), &r);
      {
        sim::CoreGuard cg;
        auto &w = pub[o.salt][r];
        for (int d = 0; d < 3; d++) {
          w.lo[d] = mesh->cell_starts[d];
          w.hi[d] = mesh->cell_ends[d];
        }
      }
      auto mh = mesh->get_mesh_hierarchy();
      MPI_Barrier(sim::users_comm());
      World w;
      w.ms = ms;
      for (int k = 0; k < nranks(); k++)
        w.owned.push_back(pub[o.salt][k]);
      if ((i64)mh->ncells_global != ms.ncells())
        sim::violation("op %d (cartesian mesh): %lld cells in the hierarchy, %lld in the mesh", i,
                       (long long)mh->ncells_global, (long long)ms.ncells());
      i64 local_cells = 0;
      for (i64 c = 0; c < ms.ncells(); c++) {
        INT t[6];
        mh->linear_to_tuple_global(c, t);
        std::array<int, 3> ct{0, 0, 0};
        for (int d = 0; d < ms.ndim; d++)
          ct[d] = (int)(t[d] * (1 << ms.order) + t[d + ms.ndim]);
        int want = w.owner(ct), got = mh->get_owner(c);
        if (got != want)
          sim::violation("op %d (cartesian mesh): rank %d sees owner %d of cell (%d,%d,%d), rank %d holds it", i, r, got,
                         ct[0], ct[1], ct[2], want);
        local_cells += want == r;
      }
      if (local_cells != mesh->get_cell_count())
        sim::violation("op %d (cartesian mesh): rank %d reports %d cells and owns %lld", i, r, mesh->get_cell_count(),
                       (long long)local_cells);
      mesh->free();
      break;
    }
    case CONT: {
      int h = (int)(o.salt >> 8) & 1;
      const HSpec &s = hs[h];
      auto own = owners(s, salt_of[h], col);
      // what every cell holds: contributions of all ranks of cells with an owner
      std::vector<std::multiset<std::vector<i64>>> want((size_t)s.n);
      for (int w : members[col])
        for (auto &kv : objects(s, o.salt, w))
          if (own[kv.first] >= 0)
            for (auto &ob : kv.second)
              want[kv.first].insert(ob.v);
      auto mine = objects(s, o.salt, wr);
      MeshHierarchyData::MeshHierarchyContainer<Obj> C(H[h], mine);
      std::set<INT> have;
      int rounds = 1 + (int)((o.salt >> 16) % 3);
      for (int q = 0; q < rounds; q++) {
        std::vector<INT> cells;
        int k = g.pct(25) ? 0 : (int)g.range(1, 2 * s.n);
        for (int j = 0; j < k; j++)
          cells.push_back((INT)g.below(s.n));
        C.gather(cells);
        for (INT c : cells)
          have.insert(c);
        std::vector<Obj> out(2);
        for (INT c : have) {
          C.get(c, out);
          std::multiset<std::vector<i64>> got;
          for (auto &x : out)
            got.insert(x.v);
          sim::note_hash((u64)got.size() * 77 + (u64)c);
          if (got != want[c])
            sim::violation("op %d (cell container, gather %d): rank %d gets %zu objects for cell %lld, %zu were given "
                           "by all ranks%s", i, q, me, got.size(), (long long)c, want[c].size(),
                           got.size() == want[c].size() ? " (with other contents)" : "");
        }
        sim::counter("cells gathered", have.size());
      }
      C.free();
      break;
    }
    case EDGES: {
      CommunicationEdgesCounter ece(comm);
      int rounds = 1 + (int)((o.salt >> 16) % 3);
      for (int q = 0; q < rounds; q++) {
        auto targets = [&](int a) { // distinct targets of local rank a
          Rng t = rng(o.salt + (u64)q, (u64)members[col][a], 3);
          std::vector<int> v;
          int p = (int)t.below(4) * 33;
          for (int b = 0; b < sz; b++)
            if (t.pct(p))
              v.push_back(b);
          for (size_t k = v.size(); k > 1; k--)
            std::swap(v[k - 1], v[(size_t)t.below((i64)k)]);
          return v;
        };
        auto payload = [&](int a, int b) {
          Rng t = rng(o.salt + (u64)q, (u64)a * 64 + (u64)b, 5);
          std::vector<unsigned char> v((size_t)(t.pct(20) ? 0 : t.range(0, 64)));
          for (auto &x : v)
            x = (unsigned char)t.next();
          return v;
        };
        std::vector<int> to = targets(me), from;
        std::vector<std::int64_t> nto, nfrom;
        std::vector<std::vector<unsigned char>> ob, ib;
        std::vector<void *> op, ip;
        for (int b : to) {
          ob.push_back(payload(me, b));
          nto.push_back((i64)ob.back().size());
        }
        for (auto &x : ob)
          op.push_back(x.data());
        ece.get_remote_ranks(to, nto, from, nfrom);
        std::vector<int> sorted = from, wantf;
        std::sort(sorted.begin(), sorted.end());
        for (int a = 0; a < sz; a++)
          for (int b : targets(a))
            if (b == me)
              wantf.push_back(a);
        if (sorted != wantf)
          sim::violation("op %d (edge exchange %d): rank %d learns of %zu senders, %zu ranks named it", i, q, me,
                         sorted.size(), wantf.size());
        for (size_t k = 0; k < from.size(); k++) {
          if (nfrom[k] != (i64)payload(from[k], me).size())
            sim::violation("op %d (edge exchange %d): rank %d receives count %lld from rank %d, which sent %zu", i, q,
                           me, (long long)nfrom[k], from[k], payload(from[k], me).size());
          ib.push_back(std::vector<unsigned char>((size_t)nfrom[k], 0xEE));
        }
        for (auto &x : ib)
          ip.push_back(x.data());
        ece.exchange_send_recv_data(to, nto, op, from, nfrom, ip);
        for (size_t k = 0; k < from.size(); k++)
          if (ib[k] != payload(from[k], me))
            sim::violation("op %d (edge exchange %d): rank %d holds other data than rank %d sent", i, q, me, from[k]);
        // answer along the known edges, in the order of the senders
        std::vector<std::int64_t> ans, back(to.size(), -5);
        for (int a : from)
          ans.push_back((i64)a * 1000 + me);
        ece.exchange_send_recv_counts(from, ans, to, back, true);
        for (size_t k = 0; k < to.size(); k++)
          if (back[k] != (i64)me * 1000 + to[k])
            sim::violation("op %d (edge exchange %d): rank %d gets answer %lld for rank %d", i, q, me,
                           (long long)back[k], to[k]);
        sim::counter("edges", to.size());
      }
      ece.free();
      break;
    }
    case GATHV:
    case AGATHV: {
      int t = (int)((o.salt >> 12) % 3);
      if (t == 0)
        gathers<int>(o, i, comm, col, me);
      else if (t == 1)
        gathers<INT>(o, i, comm, col, me);
      else
        gathers<REAL>(o, i, comm, col, me);
      break;
    }
    case SBCAST:
    case SRED:
    case SALLRED:
      if ((o.salt >> 12) & 1)
        sets<INT>(o, i, comm, col, me);
      else
        sets<int>(o, i, comm, col, me);
      break;
    case SPAIR: { // even ranks send to the next rank, then receive from the previous one
      for (int ph = 0; ph < 2; ph++)
        if (me % 2 == ph) {
          if (me + 1 < sz) {
            auto s = wide<INT>(set_of(o.salt, wr, o.n));
            set_send(s, me + 1, 3, comm);
          }
        } else if (me > 0) {
          auto s = set_recv<INT>(me - 1, 3, comm);
          auto w = wide<INT>(set_of(o.salt, members[col][me - 1], o.n));
          if (s != w)
            sim::violation("op %d (set send and receive): rank %d received %zu elements, %zu were sent%s", i, me,
                           s.size(), w.size(), s.size() == w.size() ? " (others)" : "");
        }
      break;
    }
    case NEIGH:
    case NEIGHW:
    case REVG: {
      auto out = graph(o.salt, sz);
      auto src = sources_of(out, me);
      std::vector<int> dst = out[me], w1(src.size() + 1, 1), w2(dst.size() + 1, 1);
      MPI_Comm gc;
      std::vector<int> s2 = src, d2 = dst;
      s2.resize(src.size() + 1);
      d2.resize(dst.size() + 1);
      MPI_Dist_graph_create_adjacent(comm, (int)src.size(), s2.data(), w1.data(), (int)dst.size(), d2.data(), w2.data(),
                                     MPI_INFO_NULL, 0, &gc);
      if (o.k == REVG) {
        MPI_Comm rc;
        if (reverse_graph_edge_directions(comm, gc, &rc) != MPI_SUCCESS)
          sim::violation("op %d (reverse graph): failed", i);
        int in = -1, ou = -1, wtd = -1;
        MPI_Dist_graph_neighbors_count(rc, &in, &ou, &wtd);
        std::vector<int> a(in + 1), b(ou + 1), c(in + 1), d(ou + 1);
        MPI_Dist_graph_neighbors(rc, in, a.data(), c.data(), ou, b.data(), d.data());
        a.resize(in);
        b.resize(ou);
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        auto ds = dst, ss = src;
        std::sort(ds.begin(), ds.end());
        std::sort(ss.begin(), ss.end());
        if (a != ds || b != ss)
          sim::violation("op %d (reverse graph): rank %d has %d incoming and %d outgoing edges, expected %zu and %zu", i,
                         me, in, ou, ds.size(), ss.size());
        MPI_Comm_free(&rc);
        MPI_Comm_free(&gc);
        break;
      }
      // value carried by the k-th edge from a to b, component c
      auto val = [&](int a, int b, int k, int c) { return (i64)(((a * 64 + b) * 64 + k) * 16 + c) + (i64)(o.salt >> 40); };
      auto len = [&](int a, int b, int k) { return (int)((rng(o.salt, (u64)(a * 64 + b), (u64)k + 3)).below(4)); };
      const int cnt = (int)((o.salt >> 12) % 3);
      std::map<int, int> occ;
      if (o.k == NEIGH) {
        std::vector<i64> sb, rb(src.size() * (size_t)cnt + 1, -9), want;
        for (int b : dst) {
          int k = occ[b]++;
          for (int c = 0; c < cnt; c++)
            sb.push_back(val(me, b, k, c));
        }
        occ.clear();
        for (int a : src) {
          int k = occ[a]++;
          for (int c = 0; c < cnt; c++)
            want.push_back(val(a, me, k, c));
        }
        sb.push_back(0);
        if (o.salt & 4)
          MPICHK(NP_MPI_Neighbor_alltoall(sb.data(), cnt, MPI_INT64_T, rb.data(), cnt, MPI_INT64_T, gc))
        else
          MPICHK(NP_MPI_Neighbor_alltoall_wrapper(sb.data(), cnt, MPI_INT64_T, rb.data(), cnt, MPI_INT64_T, gc))
        rb.resize(want.size());
        if (rb != want)
          sim::violation("op %d (neighbour all to all): rank %d holds wrong values from its %zu sources", i, me,
                         src.size());
      } else {
        std::vector<i64> sb, rb, want;
        std::vector<int> sc, rcn;
        std::vector<MPI_Aint> sd, rd;
        std::vector<MPI_Datatype> st(dst.size() + 1, MPI_INT64_T), rt(src.size() + 1, MPI_INT64_T);
        for (int b : dst) {
          int k = occ[b]++, L = len(me, b, k);
          sd.push_back((MPI_Aint)(sb.size() * 8));
          sc.push_back(L);
          for (int c = 0; c < L; c++)
            sb.push_back(val(me, b, k, c));
        }
        occ.clear();
        for (int a : src) {
          int k = occ[a]++, L = len(a, me, k);
          rd.push_back((MPI_Aint)(want.size() * 8));
          rcn.push_back(L);
          for (int c = 0; c < L; c++)
            want.push_back(val(a, me, k, c));
        }
        rb.assign(want.size() + 1, -9);
        sb.push_back(0);
        sc.push_back(0);
        rcn.push_back(0);
        sd.push_back(0);
        rd.push_back(0);
        if (o.salt & 4)
          MPICHK(NP_MPI_Neighbor_alltoallw(sb.data(), sc.data(), sd.data(), st.data(), rb.data(), rcn.data(), rd.data(),
                                           rt.data(), gc))
        else
          MPICHK(NP_MPI_Neighbor_alltoallw_wrapper(sb.data(), sc.data(), sd.data(), st.data(), rb.data(), rcn.data(),
                                                   rd.data(), rt.data(), gc))
        rb.resize(want.size());
        if (rb != want)
          sim::violation("op %d (neighbour all to all w): rank %d holds wrong values from its %zu sources", i, me,
                         src.size());
      }
      MPI_Comm_free(&gc);
      break;
    }
    }
  }
  // nothing that happened since has changed the ownership
  for (size_t h = 0; h < hs.size(); h++)
    check_claim((int)h, (int)ops.size(), "end of the history");
  for (auto &h : H)
    h->free();
  if (split)
    MPI_Comm_free(&comm);
}
void finish() {}
const char *judge_abort(const char *) { return "the library stopped on a valid input"; }
} // namespace simwl
