// Helpers shared by the workloads: deterministic plan randomness, mesh/group
// builders, particle snapshots and the cross-rank rendezvous used by the oracles.
#pragma once
#include <neso_particles.hpp>
#include "simcore.hpp"
#include "simh5.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

using namespace NESO::Particles;

namespace wl {

using i64 = int64_t;
using u64 = uint64_t;

// Counter based randomness: the plan must not depend on the interleaving.
struct Rng {
  u64 s;
  explicit Rng(u64 s = 0) : s(s) {}
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  i64 below(i64 n) { return n <= 0 ? 0 : (i64)(next() % (u64)n); }
  i64 range(i64 lo, i64 hi) { return lo + below(hi - lo + 1); }
  bool pct(int p) { return below(100) < p; }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[(size_t)below((i64)v.size())];
  }
};
inline u64 g_seed = 0;
inline void seed_plan() { g_seed = sim::rnd(sim::S_WORK); }
inline Rng rng(u64 a, u64 b = 0, u64 c = 0) {
  Rng r(g_seed ^ (a * 0x9e3779b97f4a7c15ull) ^ (b * 0xc2b2ae3d27d4eb4full) ^
        (c * 0x165667b19e3779f9ull));
  r.next();
  r.next();
  return r;
}
inline i64 bits(double x) {
  i64 i;
  memcpy(&i, &x, 8);
  return i;
}
inline double dbl(i64 i) {
  double x;
  memcpy(&x, &i, 8);
  return x;
}
inline int nranks() { return (int)sim::K.nranks; }

// ------------------------------------------------------------------- mesh ---
struct MeshSpec {
  int ndim = 2, order = 0, stencil = 0;
  double extent = 1.0;
  std::vector<int> dims{1, 1, 1};
  int fine(int d) const { return d < ndim ? dims[d] << order : 1; }
  double width() const { return extent / (double)(1 << order); }
  double size(int d) const { return extent * dims[d]; }
  i64 ncells() const { return (i64)fine(0) * fine(1) * fine(2); }
};
// now and then many more particles than usual (called from choose_knobs)
inline bool big_run = false;
inline void choose_big(int pct) {
  big_run = sim::chance(sim::S_CFG, pct);
  if (big_run) { // keep the run affordable
    sim::K.preempt_mean = sim::K.preempt_mean ? 5000 : 0;
    sim::K.atomic_preempt = 0;
  }
}
inline int first_add(Rng &r, int usual) {
  int n = (int)r.range(0, usual);
  return big_run ? (int)r.range(200, 1000) : n;
}
inline MeshSpec random_mesh(Rng r, int max_cells = 96, int min_dim = 2) {
  for (;;) {
    MeshSpec m;
    m.ndim = (int)r.range(min_dim, 3);
    m.order = (int)r.below(3);
    static const double ex[4] = {1.0, 0.5, 1.0, 0.3};
    m.extent = ex[r.below(4)];
    for (int d = 0; d < m.ndim; d++)
      m.dims[d] = (int)r.range(1, m.ndim == 1 ? 12 : 6);
    m.stencil = (int)r.below(3);
    if (m.ncells() > max_cells)
      continue;
    int mx = 0;
    for (int d = 0; d < m.ndim; d++)
      mx = std::max(mx, m.fine(d));
    if (mx < nranks())
      continue;
    return m;
  }
}
// With the cart_parent knob the user chooses the grid of ranks; otherwise the mesh does.
inline std::shared_ptr<CartesianHMesh> make_mesh(const MeshSpec &m) {
  std::vector<int> dims(m.dims.begin(), m.dims.begin() + m.ndim);
  MPI_Comm comm = sim::users_comm();
  if (sim::K.cart_parent) {
    std::vector<std::array<int, 3>> grids;
    const int n = nranks();
    for (int a = 1; a <= n; a++)
      for (int b = 1; a * b <= n; b++)
        if (n % (a * b) == 0) {
          int c = n / (a * b);
          if (a <= m.fine(0) && b <= m.fine(1) && c <= m.fine(2))
            grids.push_back({a, b, c});
        }
    if (!grids.empty()) {
      auto &gr = grids[(size_t)sim::K.cart_parent % grids.size()];
      int per[3] = {1, 1, 1};
      MPI_Cart_create(sim::users_comm(), m.ndim, gr.data(), per, 1, &comm);
    }
  }
  auto mesh = std::make_shared<CartesianHMesh>(comm, m.ndim, dims, m.extent, m.order, m.stencil);
  if (comm != sim::users_comm()) {
#ifdef SIM_P03
    std::vector<int> d(m.ndim), p(m.ndim), c(m.ndim), d2(m.ndim);
    MPI_Cart_get(comm, m.ndim, d.data(), p.data(), c.data());
    MPI_Cart_get(mesh->get_comm(), m.ndim, d2.data(), p.data(), c.data());
    if (d != d2)
      sim::violation("mesh decomposition: the mesh does not use the grid of ranks it was given");
#endif
    MPI_Comm_free(&comm);
  }
  return mesh;
}

// What each rank's mesh says it owns; the oracle checks it is a partition.
struct Owned {
  int lo[3], hi[3];
  int cart_rank = -1;
};
struct World {
  MeshSpec ms;
  std::vector<Owned> owned;
  int arrived = 0;
  // reference cell lookup
  std::array<int, 3> cell_tuple(const double *p) const {
    std::array<int, 3> c{0, 0, 0};
    const double inv = ((double)std::pow(2, ms.order)) / ms.extent;
    for (int d = 0; d < ms.ndim; d++) {
      int x = (int)(p[d] * inv);
      if (x < 0)
        x = 0;
      if (x >= ms.fine(d))
        x = ms.fine(d) - 1;
      c[d] = x;
    }
    return c;
  }
  bool exact() const { // cell faces are exactly representable
    int e;
    return std::frexp(ms.extent, &e) == 0.5;
  }
  // may position p be binned into cell c (faces belong to either side unless exact)?
  bool binned(const double *p, const std::array<int, 3> &c) const {
    auto t = cell_tuple(p);
    if (t == c)
      return true;
    if (exact())
      return false;
    for (int d = 0; d < ms.ndim; d++) {
      double w = ms.width(), eps = 1e-11 * ms.size(d);
      if (c[d] < 0 || c[d] >= ms.fine(d) || p[d] < c[d] * w - eps || p[d] > (c[d] + 1) * w + eps)
        return false;
    }
    return true;
  }
  std::array<int, 3> cell_of_local(int r, int lc) const {
    const Owned &o = owned[r];
    std::array<int, 3> c{0, 0, 0};
    for (int d = 0; d < ms.ndim; d++) {
      int n = o.hi[d] - o.lo[d];
      c[d] = o.lo[d] + lc % n;
      lc /= n;
    }
    if (lc)
      sim::violation("mesh decomposition: local cell index out of range on rank %d", r);
    return c;
  }
  // may position p live on rank r?
  bool owned_by(const double *p, int r) const {
    auto t = cell_tuple(p);
    if (owner(t) == r)
      return true;
    if (exact())
      return false;
    for (int d = 0; d < ms.ndim; d++) {
      double w = ms.width(), eps = 1e-11 * ms.size(d);
      if (p[d] < owned[r].lo[d] * w - eps || p[d] > owned[r].hi[d] * w + eps)
        return false;
    }
    return true;
  }
  int owner(const std::array<int, 3> &c) const {
    int o = -1;
    for (size_t r = 0; r < owned.size(); r++) {
      bool in = true;
      for (int d = 0; d < ms.ndim; d++)
        in = in && c[d] >= owned[r].lo[d] && c[d] < owned[r].hi[d];
      if (in) {
        if (o >= 0)
          sim::violation("mesh decomposition: cell (%d,%d,%d) owned by ranks %d and %d", c[0],
                         c[1], c[2], o, (int)r);
        o = (int)r;
      }
    }
    if (o < 0)
      sim::violation("mesh decomposition: cell (%d,%d,%d) has no owner", c[0], c[1], c[2]);
    return o;
  }
  int local_cell(int r, const std::array<int, 3> &c) const {
    const Owned &o = owned[r];
    int l = 0;
    for (int d = ms.ndim - 1; d >= 0; d--)
      l = l * (o.hi[d] - o.lo[d]) + (c[d] - o.lo[d]);
    return l;
  }
};
inline World W;
inline void world_reset(const MeshSpec &m) {
  W = World();
  W.ms = m;
  W.owned.resize((size_t)nranks());
}
inline void world_publish(int r, CartesianHMesh &m) {
  for (int d = 0; d < 3; d++) {
    W.owned[r].lo[d] = m.cell_starts[d];
    W.owned[r].hi[d] = m.cell_ends[d];
  }
}
// a random position inside the domain; sometimes exactly on a cell edge
inline void random_pos(Rng &r, const MeshSpec &m, double *p) {
  for (int d = 0; d < m.ndim; d++) {
    double L = m.size(d);
    if (r.pct(12)) { // on a face between cells, or the nearest number to either side
      p[d] = (double)r.below(m.fine(d) + 1) * m.width();
      int s = (int)r.below(4);
      if (s)
        p[d] = std::nextafter(p[d], s == 1 ? 2 * L : 0.0);
    } else
      p[d] = r.unit() * L;
    if (!(p[d] < L))
      p[d] = 0.0;
  }
}

// rows of integer values of a printed (sub) group: cell, then the values
inline std::vector<std::pair<int, std::vector<i64>>> parse_print(const std::string &t) {
  std::vector<std::pair<int, std::vector<i64>>> o;
  std::istringstream in(t);
  std::string l;
  int cell = -1;
  while (std::getline(in, l)) {
    if (l.rfind("-------", 0) == 0)
      cell = (int)std::strtol(l.c_str() + 7, nullptr, 10);
    else if (l.size() && l[0] == '|') {
      bool head = false;
      for (char &c : l) {
        head = head || std::isalpha((unsigned char)c);
        if (c == '|')
          c = ' ';
      }
      if (head)
        continue;
      std::istringstream v(l);
      std::vector<i64> x;
      for (i64 k; v >> k;)
        x.push_back(k);
      o.push_back({cell, x});
    }
  }
  return o;
}
// -------------------------------------------------------------- snapshots ---
struct DatSpec {
  std::string name;
  int ncomp;
  bool real;
};
struct Part {
  int rank = 0, cell = 0, layer = 0;
  std::vector<i64> v; // bits of every component of every dat, in spec order
};
typedef std::vector<Part> Snap;
inline int offset_of(const std::vector<DatSpec> &s, const std::string &n) {
  int o = 0;
  for (auto &d : s) {
    if (d.name == n)
      return o;
    o += d.ncomp;
  }
  return -1;
}
inline int width_of(const std::vector<DatSpec> &s) {
  int o = 0;
  for (auto &d : s)
    o += d.ncomp;
  return o;
}
template <class G>
inline Snap read_group(G &g, const std::vector<DatSpec> &spec, int r, int ncell) {
  Snap out;
  const int w = width_of(spec);
  for (int c = 0; c < ncell; c++) {
    int n = (int)g->get_npart_cell(c);
    size_t base = out.size();
    out.resize(base + (size_t)n);
    for (int l = 0; l < n; l++) {
      Part &p = out[base + l];
      p.rank = r;
      p.cell = c;
      p.layer = l;
      p.v.resize(w);
    }
    int off = 0;
    for (auto &d : spec) {
      if (d.real) {
        auto cd = g->get_cell(Sym<REAL>(d.name), c);
        if (cd->nrow != n || cd->ncol != d.ncomp)
          sim::violation("cell %d of dat %s has %dx%d values, the group says %d particles", c,
                         d.name.c_str(), cd->nrow, cd->ncol, n);
        for (int l = 0; l < n; l++)
          for (int k = 0; k < d.ncomp; k++)
            out[base + l].v[off + k] = bits(cd->at(l, k));
      } else {
        auto cd = g->get_cell(Sym<INT>(d.name), c);
        if (cd->nrow != n || cd->ncol != d.ncomp)
          sim::violation("cell %d of dat %s has %dx%d values, the group says %d particles", c,
                         d.name.c_str(), cd->nrow, cd->ncol, n);
        for (int l = 0; l < n; l++)
          for (int k = 0; k < d.ncomp; k++)
            out[base + l].v[off + k] = cd->at(l, k);
      }
      off += d.ncomp;
    }
  }
  return out;
}

// Each rank deposits its observation for an epoch; the last one gets them all.
template <class T> struct Rendezvous {
  std::map<int, std::vector<T>> data;
  std::map<int, int> count;
  bool deposit(int epoch, int r, T v, std::vector<T> &all) {
    auto &d = data[epoch];
    d.resize((size_t)nranks());
    d[r] = std::move(v);
    if (++count[epoch] == nranks()) {
      all = std::move(d);
      data.erase(epoch);
      return true;
    }
    return false;
  }
};
inline void hash_snap(const Snap &s) {
  for (auto &p : s) {
    u64 h = (u64)p.rank * 1315423911u + (u64)p.cell;
    for (auto x : p.v)
      h = h * 0x9e3779b97f4a7c15ull + (u64)x;
    sim::note_hash(h);
  }
}
inline std::shared_ptr<SYCLTarget> make_target(MPI_Comm c) {
  return std::make_shared<SYCLTarget>(0, c);
}
// ---------------------------------------------------------------- fixture ---
struct Fix {
  MeshSpec ms;
  std::shared_ptr<CartesianHMesh> mesh;
  SYCLTargetSharedPtr target;
  DomainSharedPtr domain;
  ParticleGroupSharedPtr A;
  std::vector<DatSpec> spec;
  int ncell = 0, r = 0;
};
inline ParticleSpec to_spec(const std::vector<DatSpec> &ds) {
  ParticleSpec ps;
  for (auto &d : ds) {
    bool pos = d.name == "P" || d.name == "CELL_ID";
    if (d.real) {
      ParticleProp<REAL> p(Sym<REAL>(d.name), d.ncomp, pos);
      ps.push(p);
    } else {
      ParticleProp<INT> p(Sym<INT>(d.name), d.ncomp, pos);
      ps.push(p);
    }
  }
  return ps;
}
inline Fix make_fix(const MeshSpec &ms, const std::vector<DatSpec> &spec, MPI_Comm = 0) {
  Fix f;
  f.ms = ms;
  f.spec = spec;
  f.mesh = make_mesh(ms);
  f.target = make_target(f.mesh->get_comm());
  auto mapper = CartesianHMeshLocalMapper(f.target, f.mesh);
  f.domain = std::make_shared<Domain>(f.mesh, mapper);
  ParticleSpec ps = to_spec(spec);
  f.A = std::make_shared<ParticleGroup>(f.domain, ps, f.target);
  f.ncell = f.mesh->get_cell_count();
  f.r = f.target->comm_pair.rank_parent;
  world_publish(f.r, *f.mesh);
  return f;
}
inline void free_fix(Fix &f) {
  f.A->free();
  f.A.reset();
  f.domain.reset();
  f.target->free();
  f.mesh->free();
}
// a position strictly inside local cell lc of rank r
inline void pos_in_cell(Rng &g, int r, int lc, double *p) {
  auto c = W.cell_of_local(r, lc);
  for (int d = 0; d < W.ms.ndim; d++)
    p[d] = (c[d] + 0.05 + 0.9 * g.unit()) * W.ms.width();
}
// Reference particles of one rank: cell -> id -> fields
typedef std::map<std::string, std::vector<i64>> Fields;
struct LocalModel {
  std::map<i64, std::pair<int, Fields>> parts; // id -> (cell, fields)
  std::vector<int> counts(int ncell) const {
    std::vector<int> c((size_t)ncell, 0);
    for (auto &p : parts)
      c[p.second.first]++;
    return c;
  }
};
// compare a snapshot of one rank with its reference; `id` must be a unique INT
inline void compare_local(const LocalModel &m, const Snap &s, const std::vector<DatSpec> &spec,
                          const char *what, int op) {
  const int ido = offset_of(spec, "ID");
  std::set<i64> seen;
  for (auto &p : s) {
    i64 id = p.v[ido];
    auto it = m.parts.find(id);
    if (it == m.parts.end())
      sim::violation("after op %d (%s) cell %d row %d: particle id %lld should not exist", op, what, p.cell,
                     p.layer, (long long)id);
    if (!seen.insert(id).second)
      sim::violation("after op %d (%s) cell %d row %d: particle id %lld appears twice", op, what, p.cell, p.layer,
                     (long long)id);
    if (p.cell != it->second.first)
      sim::violation("after op %d (%s): particle id %lld is stored in cell %d, expected cell %d", op, what,
                     (long long)id, p.cell, it->second.first);
    int off = 0;
    for (auto &d : spec) {
      auto f = it->second.second.find(d.name);
      if (f != it->second.second.end())
        for (int k = 0; k < d.ncomp; k++)
          if (p.v[off + k] != f->second[k])
            sim::violation("after op %d (%s): particle id %lld dat %s component %d is %lld, expected %lld", op, what,
                           (long long)id, d.name.c_str(), k, (long long)p.v[off + k], (long long)f->second[k]);
      off += d.ncomp;
    }
  }
  if (seen.size() != m.parts.size())
    for (auto &kv : m.parts)
      if (!seen.count(kv.first))
        sim::violation("after op %d (%s): particle id %lld of cell %d is missing (%zu of %zu present)", op, what,
                       (long long)kv.first, kv.second.first, seen.size(), m.parts.size());
}
// stopping loudly is only acceptable when the workload says so
inline bool may_abort = false;
} // namespace wl
