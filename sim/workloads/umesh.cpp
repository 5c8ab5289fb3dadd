// P27: particles on unstructured meshes.
#include "umesh.hpp"
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
enum OpK { ADD, GADD, MOVE, REMOVE, MAPONE, QUERY, SPREAD, OK_N };
static const char *kn[] = {"add particles locally", "add particles anywhere", "move particles", "remove particles",
                           "map one cell", "query the mesh", "place particles uniformly"};
struct Op {
  int k, n, how;
  u64 salt;
};
static UMesh U;
static std::vector<Op> ops;
static const std::vector<DatSpec> *SPEC;
struct Obs {
  Snap s;
  std::vector<int> glob;
};
static Rendezvous<Obs> rv;
static Rendezvous<std::vector<int>> rvc;
typedef std::map<i64, std::array<i64, 5>> Model; // id -> position bits, value, salt of value
static std::vector<Model> models;               // by rank: what this rank thinks exists

void choose_knobs() {
  if (sim::K.nranks > 5)
    sim::K.nranks = 4;
}
void plan() {
  seed_plan();
  simpetsc::reset();
  Rng r = rng(1);
  U = random_umesh(rng(2), nranks(), r.pct(70) ? 2 : 3);
  simpetsc::set_partition(U.part);
  {
    double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
    for (auto &x : U.m.x)
      for (int d = 0; d < 3; d++)
        lo[d] = std::min(lo[d], x[d]), hi[d] = std::max(hi[d], x[d]);
    sim::trace("mesh of %d cells in %d dimensions [%.17g, %.17g] x [%.17g, %.17g] x [%.17g, %.17g], overlap %d", U.nc(), U.m.dim, lo[0],
               hi[0], lo[1], hi[1], lo[2], hi[2], U.overlap);
  }
  rv = {};
  rvc = {};
  models.assign(nranks(), {});
  ops.clear();
  ops.push_back({r.pct(50) ? ADD : GADD, (int)r.range(1, 40), 0, r.next()});
  int n = (int)r.range(2, 8);
  for (int i = 0; i < n; i++) {
    static const int w[OK_N] = {2, 2, 8, 1, 1, 2, 2};
    int x = (int)r.below(18), k = 0;
    while (k < OK_N - 1 && x >= w[k])
      x -= w[k], k++;
    if (k == SPREAD && U.m.dim == 3)
      k = MOVE; // placement is implemented in two dimensions
    ops.push_back({k, (int)r.range(0, r.pct(20) ? 120 : 25), (int)r.below(6), r.next()});
  }
}
// Where particle `id` goes at operation `o`; any point of the mesh away from its boundary.
static void target_of(i64 id, const Op &o, double *p) {
  Rng g = rng(o.salt, (u64)id, 3);
  int how = o.how == 5 ? (int)g.below(5) : o.how;
  p[0] = p[1] = p[2] = 0;
  if (how == 3 && U.m.dim == 2) { // on an edge between cells
    for (int t = 0; t < 20; t++) {
      int e = (int)g.below((i64)U.edges.size());
      if (U.edge_cells[e].size() != 2)
        continue;
      auto &a = U.m.x[U.edges[e][0]], &b = U.m.x[U.edges[e][1]];
      double f = g.pct(40) ? 0.5 : 0.01 + 0.98 * g.unit();
      for (int d = 0; d < 2; d++)
        p[d] = a[d] + f * (b[d] - a[d]);
      return;
    }
  }
  if (how == 4 && U.m.dim == 2) // at a vertex
    for (int t = 0; t < 20; t++) {
      int v = (int)g.below((i64)U.m.x.size());
      if (!U.bvert[v]) {
        for (int d = 0; d < 2; d++)
          p[d] = U.m.x[v][d];
        return;
      }
    }
  if (g.pct(10)) { // next to the upper end of the mesh
    double hi[3] = {-1e300, -1e300, -1e300};
    for (auto &x : U.m.x)
      for (int d = 0; d < 3; d++)
        hi[d] = std::max(hi[d], x[d]);
    for (int t = 0; t < 10; t++) {
      int c = (int)g.below(U.nc()), d = (int)g.below(U.m.dim);
      double lo[3], up[3];
      U.box(c, lo, up);
      U.point_in(g, c, p);
      if (up[d] < hi[d])
        continue;
      double q = p[d];
      p[d] = hi[d] - std::ldexp(hi[d] - lo[d], -(int)g.range(8, 34));
      if (U.inside(c, p) > 1e-12)
        return;
      p[d] = q;
      return;
    }
  }
  int c = (int)g.below(U.nc());
  if (how == 1) // everybody into one cell
    c = (int)(o.salt % (u64)U.nc());
  U.point_in(g, c, p);
}
void rank_main(int) {
  const int nd = U.m.dim;
  const std::vector<DatSpec> spec = {{"P", nd, true}, {"CELL_ID", 1, false}, {"ID", 1, false}, {"V", 2, true}, {"Q", 1, false}};
  UFix F = make_ufix(U, spec);
  const int r = F.r, ncell = F.ncell;
  auto &A = F.A;
  auto &M = models[r];
  i64 next = 1 + (i64)r * 1000000;
  const double tol = 1e-9;
  auto mine = U.owned(r);
  if (ncell != (int)mine.size())
    sim::violation("rank %d has %d cells, %d of the mesh were given to it", r, ncell, (int)mine.size());
  {
    std::vector<int> g = F.glob;
    std::sort(g.begin(), g.end());
    if (g != mine)
      sim::violation("the cells of rank %d are not the ones given to it", r);
  }
  if (U.m.dim == 2 && !F.mesh->validate_halos(false))
    sim::violation("the halo cells of rank %d do not match the cells of their owners", r);
  auto put = [&](ParticleSet &ps, int j, i64 id, const double *p, int cell, const Op &o) {
    std::array<i64, 5> m{};
    for (int d = 0; d < nd; d++) {
      ps.at(Sym<REAL>("P"), j, d) = p[d];
      m[d] = bits(p[d]);
    }
    Rng g = rng(o.salt, (u64)id, 77);
    m[3] = bits((double)g.range(-1000, 1000));
    m[4] = g.range(-1000000, 1000000);
    ps.at(Sym<INT>("CELL_ID"), j, 0) = cell;
    ps.at(Sym<INT>("ID"), j, 0) = id;
    ps.at(Sym<REAL>("V"), j, 0) = dbl(m[3]);
    ps.at(Sym<REAL>("V"), j, 1) = 2.0 * dbl(m[3]);
    ps.at(Sym<INT>("Q"), j, 0) = m[4];
    M[id] = m;
  };
  int epoch = 0;
  auto check = [&](int i, const char *what) {
    Obs ob;
    ob.s = read_group(A, spec, r, ncell);
    ob.glob = F.glob;
    hash_snap(ob.s);
    // V and ID stay together, and the cell holds the particle
    for (auto &p : ob.s) {
      double x[3] = {0, 0, 0};
      for (int d = 0; d < nd; d++)
        x[d] = dbl(p.v[d]);
      if (p.v[nd] != p.cell)
        sim::violation("op %d (%s): a particle stored in cell %d of rank %d says it is in cell %d", i, what, p.cell, r, (int)p.v[nd]);
      int g = F.glob[p.cell];
      double s = U.inside(g, x);
      if (s < -tol) {
        int best = 0;
        for (int c = 0; c < U.nc(); c++)
          if (U.inside(c, x) > U.inside(best, x))
            best = c;
        sim::violation("op %d (%s): particle %lld at (%.17g, %.17g, %.17g) is in cell %d of rank %d, which does not contain it "
                       "(mesh cell %d, expected mesh cell %d on rank %d)",
                       i, what, (long long)p.v[nd + 1], x[0], x[1], x[2], p.cell, r, g, best, U.part.owner[best]);
      }
    }
    std::vector<Obs> all;
    if (rv.deposit(epoch++, r, ob, all)) {
      std::map<i64, std::array<i64, 5>> want;
      for (auto &m : models)
        want.insert(m.begin(), m.end());
      std::set<i64> seen;
      for (auto &o : all)
        for (auto &p : o.s) {
          i64 id = p.v[nd + 1];
          if (!want.count(id))
            sim::violation("op %d (%s): rank %d holds particle %lld, which does not exist", i, what, p.rank, (long long)id);
          if (!seen.insert(id).second)
            sim::violation("op %d (%s): particle %lld exists twice", i, what, (long long)id);
          auto &m = want[id];
          for (int d = 0; d < nd; d++)
            if (p.v[d] != m[d])
              sim::violation("op %d (%s): the position of particle %lld changed", i, what, (long long)id);
          if (p.v[nd + 2] != m[3] || dbl(p.v[nd + 3]) != 2.0 * dbl(m[3]) || p.v[nd + 4] != m[4])
            sim::violation("op %d (%s): the properties of particle %lld changed", i, what, (long long)id);
        }
      if (seen.size() != want.size())
        sim::violation("op %d (%s): %d particles exist, expected %d", i, what, (int)seen.size(), (int)want.size());
      sim::counter("checked", seen.size());
    }
    MPI_Barrier(sim::users_comm());
  };
  auto settle = [&] {
    A->hybrid_move();
    A->cell_move();
  };
  for (int i = 0; i < (int)ops.size(); i++) {
    const Op &o = ops[i];
    if (!sim::op_enabled(i))
      continue;
    sim::op_begin(i, kn[o.k]);
    Rng g = rng(o.salt, (u64)r, 5);
    switch (o.k) {
    case ADD: {
      ParticleSet ps(o.n, to_spec(spec));
      for (int j = 0; j < o.n; j++) {
        int c = (int)g.below(ncell);
        double p[3];
        U.point_in(g, F.glob[c], p);
        put(ps, j, next++, p, c, o);
      }
      A->add_particles_local(ps);
      check(i, kn[o.k]);
      break;
    }
    case GADD: {
      int n = g.pct(20) ? 0 : o.n;
      ParticleSet ps(n, to_spec(spec));
      for (int j = 0; j < n; j++) {
        double p[3];
        target_of(next, o, p);
        put(ps, j, next++, p, 0, o);
      }
      A->add_particles_local(ps);
      settle();
      check(i, kn[o.k]);
      break;
    }
    case MOVE: {
      for (int c = 0; c < ncell; c++) {
        auto ID = A->get_cell(Sym<INT>("ID"), c);
        auto P = A->get_cell(Sym<REAL>("P"), c);
        for (int l = 0; l < ID->nrow; l++) {
          i64 id = ID->at(l, 0);
          Rng h = rng(o.salt, (u64)id, 6);
          if (o.how == 2 && h.pct(70))
            continue; // most stay where they are
          double p[3];
          target_of(id, o, p);
          std::array<i64, 5> *m = nullptr;
          for (auto &q : models) {
            auto it = q.find(id);
            if (it != q.end())
              m = &it->second;
          }
          if (!m)
            sim::violation("op %d (%s): rank %d holds particle %lld, which does not exist", i, kn[o.k], r, (long long)id);
          int in = 0;
          for (int k = 1; k < U.nc(); k++)
            in = U.inside(k, p) > U.inside(in, p) ? k : in;
          sim::trace("particle %lld goes to (%.17g, %.17g, %.17g) in mesh cell %d of rank %d by %.3g", (long long)id, p[0], p[1], p[2], in,
                     U.part.owner[in], U.inside(in, p));
          for (int d = 0; d < nd; d++) {
            P->at(l, d) = p[d];
            (*m)[d] = bits(p[d]);
          }
        }
        if (ID->nrow)
          A->get_dat(Sym<REAL>("P"))->cell_dat.set_cell(c, P);
      }
      settle();
      check(i, kn[o.k]);
      break;
    }
    case REMOVE: {
      std::vector<INT> cells, layers;
      for (int c = 0; c < ncell; c++) {
        auto ID = A->get_cell(Sym<INT>("ID"), c);
        for (int l = 0; l < ID->nrow; l++)
          if (rng(o.salt, (u64)ID->at(l, 0), 8).pct(30)) {
            cells.push_back(c);
            layers.push_back(l);
            for (auto &q : models)
              q.erase(ID->at(l, 0));
          }
      }
      A->remove_particles((int)cells.size(), cells, layers);
      check(i, kn[o.k]);
      break;
    }
    case MAPONE: { // mapping the particles of a single cell leaves everything as it was
      int c = (int)g.below(ncell);
      F.domain->local_mapper->map(*A, c);
      settle();
      check(i, kn[o.k]);
      break;
    }
    case SPREAD: {
      std::vector<std::vector<double>> pos;
      std::vector<int> cells;
      std::mt19937 gen((unsigned)(o.salt + (u64)r));
      int per = (int)(o.salt / 3 % 4);
      std::vector<int> want(ncell, per);
      if (o.how % 3 == 2 && U.m.dim == 2) {
        double vol = 0;
        for (int c = 0; c < U.nc(); c++)
          vol += U.volume(c);
        double dens = (double)g.range(1, 30) / vol;
        int tot = pi::uniform_density_within_dmplex_cells(F.mesh, dens, pos, cells, (o.salt & 8) ? &gen : nullptr);
        std::vector<int> got(ncell, 0);
        for (int c : cells)
          if (c >= 0 && c < ncell)
            got[c]++;
        if (tot != (int)cells.size())
          sim::violation("op %d (%s): %d positions, %d reported", i, kn[o.k], (int)cells.size(), tot);
        for (int c = 0; c < ncell; c++) {
          double e = dens * U.volume(F.glob[c]);
          if (std::fabs(got[c] - e) > 1.0 + 1e-9)
            sim::violation("op %d (%s): cell %d got %d particles, its density asks for %.6f", i, kn[o.k], c, got[c], e);
        }
        want = got;
      } else
        pi::uniform_within_dmplex_cells(F.mesh, per, pos, cells, (o.salt & 8) ? &gen : nullptr);
      int n = (int)cells.size(), tot = 0;
      for (int w : want)
        tot += w;
      if (n != tot || (int)pos.size() != nd)
        sim::violation("op %d (%s): %d positions in %d dimensions, expected %d", i, kn[o.k], n, (int)pos.size(), tot);
      for (auto &v : pos)
        if ((int)v.size() != n)
          sim::violation("op %d (%s): positions and cells differ in number", i, kn[o.k]);
      std::vector<int> got(ncell, 0);
      ParticleSet ps(n, to_spec(spec));
      for (int j = 0; j < n; j++) {
        if (cells[j] < 0 || cells[j] >= ncell)
          sim::violation("op %d (%s): a position in cell %d of %d", i, kn[o.k], cells[j], ncell);
        got[cells[j]]++;
        double p[3] = {0, 0, 0};
        for (int d = 0; d < nd; d++)
          p[d] = pos[d][j];
        if (U.inside(F.glob[cells[j]], p) < -tol)
          sim::violation("op %d (%s): a position lies outside its cell %d", i, kn[o.k], cells[j]);
        put(ps, j, next++, p, cells[j], o);
      }
      if (got != want)
        sim::violation("op %d (%s): particles per cell are not as requested", i, kn[o.k]);
      A->add_particles_local(ps);
      check(i, kn[o.k]);
      break;
    }
    case QUERY: {
      auto dmh = F.mesh->dmh;
      if (dmh->get_cell_count() != ncell || dmh->get_global_cell_count() != U.nc())
        sim::violation("op %d (%s): %d of %d cells, expected %d of %d", i, kn[o.k], dmh->get_cell_count(),
                       dmh->get_global_cell_count(), ncell, U.nc());
      double vol = 0, lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
      for (int c = 0; c < U.nc(); c++)
        vol += U.volume(c);
      auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-10 * (1.0 + std::fabs(b)); };
      if (!near(dmh->get_volume(), vol) || !near(dmh->get_volume(), vol))
        sim::violation("op %d (%s): volume %.17g, expected %.17g", i, kn[o.k], dmh->get_volume(), vol);
      for (int c = 0; c < ncell; c++) {
        int gc = F.glob[c];
        if (!near(dmh->get_cell_volume(c), U.volume(gc)))
          sim::violation("op %d (%s): cell %d has volume %.17g, expected %.17g", i, kn[o.k], c, dmh->get_cell_volume(c), U.volume(gc));
        if (dmh->get_local_cell_index(dmh->get_dmplex_cell_index(c)) != c)
          sim::violation("op %d (%s): cell index %d does not survive a round trip", i, kn[o.k], c);
        std::vector<std::vector<REAL>> vs;
        dmh->get_cell_vertices(c, vs);
        std::set<std::array<i64, 3>> a, b;
        for (auto &v : vs)
          a.insert({bits(v[0]), bits(v[1]), nd > 2 ? bits(v[2]) : 0});
        for (int q : U.m.cells[gc])
          b.insert({bits(U.m.x[q][0]), bits(U.m.x[q][1]), nd > 2 ? bits(U.m.x[q][2]) : 0});
        if (a != b || vs.size() != b.size())
          sim::violation("op %d (%s): the vertices of cell %d are not those of the mesh", i, kn[o.k], c);
        double cl[3], ch[3];
        U.box(gc, cl, ch);
        auto bb = dmh->get_cell_bounding_box(c);
        std::vector<REAL> avg(nd);
        dmh->get_cell_vertex_average(c, avg);
        for (int d = 0; d < nd; d++) {
          if (bb->lower(d) != cl[d] || bb->upper(d) != ch[d])
            sim::violation("op %d (%s): the bounding box of cell %d is wrong", i, kn[o.k], c);
          lo[d] = std::min(lo[d], cl[d]);
          hi[d] = std::max(hi[d], ch[d]);
          double s = 0;
          for (int q : U.m.cells[gc])
            s += U.m.x[q][d];
          if (!near(avg[d], s / (double)U.m.cells[gc].size()))
            sim::violation("op %d (%s): the vertex average of cell %d is wrong", i, kn[o.k], c);
        }
      }
      auto bb = dmh->get_bounding_box();
      for (int d = 0; d < nd; d++)
        if (bb->lower(d) != lo[d] || bb->upper(d) != hi[d])
          sim::violation("op %d (%s): the bounding box of rank %d is [%.17g, %.17g] in dimension %d, its cells span [%.17g, %.17g]", i,
                         kn[o.k], r, bb->lower(d), bb->upper(d), d, lo[d], hi[d]);
      double p[3] = {0, 0, 0};
      F.mesh->get_point_in_subdomain(p);
      bool in = false;
      for (int c : mine)
        in = in || U.inside(c, p) >= 0;
      if (!in)
        sim::violation("op %d (%s): the point of rank %d's subdomain is outside it", i, kn[o.k], r);
      for (int t = 0; t < 6; t++) { // which cell holds a point
        int gc = (int)g.below(U.nc());
        U.point_in(g, gc, p);
        std::vector<PetscScalar> x(p, p + nd);
        int c = dmh->contains_point(x), e = U.part.owner[gc] == r ? F.loc[gc] : -1;
        if (c != e && !(c < 0 && e < 0))
          sim::violation("op %d (%s): a point is in cell %d of rank %d, expected %d", i, kn[o.k], c, r, e);
        if (nd == 2)
          for (int k = 0; k < ncell; k++)
            if (dmh->cell_contains_point(k, x) != (k == e))
              sim::violation("op %d (%s): cell %d of rank %d is wrong about a point in cell %d", i, kn[o.k], k, r, e);
      }
      auto own = pi::get_map_from_global_cell_points_to_ranks(F.dm);
      // global cell numbers are contiguous per owner: compare as (rank, count), and exactly for this rank's cells
      if ((int)own.second.size() != U.nc())
        sim::violation("op %d (%s): owners of %d cells, expected %d", i, kn[o.k], (int)own.second.size(), U.nc());
      for (int c = 0; c < ncell; c++) {
        int n = dmh->get_point_global_index(dmh->get_dmplex_cell_index(c)) - own.first;
        if (n < 0 || n >= U.nc() || own.second[n] != r)
          sim::violation("op %d (%s): cell %d of rank %d is said to belong to rank %d", i, kn[o.k], c, r,
                         n < 0 || n >= U.nc() ? -1 : own.second[n]);
      }
      std::vector<int> cnt(nranks(), 0), wc(nranks(), 0);
      for (int q : own.second)
        if (q >= 0 && q < nranks())
          cnt[q]++;
      for (int q : U.part.owner)
        wc[q]++;
      if (cnt != wc)
        sim::violation("op %d (%s): cells per rank are wrong", i, kn[o.k]);
      if (U.overlap == 0) { // old point numbers to new ones
        auto mp = pi::get_global_distributed_points_map(F.dm, F.sf);
        for (int c = 0; c < ncell; c++) {
          int gc = F.glob[c];
          int n = dmh->get_point_global_index(dmh->get_dmplex_cell_index(c));
          if (gc >= (int)mp.size() || mp[gc] != n)
            sim::violation("op %d (%s): the new number of mesh cell %d is %d, reported %d", i, kn[o.k], gc, n,
                           gc >= (int)mp.size() ? -9 : (int)mp[gc]);
        }
      }
      break;
    }
    }
    MPI_Barrier(sim::users_comm());
  }
  free_ufix(F);
}
void finish() {
  for (const char *k : {"DM", "Vec", "IS", "Mat", "SF", "Viewer", "Array"})
    if (simpetsc::live(k))
      sim::violation("everything was freed, but %ld objects of PETSc's kind %s still exist", simpetsc::live(k), k);
}
const char *judge_abort(const char *) { return "the library stopped on a valid input"; }
} // namespace simwl
