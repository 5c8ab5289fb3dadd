// P28: trajectories against the labelled edges of an unstructured mesh.
#include "umesh.hpp"
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
enum OpK { ADD, STEP, REFLECT, MOVE, OK_N };
static const char *kn[] = {"add particles", "find crossings", "advance with reflection", "move particles"};
struct Op {
  int k, n, how, who;
  u64 salt;
};
static UMesh U;
static std::vector<Op> ops;
static int mode, nobj, pcomp;                 // how edges are labelled: 0 all before, 1 all after, 2 some before, 3 some after
static std::vector<int> label;         // per edge, -1: none
static std::vector<std::map<PetscInt, std::vector<PetscInt>>> groups; // per object
static std::map<int, int> edge_of_id;
static std::map<int, std::array<double, 2>> normal_seen;
static std::map<std::array<int, 2>, int> edge_at;
static double scale;
struct Obs {
  int n = 0, hit = 0;
};
static Rendezvous<Obs> rv;

void choose_knobs() {
  if (sim::K.nranks > 5)
    sim::K.nranks = 4;
}
void plan() {
  seed_plan();
  simpetsc::reset();
  Rng r = rng(1);
  U = random_umesh(rng(2), nranks(), 2);
  simpetsc::set_partition(U.part);
  rv = {};
  edge_of_id.clear();
  normal_seen.clear();
  edge_at.clear();
  scale = 0;
  for (auto &x : U.m.x)
    scale = std::max(scale, std::max(std::fabs(x[0]), std::fabs(x[1])));
  mode = (int)r.below(4);
  int nl = (int)r.range(1, 4);
  label.assign(U.edges.size(), -1);
  int dens = (int)r.below(4);
  for (size_t e = 0; e < U.edges.size(); e++) {
    auto k = U.edges[e];
    edge_at[{std::min(k[0], k[1]), std::max(k[0], k[1])}] = (int)e;
    bool bnd = U.edge_cells[e].size() == 1;
    if (mode < 2)
      label[e] = bnd ? 100 : -1;
    else if (dens == 0 ? false : dens == 1 ? r.pct(15) : bnd ? r.pct(80) : dens == 3 && r.pct(25))
      label[e] = 100 + (int)r.below(nl);
  }
  nobj = r.pct(25) ? 2 : 1;
  pcomp = r.pct(20) ? 3 : 2; // positions may have more components than the mesh has dimensions
  groups.assign(nobj, {});
  for (auto &g : groups) {
    int ng = mode < 2 ? 1 : (int)r.range(1, 3);
    for (int k = 0; k < ng; k++)
      g[(PetscInt)(k * 3 + (ng & 1))];
    for (int l = 0; l < nl + 1; l++) // some labels belong to no group, some groups have labels nothing carries
      if (r.pct(80) || (mode < 2 && l == 0))
        std::next(g.begin(), r.below(ng))->second.push_back(100 + l);
  }
  ops.clear();
  ops.push_back({ADD, (int)r.range(1, 25), 0, 0, r.next()});
  int n = (int)r.range(2, 7);
  for (int i = 0; i < n; i++) {
    static const int w[OK_N] = {1, 7, 3, 2};
    int x = (int)r.below(13), k = 0;
    while (k < OK_N - 1 && x >= w[k])
      x -= w[k], k++;
    if (k == REFLECT && mode > 1)
      k = STEP;
    ops.push_back({k, (int)r.range(0, 20), (int)r.below(9), (int)r.below(4), r.next()});
  }
}
// The end of the trajectory of particle `id`, which starts at a.
static void target_of(i64 id, const Op &o, const double *a, double *b) {
  Rng g = rng(o.salt, (u64)id, 3);
  int how = o.how == 8 ? (int)g.below(8) : o.how;
  double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300}, ext = 0;
  for (auto &x : U.m.x)
    for (int d = 0; d < 2; d++)
      lo[d] = std::min(lo[d], x[d]), hi[d] = std::max(hi[d], x[d]);
  ext = std::max(hi[0] - lo[0], hi[1] - lo[1]);
  b[0] = a[0], b[1] = a[1];
  switch (how) {
  case 0:
    for (int d = 0; d < 2; d++)
      b[d] += ext * std::ldexp(g.unit() - 0.5, -(int)g.range(0, 8));
    return;
  case 1:
    for (int d = 0; d < 2; d++)
      b[d] = lo[d] + (hi[d] - lo[d]) * (2.0 * g.unit() - 0.5);
    return;
  case 2: // along an axis
    b[g.below(2)] += ext * (3.0 * g.unit() - 1.5);
    return;
  case 3: // through an edge
  case 4: { // through a vertex
    auto &e = U.edges[g.below((i64)U.edges.size())];
    double f = how == 4 ? 0.0 : g.pct(30) ? 0.5 : 0.02 + 0.96 * g.unit(), l = 1.05 + (g.pct(50) ? 0.1 : 2.0) * g.unit();
    for (int d = 0; d < 2; d++)
      b[d] = a[d] + l * (U.m.x[e[0]][d] + f * (U.m.x[e[1]][d] - U.m.x[e[0]][d]) - a[d]);
    return;
  }
  case 5: // stays
    return;
  case 6: // far away
    for (int d = 0; d < 2; d++)
      b[d] += ext * (g.unit() - 0.5) * (double)g.range(1, 500);
    return;
  default: { // into another cell
    double p[3];
    U.point_in(g, (int)g.below(U.nc()), p);
    b[0] = p[0], b[1] = p[1];
  }
  }
}
// 2: certainly crosses, 1: too close to call, 0: certainly does not; t: how far along the trajectory
static int crosses(int e, const double *a, const double *b, double &t) {
  auto &p = U.m.x[U.edges[e][0]], &q = U.m.x[U.edges[e][1]];
  long double ex = (long double)q[0] - p[0], ey = (long double)q[1] - p[1], tx = (long double)b[0] - a[0], ty = (long double)b[1] - a[1];
  long double le = std::sqrt(ex * ex + ey * ey), lt = std::sqrt(tx * tx + ty * ty);
  t = 0;
  if (lt == 0.0)
    return 0;
  long double cr = tx * ey - ty * ex, sn = std::fabs(cr) / (le * lt);
  long double wx = p[0] - (long double)a[0], wy = p[1] - (long double)a[1];
  double S = scale + (double)lt;
  if (sn < 1e-6) { // all but parallel
    long double dist = std::fabs(ex * wy - ey * wx) / le;
    return dist > 1e-5 * S ? 0 : 1;
  }
  long double T = (wx * ey - wy * ex) / cr, s = (wx * ty - wy * tx) / cr;
  t = (double)T;
  long double es = 1e-9 + 1e-13 * S / (le * sn), et = 1e-9 + 1e-13 * S / (lt * sn);
  if (s < -es || s > 1 + es || T < -et || T > 1 + et)
    return 0;
  return s > es && s < 1 - es && T > et && T < 1 - et ? 2 : 1;
}
void rank_main(int) {
  std::vector<DatSpec> spec = {{"P", pcomp, true},  {"CELL_ID", 1, false}, {"ID", 1, false}, {"Q", 1, false}, {"V", 2, true},
                               {"TSP", 2, true}, {"H", 6, true},        {"HM", 4, false}};
  auto lab = [](DM dm, bool mapped) {
    if (mode < 2) {
      pi::label_all_dmplex_boundaries(dm, pi::face_sets_label, 100);
      return;
    }
    int r;
    MPI_Comm_rank(sim::users_comm(), &r);
    // any rank may name any edge, by the mesh library's numbers of its vertices
    static std::map<int, int> vnum;
    IS is;
    const PetscInt *ix;
    PetscInt v0, v1;
    if (r == 0)
      vnum.clear();
    MPI_Barrier(sim::users_comm());
    if (mapped) {
      DMPlexGetDepthStratum(dm, 0, &v0, &v1);
      DMPlexGetVertexNumbering(dm, &is);
      ISGetIndices(is, &ix);
      for (PetscInt v = v0; v < v1; v++)
        vnum[simpetsc::global_point(dm, v) - U.nc()] = ix[v - v0] < 0 ? -(ix[v - v0] + 1) : ix[v - v0];
      ISRestoreIndices(is, &ix);
    } else
      for (int v = 0; v < (int)U.m.x.size(); v++)
        vnum[v] = v;
    MPI_Barrier(sim::users_comm());
    std::vector<PetscInt> s, e, l;
    for (size_t k = 0; k < U.edges.size(); k++)
      if (label[k] >= 0) {
        Rng g = rng(991, k);
        bool twice = g.pct(10);
        if ((int)g.below(nranks()) == r || twice) {
          bool sw = g.pct(50);
          s.push_back(vnum.at(U.edges[k][sw]));
          e.push_back(vnum.at(U.edges[k][!sw]));
          l.push_back(label[k]);
        }
      }
    pi::label_dmplex_edges(dm, pi::face_sets_label, s, e, l);
    MPI_Barrier(sim::users_comm());
  };
  UFix F = make_ufix(
      U, spec, true, [&](DM dm) { if (mode % 2 == 0) lab(dm, false); }, [&](DM dm) { if (mode % 2 == 1) lab(dm, true); });
  const int r = F.r, ncell = F.ncell;
  auto &A = F.A;
  { // what the edges are called
    PetscInt s, e;
    DMPlexGetDepthStratum(F.dm, 1, &s, &e);
    for (PetscInt p = s; p < e; p++) {
      const PetscInt *c;
      DMPlexGetCone(F.dm, p, &c);
      int a = simpetsc::global_point(F.dm, c[0]) - U.nc(), b = simpetsc::global_point(F.dm, c[1]) - U.nc();
      edge_of_id[F.mesh->dmh->get_point_global_index(p)] = edge_at.at({std::min(a, b), std::max(a, b)});
    }
    auto fs = F.mesh->dmh->get_face_sets();
    std::map<int, int> got;
    for (auto &l : fs)
      for (auto p : l.second)
        got[p] = l.first;
    for (PetscInt p = s; p < e; p++) {
      int w = label[edge_of_id[F.mesh->dmh->get_point_global_index(p)]];
      if (!got.count(p) || got[p] != w)
        sim::violation("edge %d of rank %d carries label %d, expected %d", (int)p, r, got.count(p) ? got[p] : -99, w);
    }
  }
  MPI_Barrier(sim::users_comm());
  std::vector<std::shared_ptr<pi::BoundaryInteraction2D>> B;
  for (int k = 0; k < nobj; k++) {
    if (k == 0)
      B.push_back(std::make_shared<pi::BoundaryInteraction2D>(F.target, F.mesh, groups[k]));
    else
      B.push_back(std::make_shared<pi::BoundaryInteraction2D>(F.target, F.mesh, groups[k], 0.0, Sym<REAL>("PREV1")));
  }
  auto refl = std::make_shared<BoundaryReflection>(2);
  i64 next = 1 + (i64)r * 1000000;
  int epoch = 0;
  const int o3 = pcomp - 2, iID = 3 + o3, iQ = 4 + o3, iV = 5 + o3, iT = 7 + o3, iH = 9 + o3, iM = 15 + o3;
  auto place = [&](int j, ParticleSet &ps, Rng &g) {
    double p[3];
    int c = (int)g.below(ncell);
    U.point_in(g, F.glob[c], p);
    ps.at(Sym<REAL>("P"), j, 0) = p[0];
    ps.at(Sym<REAL>("P"), j, 1) = p[1];
    if (pcomp > 2)
      ps.at(Sym<REAL>("P"), j, 2) = (double)g.range(-9, 9);
    ps.at(Sym<INT>("CELL_ID"), j, 0) = c;
    ps.at(Sym<INT>("ID"), j, 0) = next++;
    ps.at(Sym<INT>("Q"), j, 0) = g.range(0, 8);
  };
  auto scatter = [&](const Op &o, bool keep) { // everybody to some point inside the domain
    for (int c = 0; c < ncell; c++) {
      auto ID = A->get_cell(Sym<INT>("ID"), c);
      auto P = A->get_cell(Sym<REAL>("P"), c);
      for (int l = 0; l < ID->nrow; l++) {
        Rng g = rng(o.salt, (u64)ID->at(l, 0), 21);
        double p[3];
        U.point_in(g, keep ? F.glob[c] : (int)g.below(U.nc()), p);
        P->at(l, 0) = p[0];
        P->at(l, 1) = p[1];
      }
      if (ID->nrow)
        A->get_dat(Sym<REAL>("P"))->cell_dat.set_cell(c, P);
    }
    A->hybrid_move();
    A->cell_move();
  };
  auto clear = [&] {
    particle_loop(
        A,
        [=](auto H, auto HM) {
          for (int k = 0; k < 6; k++)
            H.at(k) = 0.0;
          for (int k = 0; k < 4; k++)
            HM.at(k) = 0;
        },
        Access::write(Sym<REAL>("H")), Access::write(Sym<INT>("HM")))
        ->execute();
  };
  auto collect = [&](int b, std::map<PetscInt, ParticleSubGroupSharedPtr> &m, int i) {
    for (auto &g : groups[b])
      if (!m.count(g.first))
        sim::violation("op %d (find crossings): no result for group %d", i, (int)g.first);
    if (m.size() != groups[b].size())
      sim::violation("op %d (find crossings): results for %d groups, expected %d", i, (int)m.size(), (int)groups[b].size());
    auto nm = B[b]->get_device_normal_mapper();
    for (auto &e : m) {
      if (!contains_boundary_interaction_data(e.second, 2))
        sim::violation("op %d (find crossings): the result for group %d lacks the standard data", i, (int)e.first);
      const INT gid = e.first;
      particle_loop(
          e.second,
          [=](auto H, auto HM, auto X, auto N, auto M) {
            H.at(0) = X.at_ephemeral(0);
            H.at(1) = X.at_ephemeral(1);
            H.at(2) = N.at_ephemeral(0);
            H.at(3) = N.at_ephemeral(1);
            HM.at(0) = HM.at(0) + 1;
            HM.at(1) = M.at_ephemeral(0);
            HM.at(2) = M.at_ephemeral(1);
            REAL *n;
            HM.at(3) = (nm.get(M.at_ephemeral(1), &n) ? 1 : 0) + (M.at_ephemeral(0) == gid ? 0 : 2);
            H.at(4) = n[0];
            H.at(5) = n[1];
          },
          Access::write(Sym<REAL>("H")), Access::write(Sym<INT>("HM")),
          Access::read(BoundaryInteractionSpecification::intersection_point),
          Access::read(BoundaryInteractionSpecification::intersection_normal),
          Access::read(BoundaryInteractionSpecification::intersection_metadata))
          ->execute();
    }
  };
  auto judge = [&](int b, int i, std::map<i64, std::array<double, 2>> &prev, std::function<bool(i64)> sel) {
    Obs ob;
    Snap s = read_group(A, spec, r, ncell);
    std::map<int, int> gof;
    for (auto &g : groups[b])
      for (auto l : g.second)
        gof[l] = g.first;
    for (auto &p : s) {
      i64 id = p.v[iID];
      double a[2] = {prev.at(id)[0], prev.at(id)[1]}, c[2] = {dbl(p.v[0]), dbl(p.v[1])};
      i64 cnt = p.v[iM], g = p.v[iM + 1], eid = p.v[iM + 2];
      ob.n++;
      if (!sel(p.v[iQ])) {
        if (cnt)
          sim::violation("op %d (find crossings): particle %lld was reported, but it was not asked about", i, (long long)id);
        continue;
      }
      double first = 2.0;
      int fe = -1;
      for (size_t e = 0; e < U.edges.size(); e++)
        if (label[e] >= 0 && gof.count(label[e])) {
          double t;
          if (crosses((int)e, a, c, t) == 2 && t < first)
            first = t, fe = (int)e;
        }
      if (cnt > 1)
        sim::violation("op %d (find crossings): particle %lld was reported %lld times", i, (long long)id, (long long)cnt);
      if (cnt == 0) {
        if (fe >= 0)
          sim::violation("op %d (find crossings): particle %lld going from (%.17g, %.17g) to (%.17g, %.17g) crosses the edge (%.17g, %.17g) "
                         "- (%.17g, %.17g), which was not reported",
                         i, (long long)id, a[0], a[1], c[0], c[1], U.m.x[U.edges[fe][0]][0], U.m.x[U.edges[fe][0]][1],
                         U.m.x[U.edges[fe][1]][0], U.m.x[U.edges[fe][1]][1]);
        continue;
      }
      ob.hit++;
      if (!edge_of_id.count((int)eid))
        sim::violation("op %d (find crossings): particle %lld crosses edge %lld, which does not exist", i, (long long)id, (long long)eid);
      int e = edge_of_id[(int)eid];
      double t;
      if (label[e] < 0 || !gof.count(label[e]) || gof[label[e]] != g || (p.v[iM + 3] & 2))
        sim::violation("op %d (find crossings): particle %lld is reported for group %lld at an edge with label %d", i, (long long)id,
                       (long long)g, label[e]);
      if (!crosses(e, a, c, t))
        sim::violation("op %d (find crossings): particle %lld going from (%.17g, %.17g) to (%.17g, %.17g) does not cross the reported "
                       "edge (%.17g, %.17g) - (%.17g, %.17g)",
                       i, (long long)id, a[0], a[1], c[0], c[1], U.m.x[U.edges[e][0]][0], U.m.x[U.edges[e][0]][1],
                       U.m.x[U.edges[e][1]][0], U.m.x[U.edges[e][1]][1]);
      double L = std::hypot(c[0] - a[0], c[1] - a[1]), tol = 1e-9 * (scale + L);
      auto &x = U.m.x[U.edges[e][0]], &y = U.m.x[U.edges[e][1]];
      double dx = y[0] - x[0], dy = y[1] - x[1], el = std::hypot(dx, dy);
      double sn = std::fabs((c[0] - a[0]) * dy - (c[1] - a[1]) * dx) / (L * el);
      if (fe >= 0 && (t - first) * L > tol / std::max(sn, 1e-6))
        sim::violation("op %d (find crossings): particle %lld crosses another edge first (at %.12g of its way, reported at %.12g)", i,
                       (long long)id, first, t);
      double X[2] = {dbl(p.v[iH]), dbl(p.v[iH + 1])}, N[2] = {dbl(p.v[iH + 2]), dbl(p.v[iH + 3])};
      if (sn > 1e-6) {
        double w = std::hypot(X[0] - a[0] - t * (c[0] - a[0]), X[1] - a[1] - t * (c[1] - a[1]));
        if (!(w <= tol / sn))
          sim::violation("op %d (find crossings): particle %lld crosses at (%.17g, %.17g), reported at (%.17g, %.17g)", i, (long long)id,
                         a[0] + t * (c[0] - a[0]), a[1] + t * (c[1] - a[1]), X[0], X[1]);
      }
      if (!(std::fabs(std::hypot(N[0], N[1]) - 1.0) < 1e-12) || !(std::fabs(N[0] * dx + N[1] * dy) < 1e-9 * el))
        sim::violation("op %d (find crossings): (%.17g, %.17g) is not the unit normal of the edge of particle %lld", i, N[0], N[1],
                       (long long)id);
      if (!(p.v[iM + 3] & 1) || dbl(p.v[iH + 4]) != N[0] || dbl(p.v[iH + 5]) != N[1])
        sim::violation("op %d (find crossings): the normal looked up for the edge of particle %lld is not the reported one", i, (long long)id);
      auto it = normal_seen.emplace(e, std::array<double, 2>{N[0], N[1]}).first;
      if (it->second[0] != N[0] || it->second[1] != N[1])
        sim::violation("op %d (find crossings): the normal of the edge of particle %lld changed", i, (long long)id);
    }
    hash_snap(s);
    std::vector<Obs> all;
    if (rv.deposit(epoch++, r, ob, all)) {
      int n = 0, h = 0;
      for (auto &o : all)
        n += o.n, h += o.hit;
      sim::counter("trajectories", n);
      sim::counter("crossings", h);
    }
    MPI_Barrier(sim::users_comm());
  };
  for (int i = 0; i < (int)ops.size(); i++) {
    const Op &o = ops[i];
    if (!sim::op_enabled(i))
      continue;
    sim::op_begin(i, kn[o.k]);
    Rng g = rng(o.salt, (u64)r, 5);
    switch (o.k) {
    case ADD: {
      int n = g.pct(25) ? 0 : o.n;
      ParticleSet ps(n, to_spec(spec));
      for (int j = 0; j < n; j++)
        place(j, ps, g);
      A->add_particles_local(ps);
      break;
    }
    case MOVE:
      scatter(o, false);
      break;
    case STEP: {
      std::map<i64, std::array<double, 2>> prev;
      int m = (int)(o.salt % 3);
      std::function<bool(i64)> sel = [](i64) { return true; };
      ParticleSubGroupSharedPtr S;
      if (o.who >= 2) {
        sel = [=](i64 q) { return q % 3 == m; };
        S = particle_sub_group(
            A, [=](auto Q) { return Q.at(0) % 3 == m; }, Access::read(Sym<INT>("Q")));
      }
      for (auto &b : B) {
        if (S)
          b->pre_integration(S);
        else
          b->pre_integration(A);
      }
      for (int c = 0; c < ncell; c++) {
        auto ID = A->get_cell(Sym<INT>("ID"), c);
        auto Q = A->get_cell(Sym<INT>("Q"), c);
        auto P = A->get_cell(Sym<REAL>("P"), c);
        auto V = A->get_cell(Sym<REAL>("V"), c);
        for (int l = 0; l < ID->nrow; l++) {
          double a[2] = {P->at(l, 0), P->at(l, 1)}, b[2];
          prev[ID->at(l, 0)] = {a[0], a[1]};
          target_of(ID->at(l, 0), o, a, b);
          V->at(l, 0) = b[0] - a[0];
          V->at(l, 1) = b[1] - a[1];
        }
        if (ID->nrow)
          A->get_dat(Sym<REAL>("V"))->cell_dat.set_cell(c, V);
      }
      auto step = [](auto P, auto V) {
        P.at(0) += V.at(0);
        P.at(1) += V.at(1);
      };
      if (S)
        particle_loop(S, step, Access::write(Sym<REAL>("P")), Access::read(Sym<REAL>("V")))->execute();
      else
        particle_loop(A, step, Access::write(Sym<REAL>("P")), Access::read(Sym<REAL>("V")))->execute();
      int again = g.pct(0) ? 0 : (int)(o.salt / 7 % 4); // the same question again, or a narrower one
      for (int b = 0; b < nobj; b++)
        for (int q = 0; q < (again == 3 ? 2 : 1); q++) {
          clear();
          if (q == 1 && !S) {
            auto S2 = particle_sub_group(
                A, [=](auto Q) { return Q.at(0) % 3 == m; }, Access::read(Sym<INT>("Q")));
            auto res = B[b]->post_integration(S2);
            collect(b, res, i);
            judge(b, i, prev, [=](i64 q) { return q % 3 == m; });
          } else {
            auto res = S ? B[b]->post_integration(S) : B[b]->post_integration(A);
            collect(b, res, i);
            judge(b, i, prev, sel);
          }
        }
      scatter(o, o.salt % 5 < 3);
      break;
    }
    case REFLECT: {
      std::map<i64, double> speed;
      for (int c = 0; c < ncell; c++) {
        auto ID = A->get_cell(Sym<INT>("ID"), c);
        auto P = A->get_cell(Sym<REAL>("P"), c);
        auto V = A->get_cell(Sym<REAL>("V"), c);
        for (int l = 0; l < ID->nrow; l++) {
          Rng h = rng(o.salt, (u64)ID->at(l, 0), 9);
          double ext = 0, lo[3], hi[3];
          U.box((int)h.below(U.nc()), lo, hi);
          ext = std::max(hi[0] - lo[0], hi[1] - lo[1]);
          for (int d = 0; d < 2; d++)
            V->at(l, d) = ext * (h.unit() * 3.0 - 1.5);
          speed[ID->at(l, 0)] = std::hypot(V->at(l, 0), V->at(l, 1));
        }
        if (ID->nrow)
          A->get_dat(Sym<REAL>("V"))->cell_dat.set_cell(c, V);
      }
      auto b2 = B[0];
      std::vector<ParticleSubGroupSharedPtr> keep;
      ParticleSubGroupSharedPtr aa = static_particle_sub_group(A);
      particle_loop(
          aa,
          [=](auto T) {
            T.at(0) = 0.0;
            T.at(1) = 0.0;
          },
          Access::write(Sym<REAL>("TSP")))
          ->execute();
      int it = 0;
      for (;;) {
        b2->pre_integration(aa);
        particle_loop(
            aa,
            [=](auto V, auto P, auto T) {
              const REAL left = 1.0 - T.at(0);
              if (left > 0.0) {
                P.at(0) += left * V.at(0);
                P.at(1) += left * V.at(1);
                T.at(0) = 1.0;
                T.at(1) = left;
              }
            },
            Access::read(Sym<REAL>("V")), Access::write(Sym<REAL>("P")), Access::write(Sym<REAL>("TSP")))
            ->execute();
        auto m = b2->post_integration(aa);
        for (auto &e : m)
          refl->execute(e.second, Sym<REAL>("P"), Sym<REAL>("V"), Sym<REAL>("TSP"), b2->previous_position_sym);
        aa = static_particle_sub_group(
            aa, [=](auto T) { return T.at(0) < 1.0; }, Access::read(Sym<REAL>("TSP")));
        if (get_npart_global(aa) == 0)
          break;
        if (++it > 300)
          sim::violation("op %d (%s): particles are still being reflected after %d bounces", i, kn[o.k], it);
      }
      Snap s = read_group(A, spec, r, ncell);
      for (auto &p : s) {
        i64 id = p.v[iID];
        double x[3] = {dbl(p.v[0]), dbl(p.v[1]), 0.0}, v = std::hypot(dbl(p.v[iV]), dbl(p.v[iV + 1]));
        double in = -1e300;
        for (int c = 0; c < U.nc(); c++)
          in = std::max(in, U.inside(c, x));
        if (!(in > -1e-13))
          sim::violation("op %d (%s): particle %lld left the domain and is at (%.17g, %.17g)", i, kn[o.k], (long long)id, x[0], x[1]);
        if (!(std::fabs(v - speed.at(id)) <= 1e-11 * speed[id]))
          sim::violation("op %d (%s): the speed of particle %lld changed from %.17g to %.17g", i, kn[o.k], (long long)id, speed[id], v);
        if (dbl(p.v[iT]) != 1.0)
          sim::violation("op %d (%s): particle %lld has done %.17g of its step", i, kn[o.k], (long long)id, dbl(p.v[iT]));
      }
      sim::counter("bounces", it);
      hash_snap(s);
      A->hybrid_move();
      A->cell_move();
      break;
    }
    }
    MPI_Barrier(sim::users_comm());
  }
  for (auto &b : B)
    b->free();
  B.clear();
  free_ufix(F);
}
void finish() {
  for (const char *k : {"DM", "Vec", "IS", "Mat", "SF", "Viewer", "Array"})
    if (simpetsc::live(k))
      sim::violation("everything was freed, but %ld objects of PETSc's kind %s still exist", simpetsc::live(k), k);
}
const char *judge_abort(const char *) { return "the library stopped on a valid input"; }
} // namespace simwl
