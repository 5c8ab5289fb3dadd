// P29: fields on unstructured meshes: deposition onto and evaluation from cell
// and vertex values, transfer between meshes, placement by density.
#include "umesh.hpp"
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
enum OpK { ADD, MOVE, PROJ, EVAL, VPROJ, VEVAL, COUPLE, DENSITY, OK_N };
static const char *kn[] = {"add particles",     "move particles",      "project to cells",       "evaluate from cells", "project to vertices",
                           "evaluate from vertices", "couple two meshes", "place by density"};
struct Op {
  int k, n, nc, how;
  u64 salt;
};
static UMesh U;
static std::vector<Op> ops;
static Rendezvous<std::vector<std::array<int, 2>>> rvc; // per rank: its cells, as the coupler names them, and their local numbers
static double scale;

void choose_knobs() {
  if (sim::K.nranks > 5)
    sim::K.nranks = 4;
}
void plan() {
  seed_plan();
  simpetsc::reset();
  Rng r = rng(1);
  U = random_umesh(rng(2), nranks(), 2);
  simpetsc::set_partition(U.part);
  rvc = {};
  scale = 0;
  for (auto &x : U.m.x)
    scale = std::max(scale, std::max(std::fabs(x[0]), std::fabs(x[1])));
  ops.clear();
  ops.push_back({ADD, (int)r.range(1, 25), 0, 0, r.next()});
  int n = (int)r.range(3, 9);
  for (int i = 0; i < n; i++) {
    static const int w[OK_N] = {1, 2, 3, 3, 3, 3, 3, 1};
    int x = (int)r.below(19), k = 0;
    while (k < OK_N - 1 && x >= w[k])
      x -= w[k], k++;
    ops.push_back({k, (int)r.range(0, 20), (int)r.range(1, 3), (int)r.below(8), r.next()});
  }
}
// Coordinates of p in the reference cell: weights of the vertices of cell c.
static void weights(int c, const double *p, double *w) {
  auto &q = U.m.cells[c];
  if (q.size() == 3) {
    auto &a = U.v(c, 0), &b = U.v(c, 1), &d = U.v(c, 2);
    long double D = ((long double)b[0] - a[0]) * ((long double)d[1] - a[1]) - ((long double)b[1] - a[1]) * ((long double)d[0] - a[0]);
    w[1] = (double)((((long double)p[0] - a[0]) * ((long double)d[1] - a[1]) - ((long double)p[1] - a[1]) * ((long double)d[0] - a[0])) / D);
    w[2] = (double)((((long double)b[0] - a[0]) * ((long double)p[1] - a[1]) - ((long double)b[1] - a[1]) * ((long double)p[0] - a[0])) / D);
    w[0] = 1.0 - w[1] - w[2];
    return;
  }
  long double s = 0.5, t = 0.5;
  for (int it = 0; it < 60; it++) {
    long double W[4] = {(1 - s) * (1 - t), s * (1 - t), s * t, (1 - s) * t}, f[2], ds[2], dt[2];
    for (int d = 0; d < 2; d++) {
      f[d] = -(long double)p[d];
      for (int k = 0; k < 4; k++)
        f[d] += W[k] * U.v(c, k)[d];
      ds[d] = (1 - t) * ((long double)U.v(c, 1)[d] - U.v(c, 0)[d]) + t * ((long double)U.v(c, 2)[d] - U.v(c, 3)[d]);
      dt[d] = (1 - s) * ((long double)U.v(c, 3)[d] - U.v(c, 0)[d]) + s * ((long double)U.v(c, 2)[d] - U.v(c, 1)[d]);
    }
    long double D = ds[0] * dt[1] - ds[1] * dt[0];
    s -= (f[0] * dt[1] - f[1] * dt[0]) / D;
    t -= (ds[0] * f[1] - ds[1] * f[0]) / D;
  }
  w[0] = (double)((1 - s) * (1 - t)), w[1] = (double)(s * (1 - t)), w[2] = (double)(s * t), w[3] = (double)((1 - s) * t);
}
static int vertex_at(int c, const double *p) { // which vertex of cell c is at p
  auto &q = U.m.cells[c];
  for (size_t k = 0; k < q.size(); k++)
    if (U.v(c, (int)k)[0] == p[0] && U.v(c, (int)k)[1] == p[1])
      return (int)k;
  return -1;
}
static bool close(double a, double b, double mag, double tol) { return std::fabs(a - b) <= tol * mag; }
void rank_main(int) {
  // F1..F3: sources, G1..G3: results
  const std::vector<DatSpec> spec = {{"P", 2, true},  {"CELL_ID", 1, false}, {"ID", 1, false}, {"Q", 1, false}, {"F1", 1, true},
                                     {"F2", 2, true}, {"F3", 3, true},       {"G1", 1, true},  {"G2", 2, true}, {"G3", 3, true}};
  const int iID = 3, iQ = 4, iF[4] = {0, 5, 6, 8}, iG[4] = {0, 11, 12, 14};
  UFix F = make_ufix(U, spec);
  const int r = F.r, ncell = F.ncell;
  auto &A = F.A;
  i64 next = 1 + (i64)r * 1000000;
  int epoch = 0;
  const bool own_qpm = ops[0].salt % 2; // the cell field keeps its values with a set of points
  auto qv = pi::make_quadrature_point_mapper_vertex(F.target, F.domain);
  auto qa = own_qpm ? pi::make_quadrature_point_mapper_average(F.target, F.domain) : nullptr;
  auto dg = qa ? std::make_shared<pi::DMPlexProjectEvaluateDG>(qa, "DG", 0)
               : std::make_shared<pi::DMPlexProjectEvaluateDG>(F.mesh, F.target, "DG", 0);
  auto ba = std::make_shared<pi::DMPlexProjectEvaluateBarycentric>(qv, "Barycentric", 1);
  std::vector<std::vector<std::pair<int, int>>> vpts(ncell); // per cell and layer: vertex, order the point was added in
  {
    auto G = qv->particle_group;
    int have = 0;
    for (int c = 0; c < ncell; c++) {
      auto P = G->get_cell(Sym<REAL>("P"), c);
      auto I = G->get_cell(Sym<INT>("ADDING_RANK_INDEX"), c);
      std::set<int> s;
      for (int l = 0; l < P->nrow; l++) {
        double p[2] = {P->at(l, 0), P->at(l, 1)};
        int v = vertex_at(F.glob[c], p);
        if (v < 0 || !s.insert(v).second)
          sim::violation("point %d of cell %d at (%.17g, %.17g) is not at a vertex of its own", l, c, p[0], p[1]);
        vpts[c].push_back({v, (int)I->at(l, 1)});
        have++;
      }
      if (s.size() != U.m.cells[F.glob[c]].size())
        sim::violation("cell %d has %d points, expected one per vertex", c, (int)s.size());
    }
    auto vc = pi::get_cell_vertices_cdc(F.target, F.mesh->dmh);
    for (int c = 0; c < ncell; c++) {
      auto &q = U.m.cells[F.glob[c]];
      int nv = std::get<0>(vc)->get_value(c, 0, 0);
      std::set<int> s;
      for (int v = 0; v < nv; v++) {
        double p[2] = {std::get<1>(vc)->get_value(c, v, 0), std::get<1>(vc)->get_value(c, v, 1)};
        s.insert(vertex_at(F.glob[c], p));
      }
      if (nv != (int)q.size() || (int)s.size() != nv || s.count(-1))
        sim::violation("the vertices reported for cell %d are not its vertices", c);
    }
    sim::counter("vertex_points", have);
  }
  auto place = [&](int j, ParticleSet &ps, Rng &g) {
    double p[3];
    int c = (int)g.below(ncell);
    U.point_in(g, F.glob[c], p);
    ps.at(Sym<REAL>("P"), j, 0) = p[0];
    ps.at(Sym<REAL>("P"), j, 1) = p[1];
    ps.at(Sym<INT>("CELL_ID"), j, 0) = c;
    ps.at(Sym<INT>("ID"), j, 0) = next++;
    ps.at(Sym<INT>("Q"), j, 0) = g.range(0, 8);
    for (int k = 1; k <= 3; k++)
      for (int d = 0; d < k; d++)
        ps.at(Sym<REAL>("F" + std::to_string(k)), j, d) = (double)g.range(-1000, 1000) / 16.0;
  };
  auto reset_results = [&] {
    particle_loop(
        A,
        [=](auto G1, auto G2, auto G3) {
          G1.at(0) = -7777.0;
          for (int d = 0; d < 2; d++)
            G2.at(d) = -7777.0;
          for (int d = 0; d < 3; d++)
            G3.at(d) = -7777.0;
        },
        Access::write(Sym<REAL>("G1")), Access::write(Sym<REAL>("G2")), Access::write(Sym<REAL>("G3")))
        ->execute();
  };
  for (int i = 0; i < (int)ops.size(); i++) {
    const Op &o = ops[i];
    if (!sim::op_enabled(i))
      continue;
    sim::op_begin(i, kn[o.k]);
    Rng g = rng(o.salt, (u64)r, 5);
    const int nc = o.nc, m = (int)(o.salt % 3);
    const Sym<REAL> src("F" + std::to_string(nc)), dst("G" + std::to_string(nc));
    std::function<bool(i64)> sel = [](i64) { return true; };
    ParticleSubGroupSharedPtr S;
    if (o.how >= 5 && o.k >= PROJ && o.k <= VEVAL) {
      sel = [=](i64 q) { return q % 3 == m; };
      S = particle_sub_group(
          A, [=](auto Q) { return Q.at(0) % 3 == m; }, Access::read(Sym<INT>("Q")));
    }
    switch (o.k) {
    case ADD: {
      int n = g.pct(25) ? 0 : o.n;
      ParticleSet ps(n, to_spec(spec));
      for (int j = 0; j < n; j++)
        place(j, ps, g);
      A->add_particles_local(ps);
      break;
    }
    case MOVE:
      for (int c = 0; c < ncell; c++) {
        auto ID = A->get_cell(Sym<INT>("ID"), c);
        auto P = A->get_cell(Sym<REAL>("P"), c);
        for (int l = 0; l < ID->nrow; l++) {
          Rng h = rng(o.salt, (u64)ID->at(l, 0), 21);
          double p[3];
          U.point_in(h, o.how == 0 ? (int)(o.salt % (u64)U.nc()) : (int)h.below(U.nc()), p);
          P->at(l, 0) = p[0];
          P->at(l, 1) = p[1];
        }
        if (ID->nrow)
          A->get_dat(Sym<REAL>("P"))->cell_dat.set_cell(c, P);
      }
      A->hybrid_move();
      A->cell_move();
      break;
    case PROJ: {
      if (S)
        dg->project(S, src);
      else
        dg->project(A, src);
      Snap s = read_group(A, spec, r, ncell);
      std::vector<double> want((size_t)ncell * nc, 0.0), mag((size_t)ncell * nc, 0.0), got, pts;
      for (auto &p : s)
        if (sel(p.v[iQ]))
          for (int d = 0; d < nc; d++) {
            double v = dbl(p.v[iF[nc] + d]) / U.area(F.glob[p.cell]);
            want[(size_t)p.cell * nc + d] += v;
            mag[(size_t)p.cell * nc + d] += std::fabs(v);
          }
      int ask = o.how % 2 ? nc : 1; // fewer components than there are
      dg->get_dofs(ask, got);
      if ((int)got.size() != ncell * ask)
        sim::violation("op %d (%s): %d values for %d cells", i, kn[o.k], (int)got.size(), ncell);
      for (int c = 0; c < ncell; c++)
        for (int d = 0; d < ask; d++)
          if (!close(got[(size_t)c * ask + d], want[(size_t)c * nc + d], mag[(size_t)c * nc + d], 1e-9))
            sim::violation("op %d (%s): cell %d of rank %d component %d of %d is %.17g, expected %.17g", i, kn[o.k], c, r, d, nc,
                           got[(size_t)c * ask + d], want[(size_t)c * nc + d]);
      if (qa) {
        qa->get(nc, pts);
        for (int c = 0; c < ncell; c++)
          for (int d = 0; d < nc; d++)
            if (!close(pts.at((size_t)c * nc + d), want[(size_t)c * nc + d], mag[(size_t)c * nc + d], 1e-9))
              sim::violation("op %d (%s): the point of cell %d of rank %d component %d of %d has %.17g, expected %.17g", i, kn[o.k], c, r, d,
                             nc, pts[(size_t)c * nc + d], want[(size_t)c * nc + d]);
      }
      auto vtk = dg->get_vtk_data();
      for (int c = 0; c < ncell; c++)
        if (vtk.at(c).cell_data.at("value") != got[(size_t)c * ask])
          sim::violation("op %d (%s): cell %d of rank %d is written as %.17g, its value is %.17g", i, kn[o.k], c, r,
                         vtk[c].cell_data["value"], got[(size_t)c * ask]);
      hash_snap(s);
      sim::counter("projected", s.size());
      break;
    }
    case EVAL: {
      std::vector<double> dofs;
      for (int c = 0; c < ncell * nc; c++)
        dofs.push_back((double)g.range(-100000, 100000) / 7.0);
      if (qa)
        qa->set(nc, dofs);
      else
        dg->set_dofs(nc, dofs);
      reset_results();
      if (S)
        dg->evaluate(S, dst);
      else
        dg->evaluate(A, dst);
      Snap s = read_group(A, spec, r, ncell);
      for (auto &p : s)
        for (int d = 0; d < nc; d++) {
          double w = sel(p.v[iQ]) ? dofs[(size_t)p.cell * nc + d] : -7777.0, x = dbl(p.v[iG[nc] + d]);
          if (x != w)
            sim::violation("op %d (%s): particle %lld in cell %d of rank %d evaluates to %.17g in component %d of %d, expected %.17g", i,
                           kn[o.k], (long long)p.v[iID], p.cell, r, x, d, nc, w);
        }
      std::vector<double> got;
      dg->get_dofs(nc, got);
      if (got != dofs)
        sim::violation("op %d (%s): the cell values of rank %d are not the ones set", i, kn[o.k], r);
      hash_snap(s);
      sim::counter("evaluated", s.size());
      break;
    }
    case VPROJ: {
      if (S)
        ba->project(S, src);
      else
        ba->project(A, src);
      Snap s = read_group(A, spec, r, ncell);
      std::vector<double> want((size_t)ncell * 4 * nc, 0.0), mag(want);
      for (auto &p : s)
        if (sel(p.v[iQ])) {
          double x[2] = {dbl(p.v[0]), dbl(p.v[1])}, w[4] = {0, 0, 0, 0};
          int gc = F.glob[p.cell], nv = (int)U.m.cells[gc].size();
          weights(gc, x, w);
          for (int v = 0; v < nv; v++)
            for (int d = 0; d < nc; d++) {
              double y = dbl(p.v[iF[nc] + d]) * nv / U.area(gc);
              want[((size_t)p.cell * 4 + v) * nc + d] += w[v] * y;
              mag[((size_t)p.cell * 4 + v) * nc + d] += std::fabs(y);
            }
        }
      std::vector<double> pts;
      qv->get(nc, pts);
      auto dat = qv->particle_group->get_dat(qv->get_sym(nc));
      for (int c = 0; c < ncell; c++) {
        auto D = dat->cell_dat.get_cell(c);
        for (int l = 0; l < (int)vpts[c].size(); l++)
          for (int d = 0; d < nc; d++) {
            size_t k = ((size_t)c * 4 + vpts[c][l].first) * nc + d;
            if (!close(D->at(l, d), want[k], mag[k], 1e-6))
              sim::violation("op %d (%s): vertex %d of cell %d of rank %d component %d of %d is %.17g, expected %.17g", i, kn[o.k],
                             vpts[c][l].first, c, r, d, nc, D->at(l, d), want[k]);
            if (pts.at((size_t)vpts[c][l].second * nc + d) != D->at(l, d))
              sim::violation("op %d (%s): point %d of rank %d is read as %.17g, its value is %.17g", i, kn[o.k], vpts[c][l].second, r,
                             pts[(size_t)vpts[c][l].second * nc + d], D->at(l, d));
          }
        // the total and the first moments of what was deposited stay in the cell
        for (int d = 0; d < nc; d++) {
          double got[3] = {0, 0, 0}, exp[3] = {0, 0, 0}, mg = 0, vol = U.area(F.glob[c]) / (double)vpts[c].size();
          for (int l = 0; l < (int)vpts[c].size(); l++) {
            auto &x = U.v(F.glob[c], vpts[c][l].first);
            got[0] += D->at(l, d) * vol;
            got[1] += x[0] * D->at(l, d) * vol;
            got[2] += x[1] * D->at(l, d) * vol;
          }
          for (auto &p : s)
            if (p.cell == c && sel(p.v[iQ])) {
              double v = dbl(p.v[iF[nc] + d]);
              exp[0] += v;
              exp[1] += v * dbl(p.v[0]);
              exp[2] += v * dbl(p.v[1]);
              mg += std::fabs(v);
            }
          for (int k = 0; k < 3; k++)
            if (!close(got[k], exp[k], mg * (k ? 1.0 + scale : 1.0), 1e-9))
              sim::violation("op %d (%s): moment %d of component %d of cell %d of rank %d is %.17g, expected %.17g", i, kn[o.k], k, d, c, r,
                             got[k], exp[k]);
        }
      }
      auto vtk = ba->get_vtk_data();
      for (int c = 0; c < ncell; c++) {
        auto &pd = vtk.at(c).point_data.at("value");
        for (size_t v = 0; v < pd.size(); v++) {
          double x[2] = {vtk[c].points.at(3 * v), vtk[c].points.at(3 * v + 1)};
          int q = vertex_at(F.glob[c], x);
          size_t k = ((size_t)c * 4 + (q < 0 ? 0 : q)) * nc;
          if (q < 0 || !close(pd[v], want[k], mag[k], 1e-6))
            sim::violation("op %d (%s): vertex (%.17g, %.17g) of cell %d of rank %d is written as %.17g, expected %.17g", i, kn[o.k], x[0],
                           x[1], c, r, pd[v], want[k]);
        }
      }
      hash_snap(s);
      sim::counter("projected", s.size());
      break;
    }
    case VEVAL: {
      std::vector<double> val((size_t)ncell * 4 * nc);
      double co[3][3], mx = 0;
      Rng h = rng(o.salt, 12);
      for (auto &a : co)
        for (auto &b : a)
          b = (double)h.range(-64, 64) / 8.0;
      bool lin = o.how % 2;
      for (int c = 0; c < ncell; c++)
        for (int v = 0; v < (int)vpts[c].size(); v++)
          for (int d = 0; d < nc; d++) {
            auto &x = U.v(F.glob[c], v);
            double y = lin ? co[d][0] + co[d][1] * x[0] + co[d][2] * x[1] : (double)g.range(-1000, 1000) / 8.0;
            val[((size_t)c * 4 + v) * nc + d] = y;
            mx = std::max(mx, std::fabs(y));
          }
      const auto qs = qv->get_sym(nc);
      if (lin && nc == 2 && o.salt % 5 < 3) {
        const double a0 = co[0][0], a1 = co[0][1], a2 = co[0][2], b0 = co[1][0], b1 = co[1][1], b2 = co[1][2];
        ExternalCommon::interpolate<2, 2>(
            qv, [=](auto x, auto y) { return a0 + a1 * x + a2 * y; }, [=](auto x, auto y) { return b0 + b1 * x + b2 * y; });
      } else {
        std::vector<double> in;
        for (int c = 0; c < ncell; c++)
          for (auto &q : vpts[c])
            for (int d = 0; d < nc; d++) {
              size_t k = (size_t)q.second * nc + d;
              if (in.size() <= k)
                in.resize(k + 1);
              in[k] = val[((size_t)c * 4 + q.first) * nc + d];
            }
        qv->set(nc, in);
      }
      reset_results();
      if (S)
        ba->evaluate(S, dst);
      else
        ba->evaluate(A, dst);
      Snap s = read_group(A, spec, r, ncell);
      for (auto &p : s) {
        double x[2] = {dbl(p.v[0]), dbl(p.v[1])}, w[4] = {0, 0, 0, 0};
        weights(F.glob[p.cell], x, w);
        for (int d = 0; d < nc; d++) {
          double y = dbl(p.v[iG[nc] + d]);
          if (!sel(p.v[iQ])) {
            if (y != -7777.0)
              sim::violation("op %d (%s): particle %lld was evaluated, but it was not asked about", i, kn[o.k], (long long)p.v[iID]);
            continue;
          }
          double e = 0;
          for (int v = 0; v < (int)vpts[p.cell].size(); v++)
            e += w[v] * val[((size_t)p.cell * 4 + v) * nc + d];
          if (!close(y, e, mx, 1e-6))
            sim::violation("op %d (%s): particle %lld at (%.17g, %.17g) evaluates to %.17g in component %d of %d, expected %.17g", i,
                           kn[o.k], (long long)p.v[iID], x[0], x[1], y, d, nc, e);
        }
      }
      hash_snap(s);
      sim::counter("evaluated", s.size());
      break;
    }
    case COUPLE: {
      // cells of B as the coupler names them
      std::vector<std::array<int, 2>> mine;
      for (int c = 0; c < ncell; c++)
        mine.push_back({(int)F.mesh->dmh->get_point_global_index(F.mesh->dmh->get_dmplex_cell_index(c)), c});
      std::vector<std::vector<std::array<int, 2>>> all;
      rvc.deposit(epoch, r, mine, all);
      MPI_Barrier(sim::users_comm());
      static std::vector<std::vector<std::array<int, 2>>> cells;
      if (!all.empty())
        cells = all;
      MPI_Barrier(sim::users_comm());
      epoch++;
      std::vector<int> gl; // all cells of B
      std::map<int, std::array<int, 2>> where;
      for (int q = 0; q < nranks(); q++)
        for (auto &e : cells[q])
          gl.push_back(e[0]), where[e[0]] = {q, e[1]};
      auto entries = [&](int q) { // what rank q's mesh A looks like
        Rng h = rng(o.salt, (u64)q, 31);
        std::vector<std::vector<pi::DMPlexMeshCouplerDG0MapEntry>> m2((size_t)(h.pct(20) ? 0 : h.range(1, 7)));
        int near = h.pct(30); // one rank's cells only
        for (auto &e : m2) {
          int k = (int)h.range(0, 5);
          for (int j = 0; j < k; j++) {
            pi::DMPlexMeshCouplerDG0MapEntry x;
            auto &own = cells[(size_t)(o.salt % (u64)nranks())];
            x.cell_index = near ? own[(size_t)h.below((i64)own.size())][0] : gl[(size_t)h.below((i64)gl.size())];
            x.weight_forward = (double)h.range(-16, 16) / 8.0;
            x.weight_backward = (double)h.range(-16, 16) / 4.0;
            e.push_back(x);
          }
        }
        return m2;
      };
      auto my = entries(r);
      auto cp = std::make_shared<pi::DMPlexMeshCouplerDG0>(F.dm, my);
      if (cp->cell_count_B != ncell || cp->cell_count_A != (int)my.size())
        sim::violation("op %d (%s): the coupler counts %d and %d cells, expected %d and %d", i, kn[o.k], cp->cell_count_A, cp->cell_count_B,
                       (int)my.size(), ncell);
      if (o.salt % 3 == 0)
        my.clear(); // no longer needed
      auto valA = [&](int q, int a, int d, int t) { Rng h = rng(o.salt + (u64)t, (u64)(q * 1000 + a), (u64)(41 + d)); return (double)h.range(-64, 64); };
      auto valB = [&](int gc, int d, int t) { Rng h = rng(o.salt + (u64)t, (u64)gc, (u64)(61 + d)); return (double)h.range(-64, 64); };
      int nt = 1 + o.n % 4;
      for (int t = 0; t < nt; t++) {
        Rng h = rng(o.salt, (u64)t, 51);
        int n2 = (int)h.range(1, 4), extra = (int)h.range(0, 2) * 3;
        bool fwd = h.pct(50);
        const int nA = cp->cell_count_A;
        std::vector<double> a, b, want;
        if (fwd) {
          for (int k = 0; k < nA; k++)
            for (int d = 0; d < n2; d++)
              a.push_back(valA(r, k, d, t));
          b.assign((size_t)(ncell * n2 + extra), 12345.0);
          want.assign((size_t)ncell * n2, 0.0);
          for (int q = 0; q < nranks(); q++) {
            auto e = entries(q);
            for (int k = 0; k < (int)e.size(); k++)
              for (auto &x : e[(size_t)k])
                if (where[x.cell_index][0] == r)
                  for (int d = 0; d < n2; d++)
                    want[(size_t)where[x.cell_index][1] * n2 + d] += x.weight_forward * valA(q, k, d, t);
          }
          cp->forward_transfer(a, n2, b);
          for (size_t k = 0; k < want.size(); k++)
            if (b[k] != want[k])
              sim::violation("op %d (%s): transfer %d gives cell %d of rank %d component %d of %d the value %.17g, expected %.17g", i,
                             kn[o.k], t, (int)k / n2, r, (int)k % n2, n2, b[k], want[k]);
        } else {
          for (int c = 0; c < ncell; c++)
            for (int d = 0; d < n2; d++)
              b.push_back(valB(mine[c][0], d, t));
          a.assign((size_t)(nA * n2 + extra), 12345.0);
          auto e = entries(r);
          want.assign((size_t)nA * n2, 0.0);
          for (int k = 0; k < nA; k++)
            for (auto &x : e[(size_t)k])
              for (int d = 0; d < n2; d++)
                want[(size_t)k * n2 + d] += x.weight_backward * valB(x.cell_index, d, t);
          cp->backward_transfer(b, n2, a);
          for (size_t k = 0; k < want.size(); k++)
            if (a[k] != want[k])
              sim::violation("op %d (%s): transfer %d back gives cell %d of rank %d component %d of %d the value %.17g, expected %.17g", i,
                             kn[o.k], t, (int)k / n2, r, (int)k % n2, n2, a[k], want[k]);
        }
        sim::counter("transfers");
      }
      cp->free();
      break;
    }
    case DENSITY: {
      Rng h = rng(o.salt, 71);
      const double c0 = (double)h.range(-8, 24), c1 = (double)h.range(-8, 8) / 4.0, c2 = (double)h.range(-8, 8) / 4.0;
      double tot = 1e-9;
      for (int c = 0; c < U.nc(); c++)
        tot += U.area(c);
      const double wt = std::max(1.0, std::fabs(c0)) * tot / (double)h.range(5, 60);
      std::vector<std::vector<double>> pos;
      std::vector<int> cells;
      std::mt19937 gen((unsigned)(o.salt + (u64)r));
      auto res = pi::sample_points_for_distribution<2>(
          F.target, F.domain, wt, [=](auto x, auto y) { return c0 + c1 * x + c2 * y; }, pos, cells, &gen);
      std::vector<int> cnt((size_t)ncell, 0);
      if (pos.size() != 2 || pos[0].size() != cells.size() || pos[1].size() != cells.size())
        sim::violation("op %d (%s): positions and cells differ in number", i, kn[o.k]);
      for (size_t j = 0; j < cells.size(); j++) {
        double x[3] = {pos[0][j], pos[1][j], 0};
        if (cells[j] < 0 || cells[j] >= ncell || U.inside(F.glob[cells[j]], x) < -1e-9)
          sim::violation("op %d (%s): position (%.17g, %.17g) is not in its cell %d", i, kn[o.k], x[0], x[1], cells[j]);
        cnt[(size_t)cells[j]]++;
      }
      int lo = std::numeric_limits<int>::max(), hi = 0;
      for (int c = 0; c < ncell; c++) {
        auto &q = U.m.cells[F.glob[c]];
        double av = 0;
        for (int v : q)
          av += (c0 + c1 * U.m.x[v][0] + c2 * U.m.x[v][1]) / (double)q.size();
        double n = std::max(av * U.area(F.glob[c]), 0.0) / wt;
        if (std::fabs(n - cnt[c]) > 0.5 + 1e-7 * (1 + std::fabs(n)))
          sim::violation("op %d (%s): cell %d of rank %d has %d positions, expected %.17g", i, kn[o.k], c, r, cnt[c], n);
        lo = std::min(lo, cnt[c]);
        hi = std::max(hi, cnt[c]);
      }
      if (res[0] != lo || res[1] != hi || res[2] != (int)cells.size())
        sim::violation("op %d (%s): least, most and total are %d %d %d, reported %d %d %d", i, kn[o.k], lo, hi, (int)cells.size(), res[0],
                       res[1], res[2]);
      sim::counter("placed", cells.size());
      break;
    }
    }
    MPI_Barrier(sim::users_comm());
  }
  dg.reset();
  ba.reset();
  qv->free();
  qv.reset();
  if (qa) {
    qa->free();
    qa.reset();
  }
  free_ufix(F);
}
void finish() {
  for (const char *k : {"DM", "Vec", "IS", "Mat", "SF", "Viewer", "Array"})
    if (simpetsc::live(k))
      sim::violation("everything was freed, but %ld objects of PETSc's kind %s still exist", simpetsc::live(k), k);
}
const char *judge_abort(const char *) { return "the library stopped on a valid input"; }
} // namespace simwl
