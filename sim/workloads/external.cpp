// P25: values sampled at points registered by any rank, and unknowns in an external
// ordering, arrive exactly where they belong.
#include "store.hpp"
#include <neso_particles/external_interfaces/common/common.hpp>
#include <neso_particles/external_interfaces/common/dof_mapper_dg.hpp>
#include <neso_particles/external_interfaces/common/quadrature_point_mapper.hpp>
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
namespace ext = NESO::Particles::ExternalCommon;
enum OpK { CREATE, WRITE, COMP, FUNCS, GET, SET, DUMP, DMAP, DTO, DFROM, DDAT, OK_N };
static const char *kn[] = {"create a point map", "write at the points", "interpolate one component", "interpolate",
                           "get values", "set values", "write points to disk", "set unknown ordering",
                           "copy unknowns out", "copy unknowns in", "change unknowns"};
static const int NC = 4;
struct Op {
  int k, n, which, nc;
  u64 salt;
};
static MeshSpec ms;
static std::vector<Op> ops;
static int ndof;
typedef std::vector<std::array<double, 3>> Pts;
static Rendezvous<std::vector<std::array<i64, 3>>> rv;

void choose_knobs() {
  if (sim::K.nranks > 5)
    sim::K.nranks = 4;
}
void plan() {
  seed_plan();
  Rng r = rng(1);
  for (u64 k = 2;; k++) {
    ms = random_mesh(rng(k), 64);
    world_reset(ms);
    if (W.exact())
      break;
  }
  rv = {};
  ndof = (int)r.range(1, 5);
  ops.clear();
  ops.push_back({CREATE, (int)r.range(0, 40), 0, 1, r.next()});
  int n = (int)r.range(3, 12);
  for (int i = 0; i < n; i++) {
    static const int w[OK_N] = {2, 8, 6, 4, 10, 6, 2, 4, 6, 6, 3};
    int x = (int)r.below(57), k = 0;
    while (k < OK_N - 1 && x >= w[k])
      x -= w[k], k++;
    ops.push_back({k, (int)(r.pct(15) ? r.range(60, 250) : r.range(0, 30)), (int)r.below(2), (int)r.range(1, NC), r.next()});
  }
}
// The points rank q registers: derived from the plan, so every rank knows them all.
static Pts points_of(const Op &o, int q) {
  Pts p;
  Rng g = rng(o.salt, (u64)q, 9);
  int how = (int)(o.salt % 5);
  int n = (int)g.range(0, o.n);
  if (how == 1 && q != (int)(o.salt / 7 % (u64)nranks()))
    n = 0; // only one rank registers points
  for (int i = 0; i < n; i++) {
    std::array<double, 3> x{0, 0, 0};
    random_pos(g, ms, x.data());
    if (how == 2) // all in one corner
      for (int d = 0; d < ms.ndim; d++)
        x[d] = std::fmod(x[d], ms.width());
    if (how == 3) { // all in cells of the registering rank
      Rng h = rng(o.salt, (u64)q, 100 + (u64)i);
      int nc = 1;
      for (int d = 0; d < 3; d++)
        nc *= W.owned[q].hi[d] - W.owned[q].lo[d];
      pos_in_cell(h, q, (int)h.below(nc), x.data());
    }
    if (i && g.pct(10))
      x = p[(size_t)g.below(i)]; // the same place twice
    p.push_back(x);
  }
  return p;
}
struct Map {
  std::shared_ptr<ext::QuadraturePointMapper> q;
  Op made;
  Pts pts;                                     // registered by this rank
  std::vector<std::vector<double>> val[NC + 1]; // [ncomp][point][component], NaN: never written
  bool have[NC + 1] = {};
};
static double unset() { return dbl(0x7ff8000000abcdefll); }
static double f_of(const double *p, int c, u64 salt, int nd) {
  return p[(c + (int)(salt % 3)) % nd] * (double)(1 << ((int)(salt % 7) + c)); // exact
}
void rank_main(int) {
  Store S(ms, {{"V", 1, true}});
  auto target = S.target;
  const int nd = ms.ndim, ncell = S.ncell, r = S.r;
  Map maps[2];
  // unknowns: internal per-cell values and an external ordering
  auto dm = std::make_shared<ext::DOFMapperDG>(target, ncell, ndof);
  auto D = std::make_shared<CellDatConst<REAL>>(target, ncell, ndof, 1);
  auto E = std::make_shared<CellDatConst<REAL>>(target, ncell, ndof, 1);
  for (int c = 0; c < ncell; c++)
    for (int k = 0; k < ndof; k++)
      E->set_value(c, k, 0, -(double)(c * ndof + k));
  D->fill(0.0);
  std::vector<double> mD((size_t)ncell * ndof, 0.0);
  std::vector<int> perm((size_t)ncell * ndof);
  for (size_t i = 0; i < perm.size(); i++)
    perm[i] = (int)i;
  for (int c = 0; c < ncell; c++)
    for (int d = 0; d < ndof; d++)
      dm->set(c, d, c * ndof + d);

  auto create = [&](int w, const Op &o, int i) {
    Map &m = maps[w];
    if (m.q)
      m.q->free();
    m = Map();
    m.made = o;
    m.pts = points_of(o, r);
    m.q = std::make_shared<ext::QuadraturePointMapper>(target, S.F.domain);
    if (m.q->points_added())
      sim::violation("op %d: a point map without points reports points", i);
    m.q->add_points_initialise();
    for (auto &p : m.pts)
      m.q->add_point(p.data());
    m.q->add_points_finalise();
    if (!m.q->points_added())
      sim::violation("op %d: a finished point map reports no points", i);
    // every registered point is held exactly once, by the owner of its cell
    std::map<std::array<i64, 3>, int> want, got;
    for (int q = 0; q < nranks(); q++)
      for (auto &p : points_of(o, q))
        if (W.owner(W.cell_tuple(p.data())) == r)
          want[{bits(p[0]), bits(p[1]), nd > 2 ? bits(p[2]) : 0}]++;
    for (int c = 0; c < ncell; c++) {
      auto P = m.q->particle_group->get_cell(Sym<REAL>("P"), c);
      for (int l = 0; l < P->nrow; l++)
        got[{bits(P->at(l, 0)), nd > 1 ? bits(P->at(l, 1)) : 0, nd > 2 ? bits(P->at(l, 2)) : 0}]++;
    }
    if (want != got)
      sim::violation("op %d (%s): the points held by rank %d are not those whose cell it owns (%d places, expected %d)", i,
                     kn[CREATE], r, (int)got.size(), (int)want.size());
  };
  auto touch = [&](Map &m, int nc) {
    if (!m.have[nc]) {
      m.have[nc] = true;
      m.val[nc].assign(m.pts.size(), std::vector<double>((size_t)nc, unset()));
    }
  };
  for (int i = 0; i < (int)ops.size(); i++) {
    const Op &o = ops[i];
    if (!sim::op_enabled(i))
      continue;
    sim::op_begin(i, kn[o.k]);
    Map &m = maps[o.which];
    if (o.k < DMAP && o.k != CREATE && !m.q)
      create(o.which, ops[0], i);
    Rng g = rng(o.salt, (u64)r, 3);
    const int nc = o.nc;
    switch (o.k) {
    case CREATE:
      create(o.which, o, i);
      break;
    case WRITE: {
      touch(m, nc);
      const int sh = (int)(o.salt % 3), e0 = (int)(o.salt % 7), knd = nd, knc = nc;
      particle_loop(
          m.q->particle_group,
          [=](auto P, auto Q) {
            for (int c = 0; c < knc; c++)
              Q.at(c) = P.at((c + sh) % knd) * (double)(1 << (e0 + c));
          },
          Access::read(Sym<REAL>("P")), Access::write(m.q->get_sym(nc)))
          ->execute();
      for (size_t p = 0; p < m.pts.size(); p++)
        for (int c = 0; c < nc; c++)
          m.val[nc][p][c] = f_of(m.pts[p].data(), c, o.salt, nd);
      break;
    }
    case COMP: {
      touch(m, nc);
      const int c = (int)(o.salt / 11 % (u64)nc);
      const double k = (double)(1 + o.salt % 13 * 2);
      if (nd == 2)
        ext::interpolate<2>(m.q, nc, c, [=](const REAL, const REAL y) { return y * 4.0 * k / k; });
      else
        ext::interpolate<3>(m.q, nc, c, [=](const REAL, const REAL, const REAL z) { return z * 4.0 * k / k; });
      for (size_t p = 0; p < m.pts.size(); p++)
        m.val[nc][p][c] = m.pts[p][nd - 1] * 4.0 * k / k;
      break;
    }
    case FUNCS: {
      touch(m, 2);
      const double k = (double)(1 << (o.salt % 9));
      if (nd == 2)
        ext::interpolate<2, 2>(
            m.q, [=](const REAL x, const REAL) { return x * k; }, [=](const REAL, const REAL y) { return y * -2.0 * k; });
      else
        ext::interpolate<3, 2>(
            m.q, [=](const REAL x, const REAL, const REAL) { return x * k; },
            [=](const REAL, const REAL y, const REAL) { return y * -2.0 * k; });
      for (size_t p = 0; p < m.pts.size(); p++) {
        m.val[2][p][0] = m.pts[p][0] * k;
        m.val[2][p][1] = m.pts[p][1] * -2.0 * k;
      }
      break;
    }
    case SET: {
      touch(m, nc);
      std::vector<REAL> in(m.pts.size() * nc + (o.salt % 4 == 0 ? 3 : 0));
      for (auto &x : in)
        x = (double)g.range(-4096, 4096) / 16.0;
      m.q->set(nc, in);
      // values are set at the points this rank both registered and holds
      for (size_t p = 0; p < m.pts.size(); p++)
        if (W.owner(W.cell_tuple(m.pts[p].data())) == r)
          for (int c = 0; c < nc; c++)
            m.val[nc][p][c] = in[p * nc + c];
      break;
    }
    case GET: {
      touch(m, nc);
      break;
    }
    case DUMP: {
      std::string fn = "points" + std::to_string(i) + ".h5part";
      m.q->write_to_disk(fn);
      size_t total = 0;
      std::vector<std::array<i64, 3>> want;
      for (int q = 0; q < nranks(); q++)
        for (auto &p : points_of(m.made, q)) {
          total++;
          want.push_back({bits(p[0]), bits(p[1]), nd > 2 ? bits(p[2]) : 0});
        }
      ParticleSpec ps{ParticleProp(Sym<REAL>("P"), nd, true)};
      H5Part h(fn, target);
      auto ps_in = h.read(ps, 0, true);
      h.close();
      std::vector<std::array<i64, 3>> mine, got;
      for (int x = 0; x < (int)ps_in->npart; x++) {
        std::array<i64, 3> a{0, 0, 0};
        for (int d = 0; d < nd; d++)
          a[d] = bits((*ps_in)[Sym<REAL>("P")][x][d]);
        mine.push_back(a);
      }
      std::vector<std::vector<std::array<i64, 3>>> all;
      if (rv.deposit(i, r, mine, all)) {
        for (auto &v : all)
          got.insert(got.end(), v.begin(), v.end());
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        if (got != want)
          sim::violation("op %d (%s): the file holds %d points, %d were registered, or at other places", i, kn[o.k],
                         (int)got.size(), (int)total);
      }
      break;
    }
    case DMAP: {
      // a few entries or a completely new ordering
      bool all = o.salt % 2;
      int n = (int)perm.size();
      for (int s = 0; s < (all ? n : 3) && n > 1; s++) {
        int a = all ? s : (int)g.below(n), b = (int)g.below(n);
        std::swap(perm[a], perm[b]);
      }
      for (int x = 0; x < n; x++)
        if (dm->get(x / ndof, x % ndof) != perm[x])
          dm->set(x / ndof, x % ndof, perm[x]);
      for (int x = 0; x < n; x++)
        if (dm->get(x / ndof, x % ndof) != perm[x])
          sim::violation("op %d (%s): unknown %d of cell %d has external index %d, expected %d", i, kn[o.k], x % ndof,
                         x / ndof, dm->get(x / ndof, x % ndof), perm[x]);
      break;
    }
    case DDAT: {
      for (int c = 0; c < ncell; c++) {
        auto d = D->get_cell(c);
        for (int k = 0; k < ndof; k++)
          mD[(size_t)c * ndof + k] = d->at(k, 0) = (double)g.range(-9999, 9999) / 8.0;
        D->set_cell(c, d);
      }
      break;
    }
    case DTO: {
      std::vector<REAL> out(perm.size() + 4, -77.0);
      std::vector<REAL> out2(perm.size(), -1.0);
      EventStack es;
      dm->copy_to_external(D, out.data() + 2, es);
      if (o.salt % 3 == 0) // two copies before one wait
        dm->copy_to_external(E, out2.data(), es);
      es.wait();
      for (size_t x = 0; o.salt % 3 == 0 && x < perm.size(); x++)
        if (bits(out2[perm[x]]) != bits(-(double)x))
          sim::violation("op %d (%s): unknown %d of cell %d of a second copy in flight is %.17g at external index %d, expected %.17g",
                         i, kn[o.k], (int)x % ndof, (int)x / ndof, out2[perm[x]], perm[x], -(double)x);
      for (size_t x = 0; x < perm.size(); x++)
        if (bits(out[2 + perm[x]]) != bits(mD[x]))
          sim::violation("op %d (%s): unknown %d of cell %d is %.17g at external index %d, expected %.17g", i, kn[o.k],
                         (int)x % ndof, (int)x / ndof, out[2 + perm[x]], perm[x], mD[x]);
      if (out[0] != -77.0 || out[1] != -77.0 || out[out.size() - 1] != -77.0 || out[out.size() - 2] != -77.0)
        sim::violation("op %d (%s): memory beside the external vector was written", i, kn[o.k]);
      break;
    }
    case DFROM: {
      std::vector<REAL> in(perm.size());
      for (auto &x : in)
        x = (double)g.range(-9999, 9999) / 8.0;
      auto keep = in;
      std::vector<REAL> in2;
      EventStack es;
      if (o.salt % 3 == 0) {
        in2 = in;
        for (size_t x = 0; x < perm.size(); x++)
          in2[perm[x]] = -(double)x;
        dm->copy_from_external(E, in2.data(), es);
      }
      dm->copy_from_external(D, in.data(), es);
      es.wait();
      for (int c = 0; c < ncell; c++) {
        auto d = E->get_cell(c);
        for (int k = 0; k < ndof; k++)
          if (bits(d->at(k, 0)) != bits(-(double)(c * ndof + k)))
            sim::violation("op %d (%s): unknown %d of cell %d of a second copy in flight holds %.17g, expected %.17g", i,
                           kn[o.k], k, c, d->at(k, 0), -(double)(c * ndof + k));
      }
      for (size_t x = 0; x < perm.size(); x++)
        mD[x] = keep[perm[x]];
      if (in != keep)
        sim::violation("op %d (%s): the external vector was modified", i, kn[o.k]);
      break;
    }
    }
    // every component count ever used reads back the last values written
    for (int w = 0; w < 2; w++) {
      Map &x = maps[w];
      if (!x.q)
        continue;
      for (int k = 1; k <= NC; k++) {
        if (!x.have[k] || (o.k >= DMAP && (o.salt + (u64)k) % 3))
          continue;
        std::vector<REAL> out((size_t)((o.salt >> k) % 5), 1.5);
        if (o.salt % 2)
          out.assign(x.pts.size() * k, -9.0);
        x.q->get(k, out);
        if (out.size() != x.pts.size() * k)
          sim::violation("after op %d (%s): reading %d components at %d points gave %d values", i, kn[o.k], k,
                         (int)x.pts.size(), (int)out.size());
        for (size_t p = 0; p < x.pts.size(); p++)
          for (int c = 0; c < k; c++)
            if (bits(x.val[k][p][c]) != bits(unset()) && bits(out[p * k + c]) != bits(x.val[k][p][c]))
              sim::violation("after op %d (%s): rank %d point %d component %d of %d reads %.17g, expected %.17g", i,
                             kn[o.k], r, (int)p, c, k, out[p * k + c], x.val[k][p][c]);
      }
    }
    for (int c = 0; c < ncell; c++) {
      auto d = D->get_cell(c);
      for (int k = 0; k < ndof; k++)
        if (bits(d->at(k, 0)) != bits(mD[(size_t)c * ndof + k]))
          sim::violation("after op %d (%s): unknown %d of cell %d holds %.17g, expected %.17g", i, kn[o.k], k, c,
                         d->at(k, 0), mD[(size_t)c * ndof + k]);
    }
    u64 st = (u64)o.k * 16 + (u64)nc;
    for (int w = 0; w < 2; w++)
      if (maps[w].q)
        st = st * 1000003 + (u64)maps[w].q->particle_group->get_npart_local() * 97 + maps[w].pts.size();
    sim::state_hash(st);
    sim::counter(kn[o.k]);
  }
  for (auto &m : maps)
    if (m.q)
      m.q->free();
  maps[0] = maps[1] = Map();
  dm.reset();
  D.reset();
  E.reset();
  target.reset();
  S.free();
}
void finish() {}
const char *judge_abort(const char *) { return "the library stopped on a valid input"; }
} // namespace simwl
