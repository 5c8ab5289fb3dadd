// Boundary interactions and functions on the boundary of a Cartesian mesh: trajectory
// intersections, wall interactions, projection onto and evaluation from surface functions.
#include "store.hpp"
#include <neso_particles/algorithms/unseen_value_extractor.hpp>
#ifdef SIM_P17
#define P17 1
#else
#define P17 0
#endif
#ifdef SIM_P21
#define P21 1
#else
#define P21 0
#endif
namespace simwl {
using namespace wl;
const char *property_id = SIM_PROPERTY;
namespace {
MeshSpec ms;
enum Kind { ADD, STEP, PROJ, PINIT, PCON, PFIN, EVAL, FILL, SETD, BMI, UNSEEN, CLOSE, OK_N };
const char *kn[] = {"add particles",     "step with wall interaction", "project", "initialise projection", "contribute",
                    "finalise projection", "evaluate",                "fill",    "set coefficients",      "direct exchange",
                    "unseen values",     "move and close step"};
struct Op {
  int k, n, s;
  u64 salt;
};
std::vector<Op> ops;
std::map<int, std::vector<int>> groups;
std::vector<int> labels;
int nface() { return ms.ndim == 2 ? 4 : 6; }
// face geometry: dimension, high side, in-face dimensions
const int fdim[6] = {1, 0, 1, 0, 2, 2};
const int fhi[6] = {0, 1, 1, 0, 0, 1};
const int fin[6][2] = {{0, 2}, {1, 2}, {0, 2}, {1, 2}, {0, 1}, {0, 1}};
int fn0(int f) { return ms.fine(fin[f][0]); }
int fn1(int f) { return ms.ndim == 2 ? 1 : ms.fine(fin[f][1]); }
i64 foff(int f) {
  i64 o = 0;
  for (int k = 0; k < f; k++)
    o += (i64)fn0(k) * fn1(k);
  return o;
}
std::array<int, 3> face_cell(int f, int c0, int c1) {
  std::array<int, 3> c{0, 0, 0};
  c[fdim[f]] = fhi[f] ? ms.fine(fdim[f]) - 1 : 0;
  c[fin[f][0]] = c0;
  if (ms.ndim == 3)
    c[fin[f][1]] = c1;
  return c;
}
i64 nelem() { return foff(nface() - 1) + (i64)fn0(nface() - 1) * fn1(nface() - 1); }
int group_of_face(int f) {
  for (auto &g : groups)
    for (int x : g.second)
      if (x == f)
        return g.first;
  return INT32_MIN;
}
int face_of_elem(i64 e) {
  for (int f = nface() - 1; f >= 0; f--)
    if (e >= foff(f))
      return f;
  return -1;
}
struct Func {
  int group;
  bool open = false;              // a projection is under way
  std::map<i64, double> dofs, acc; // reference coefficients and pending sums
};
std::vector<Func> GF; // the reference, advanced by the last rank of each epoch
struct Obs {
  int kind = 0;
  std::map<i64, double> c;                     // this rank's contribution
  std::vector<i64> cells;                      // elements this rank owns
  std::vector<double> dofs;                    // its coefficients
  std::vector<std::array<i64, 3>> ev;          // id, element, value
  std::map<i64, std::vector<double>> src, got; // direct exchange
  std::vector<double> init;
  i64 version = 0;
  std::vector<int> owners;
};
Rendezvous<Obs> RV;
const int wt[OK_N] = {6, 0, 10, 6, 9, 6, 10, 3, 4, 6, 3, 14};
} // namespace
void choose_knobs() {}
void plan() {
  seed_plan();
  Rng r = rng(1);
  ms = random_mesh(rng(2), 64);
  if (r.pct(80)) {
    static const double ex[3] = {1.0, 0.5, 2.0};
    ms.extent = ex[r.below(3)];
  }
  world_reset(ms);
  groups.clear();
  labels.clear();
  static const int lab[5] = {1, -3, 7, 0, 200};
  int ng = (int)r.range(1, 3);
  for (int f = 0; f < nface(); f++) {
    int x = (int)r.below(ng + (r.pct(40) ? 1 : 0));
    if (x < ng)
      groups[lab[(x + (int)(g_seed % 5)) % 5]].push_back(f);
  }
  if (groups.empty())
    groups[1].push_back((int)r.below(nface()));
  for (auto &g : groups) {
    labels.push_back(g.first);
    if (r.pct(50))
      std::reverse(g.second.begin(), g.second.end());
  }
  GF.clear();
  int nf = (int)r.range(1, 4);
  for (int i = 0; i < nf; i++) {
    Func f;
    f.group = labels[(size_t)r.below((i64)labels.size())];
    for (int fc : groups[f.group])
      for (i64 e = 0; e < (i64)fn0(fc) * fn1(fc); e++)
        f.dofs[foff(fc) + e] = 0.0;
    GF.push_back(f);
  }
  ops.clear();
  ops.push_back({ADD, (int)r.range(4, 60), 0, r.next()});
  int tot = 0;
  for (int k = 0; k < OK_N; k++)
    tot += wt[k];
  int n = (int)r.range(8, 26);
  bool open = false;
  for (int i = 0; i < n; i++) {
    if (!open && r.pct(75)) {
      ops.push_back({STEP, 0, 0, r.next()});
      open = true;
      continue;
    }
    int x = (int)r.below(tot), k = 0;
    while (k < OK_N - 1 && x >= wt[k])
      x -= wt[k], k++;
    if (k == CLOSE)
      open = false;
    ops.push_back({k, (int)r.range(0, 20), (int)r.below(nf), r.next()});
  }
}
namespace {
struct Walker {
  double pp[3], p[3], v[3], tsp[2];
  i64 id;
  bool in_sub = true;
};
// may face f be where the walker left the box?
bool face_ok(const Walker &w, int f, double *pt) {
  const int d = fdim[f];
  const double L = ms.size(d), pl = fhi[f] ? L : 0.0;
  if (fhi[f] ? w.p[d] < L : w.p[d] > 0.0)
    return false;
  const double dx = w.p[d] - w.pp[d];
  if (dx == 0.0)
    return false;
  const double t = (pl - w.pp[d]) / dx;
  for (int k = 0; k < ms.ndim; k++) {
    pt[k] = k == d ? pl : w.pp[k] + t * (w.p[k] - w.pp[k]);
    if (pt[k] < -1e-9 * ms.size(k) || pt[k] > ms.size(k) * (1 + 1e-9))
      return false;
  }
  return true;
}
} // namespace
void rank_main(int) {
  const int nd = ms.ndim;
  Store S(ms, {{"V", nd, true},
               {"TSP", 2, true},
               {"Q", 2, true},
               {"D", nd, true},
               {"IC", 1, false},
               {"IM", 2, false},
               {"IP", nd, true},
               {"IN", nd, true},
               {"EV", 2, true},
               {"SEL", 1, false}});
  auto A = S.A;
  auto target = S.target;
  const int r = S.r, ncell = S.ncell;
  auto mesh = S.F.mesh;
  auto cti = std::make_shared<CartesianTrajectoryIntersection>(target, mesh, groups);
  cti->prepare_particle_group(A);
  const auto PPS = CartesianTrajectoryIntersection::previous_position_sym;
  int epoch = 0;
  std::vector<CartesianHMeshFunctionSharedPtr> fun;
  for (auto &f : GF)
    fun.push_back(cti->create_function(f.group, "DG", 0));
  std::vector<char> popen(GF.size(), 0); // every rank follows the same plan
  // ------------------------------------------- ownership of the elements ---
  {
    Obs o;
    for (int f = 0; f < nface(); f++)
      for (INT e : mesh->get_all_face_cells_on_face(f))
        o.cells.push_back(e);
    for (i64 e = 0; e < nelem(); e++)
      o.owners.push_back(mesh->get_face_id_owning_rank(e));
    std::vector<Obs> all;
    sim::CoreGuard cg;
    if (RV.deposit(epoch++, r, o, all) && P17) {
      std::vector<int> own((size_t)nelem(), -1);
      for (int q = 0; q < nranks(); q++) {
        for (i64 e : all[q].cells) {
          if (e < 0 || e >= nelem())
            sim::violation("rank %d owns boundary element %lld of %lld", q, (long long)e, (long long)nelem());
          if (own[e] >= 0)
            sim::violation("boundary element %lld is owned by ranks %d and %d", (long long)e, own[e], q);
          own[e] = q;
        }
        if (all[q].owners != all[0].owners)
          sim::violation("ranks %d and 0 disagree on who owns the boundary elements", q);
      }
      for (i64 e = 0; e < nelem(); e++) {
        int f = face_of_elem(e);
        i64 k = e - foff(f);
        int want = W.owner(face_cell(f, (int)(k % fn0(f)), (int)(k / fn0(f))));
        if (own[e] != all[0].owners[e] || own[e] != want)
          sim::violation("boundary element %lld (face %d): held by rank %d, reported owner %d, its cell is on rank %d",
                         (long long)e, f, own[e], all[0].owners[e], want);
      }
    }
  }
  auto bmi_label = labels[g_seed % labels.size()];
  std::vector<INT> bmi_owned;
  for (int f : groups[bmi_label])
    for (INT e : mesh->get_all_face_cells_on_face(f))
      bmi_owned.push_back(e);
  auto bmi = std::make_shared<BoundaryMeshInterface>(mesh->get_comm(), target, bmi_owned);
  std::set<i64> bmi_known;
  auto bmi_version = bmi->get_version_function_handle();
  UnseenValueExtractor uve(target);
  std::set<i64> uve_seen;

  std::map<int, ParticleSubGroupSharedPtr> cur; // groups of the open step
  std::map<i64, std::pair<int, i64>> hit;       // id -> group, element of the open step (as reported)
  std::map<i64, Walker> walk;
  std::map<i64, std::vector<double>> q_of; // id -> Q
  bool step_open = false;
  auto readA = [&]() { return read_group(A, S.spec, r, ncell); };
  const int oID = offset_of(S.spec, "ID"), oP = 0, oV = offset_of(S.spec, "V"), oT = offset_of(S.spec, "TSP"),
            oQ = offset_of(S.spec, "Q"), oIC = offset_of(S.spec, "IC"), oIM = offset_of(S.spec, "IM"),
            oIP = offset_of(S.spec, "IP"), oIN = offset_of(S.spec, "IN"), oEV = offset_of(S.spec, "EV"),
            oSEL = offset_of(S.spec, "SEL");
  auto close_step = [&](u64 salt, int i) {
    // what happens at the walls
    std::map<int, int> act;
    const double reset = salt % 3 == 0 ? 1e-10 : salt % 3 == 1 ? 1e-3 * ms.width() : 1e-7;
    std::set<i64> removed;
    bool any_removed = false;
    int gi = 0;
    auto before = readA();
    for (auto &g : cur) {
      int a = (int)((salt >> (8 + 3 * gi)) % 4);
      gi++;
      if (a == 3 && any_removed)
        a = 2; // a removal invalidates the other sub groups
      act[g.first] = a;
    }
    for (auto &g : cur)
      if (act[g.first] == 0)
        BoundaryReflection(nd, reset).execute(g.second, Sym<REAL>("P"), Sym<REAL>("V"), Sym<REAL>("TSP"), PPS);
      else if (act[g.first] == 1)
        BoundaryTruncation(nd, reset).execute(g.second, Sym<REAL>("P"), Sym<REAL>("TSP"), PPS);
    auto after = readA();
    if (P21) {
      sim::CoreGuard cg;
      for (size_t k = 0; k < after.size(); k++) {
        auto &b = before[k], &a = after[k];
        i64 id = b.v[oID];
        auto h = hit.find(id);
        int what = h == hit.end() ? 2 : act[h->second.first];
        for (size_t c = 0; c < b.v.size(); c++) {
          bool isP = (int)c >= oP && (int)c < oP + nd, isV = (int)c >= oV && (int)c < oV + nd,
               isT = (int)c >= oT && (int)c < oT + 2;
          if (what <= 1 && (isP || isT || (isV && what == 0)))
            continue;
          if (a.v[c] != b.v[c])
            sim::violation("op %d: a wall interaction changed value %zu of particle %lld, which it does not apply to", i,
                           c, (long long)id);
        }
        if (what > 1)
          continue;
        double pp[3], ip[3], n[3], p0[3], p1[3], dist = 0, full = 0, vn = 0, off = 0, along = 0;
        for (int d = 0; d < nd; d++) {
          pp[d] = walk.at(id).pp[d];
          ip[d] = dbl(b.v[oIP + d]);
          n[d] = dbl(b.v[oIN + d]);
          p0[d] = dbl(b.v[oP + d]);
          p1[d] = dbl(a.v[oP + d]);
          dist += (pp[d] - ip[d]) * (pp[d] - ip[d]);
          full += (p0[d] - pp[d]) * (p0[d] - pp[d]);
          vn += dbl(b.v[oV + d]) * n[d];
        }
        dist = std::sqrt(dist);
        full = std::sqrt(full);
        for (int d = 0; d < nd; d++) {
          double u = dist > 0 ? (pp[d] - ip[d]) / dist : 0;
          along += (p1[d] - ip[d]) * u;
        }
        for (int d = 0; d < nd; d++) {
          double u = dist > 0 ? (pp[d] - ip[d]) / dist : 0;
          off = std::max(off, std::fabs(p1[d] - ip[d] - along * u));
          if (p1[d] < 0.0 || p1[d] > ms.size(d))
            sim::violation("op %d: particle %lld is outside the domain after the wall interaction (component %d is %.17g)",
                           i, (long long)id, d, p1[d]);
        }
        const double want = std::min(reset, dist), tol = 1e-13 * 16;
        if (off > tol || std::fabs(along - want) > tol)
          sim::violation("op %d: particle %lld was put %.3g from the wall along its path (%.3g off it), expected %.3g", i,
                         (long long)id, along, off, want);
        if (what == 0)
          for (int d = 0; d < nd; d++)
            if (dbl(a.v[oV + d]) != dbl(b.v[oV + d]) - 2.0 * vn * n[d])
              sim::violation("op %d: velocity component %d of particle %lld is %.17g after reflection, expected %.17g", i,
                             d, (long long)id, dbl(a.v[oV + d]), dbl(b.v[oV + d]) - 2.0 * vn * n[d]);
        double prop = full > 1e-16 ? std::min(1.0, dist / full) : 1.0, t0 = dbl(b.v[oT]), t1 = dbl(b.v[oT + 1]);
        if (std::fabs(dbl(a.v[oT + 1]) - t1 * prop) > 1e-12 * (1 + std::fabs(t1)) ||
            std::fabs(dbl(a.v[oT]) - (t0 - t1 + t1 * prop)) > 1e-12 * (1 + std::fabs(t0) + std::fabs(t1)))
          sim::violation("op %d: particle %lld has step proportions %.17g,%.17g after the wall interaction, expected %.17g,%.17g",
                         i, (long long)id, dbl(a.v[oT]), dbl(a.v[oT + 1]), t0 - t1 + t1 * prop, t1 * prop);
      }
    }
    for (auto &g : cur)
      if (act[g.first] == 3) {
        A->remove_particles(g.second);
        any_removed = true;
        for (auto &h : hit)
          if (h.second.first == g.first)
            removed.insert(h.first);
        break;
      }
    cur.clear();
    // whatever is still outside re-enters on the other side
    auto b4 = readA();
    if (P21) {
      sim::CoreGuard cg;
      std::set<i64> have;
      for (auto &p : b4)
        have.insert(p.v[oID]);
      for (auto &p : after)
        if (have.count(p.v[oID]) == removed.count(p.v[oID]))
          sim::violation("op %d: particle %lld is %s after removing the particles of a wall", i, (long long)p.v[oID],
                         removed.count(p.v[oID]) ? "still there" : "gone");
    }
    std::vector<int> mask(nd, 1);
    bool masked = (salt >> 20) % 3 == 0;
    if (masked)
      for (int d = 0; d < nd; d++)
        mask[d] = (int)((salt >> (24 + d)) & 1);
    for (int round = 0; round < (masked ? 2 : 1); round++) {
      if (masked && round == 0)
        CartesianPeriodic(mesh, A, mask).execute();
      else {
        CartesianPeriodic(mesh, A).execute();
        mask.assign(nd, 1);
      }
      auto af = readA();
      if (P21) {
        sim::CoreGuard cg;
        for (size_t k = 0; k < af.size(); k++)
          for (int d = 0; d < nd; d++) {
            double x = dbl(b4[k].v[oP + d]), y = dbl(af[k].v[oP + d]), L = ms.size(d);
            if (!mask[d]) {
              if (b4[k].v[oP + d] != af[k].v[oP + d])
                sim::violation("op %d: component %d of particle %lld changed although that direction is not periodic", i, d,
                               (long long)af[k].v[oID]);
              continue;
            }
            double m = (x - y) / L;
            if (!(y >= 0.0 && y < L) || std::fabs(m - std::nearbyint(m)) > 1e-9)
              sim::violation("op %d: periodic image of %.17g is %.17g in a domain of length %.17g", i, x, y, L);
          }
      }
      b4 = af;
    }
    A->hybrid_move();
    A->cell_move();
    step_open = false;
    hit.clear();
    walk.clear();
  };
  auto check_dofs = [&](Obs &me, int f) {
    me.cells.assign(fun[f]->cells.begin(), fun[f]->cells.end());
    me.dofs = fun[f]->get_dofs();
  };
  // the last rank compares every rank's coefficients with the reference
  auto judge_dofs = [&](std::vector<Obs> &all, int f, int i) {
    if (!P17)
      return;
    std::map<i64, double> got;
    double scale = 1.0;
    for (auto &kv : GF[f].dofs)
      scale = std::max(scale, std::fabs(kv.second));
    for (int q = 0; q < nranks(); q++)
      for (size_t k = 0; k < all[q].cells.size(); k++) {
        if (k >= all[q].dofs.size())
          sim::violation("op %d: rank %d has %zu coefficients for %zu elements", i, q, all[q].dofs.size(),
                         all[q].cells.size());
        i64 e = all[q].cells[k];
        if (got.count(e) || !GF[f].dofs.count(e))
          sim::violation("op %d: element %lld of function %d is %s", i, (long long)e, f,
                         got.count(e) ? "held twice" : "not part of its boundary group");
        got[e] = all[q].dofs[k];
        double w = GF[f].dofs[e];
        if (W.exact() ? all[q].dofs[k] != w : !(std::fabs(all[q].dofs[k] - w) <= 1e-9 * scale))
          sim::violation("op %d (%s): coefficient of element %lld (rank %d) of function %d is %.17g, expected %.17g", i,
                         kn[ops[i].k], (long long)e, q, f, all[q].dofs[k], w);
      }
    if (got.size() != GF[f].dofs.size())
      sim::violation("op %d: function %d has coefficients for %zu of %zu elements", i, f, got.size(), GF[f].dofs.size());
  };
  for (int i = 0; i < (int)ops.size(); i++) {
    const Op &o = ops[i];
    if (!sim::op_enabled(i))
      continue;
    sim::op_begin(i, kn[o.k]);
    Rng g = rng(o.salt, (u64)r, 3);
    const int f = o.s;
    switch (o.k) {
    case ADD: {
      if (step_open)
        break; // would invalidate the sub groups of the step
      S.add((int)g.range(0, o.n), o.salt);
      S.M.parts.clear();
      break;
    }
    case CLOSE:
      if (step_open)
        close_step(o.salt, i);
      break;
    case STEP: {
      if (step_open)
        close_step(o.salt ^ 0x5555, i);
      auto s0 = readA();
      const bool use_sub = o.salt % 3 == 0;
      ParticleSubGroupSharedPtr sub;
      const int m = 2 + (int)(o.salt / 3 % 2);
      if (use_sub)
        sub = particle_sub_group(A, [=](auto X) { return X.at(0) % m == 0; }, Access::read(Sym<INT>("SEL")));
      walk.clear();
      const int outp = (int)(o.salt / 16 % 5) * 20;
      size_t k0 = 0;
      for (int c = 0; c < ncell; c++) {
        auto D = A->get_cell(Sym<REAL>("D"), c);
        for (int l = 0; l < D->nrow; l++, k0++) {
          auto &p = s0[k0];
          Walker w;
          w.id = p.v[oID];
          w.in_sub = !use_sub || p.v[oSEL] % m == 0;
          Rng h = rng(o.salt, (u64)w.id, 77);
          for (int d = 0; d < nd; d++)
            w.pp[d] = w.p[d] = dbl(p.v[oP + d]);
          const bool out = h.pct(outp);
          const int only = h.pct(20) ? (int)h.below(nd) : -1;
          for (int d = 0; d < nd; d++) {
            if (only >= 0 && d != only)
              continue;
            const double L = ms.size(d);
            double x = w.pp[d] + (h.unit() * 2 - 1) * (out ? (h.pct(30) ? 2.2 : 0.6) * L : 0.3 * ms.width());
            if (out && h.pct(6))
              x = h.pct(50) ? 0.0 : L; // exactly onto the wall
            if (!out) {
              x = std::max(1e-3 * ms.width(), std::min(L - 1e-3 * ms.width(), x));
            }
            w.p[d] = x;
          }
          for (int d = 0; d < nd; d++) // a path inside a wall has no intersection with it
            if (w.pp[d] <= 0.0 || w.pp[d] >= ms.size(d))
              w.p[d] = w.pp[d] <= 0.0 ? 0.3 * ms.width() : ms.size(d) - 0.3 * ms.width();
          for (int d = 0; d < nd; d++)
            D->at(l, d) = w.p[d];
          walk[w.id] = w;
          q_of[w.id] = {dbl(p.v[oQ]), dbl(p.v[oQ + 1])};
        }
        A->get_dat(Sym<REAL>("D"))->cell_dat.set_cell(c, D);
      }
      if (use_sub)
        cti->pre_integration(sub);
      else
        cti->pre_integration(A);
      const double t0 = (double)(o.salt % 7) / 8.0, t1 = (double)(o.salt % 5 + 1) / 8.0;
      particle_loop(
          A,
          [=](auto P, auto D, auto T, auto C, auto M, auto E) {
            for (int d = 0; d < nd; d++)
              P.at(d) = D.at(d);
            T.at(0) = t0 + t1;
            T.at(1) = t1;
            C.at(0) = 0;
            M.at(0) = -1;
            M.at(1) = -1;
            E.at(0) = 12345.0;
            E.at(1) = 12345.0;
          },
          Access::write(Sym<REAL>("P")), Access::read(Sym<REAL>("D")), Access::write(Sym<REAL>("TSP")),
          Access::write(Sym<INT>("IC")), Access::write(Sym<INT>("IM")), Access::write(Sym<REAL>("EV")))
          ->execute();
      cur = use_sub ? cti->post_integration(sub) : cti->post_integration(A);
      step_open = true;
      for (auto &gp : cur)
        particle_loop(
            gp.second,
            [=](auto C, auto M, auto IP, auto IN, auto EP, auto EN, auto EM) {
              C.at(0) += 1;
              M.at(0) = EM.at_ephemeral(0);
              M.at(1) = EM.at_ephemeral(1);
              for (int d = 0; d < nd; d++) {
                IP.at(d) = EP.at_ephemeral(d);
                IN.at(d) = EN.at_ephemeral(d);
              }
            },
            Access::write(Sym<INT>("IC")), Access::write(Sym<INT>("IM")), Access::write(Sym<REAL>("IP")),
            Access::write(Sym<REAL>("IN")), Access::read(BoundaryInteractionSpecification::intersection_point),
            Access::read(BoundaryInteractionSpecification::intersection_normal),
            Access::read(BoundaryInteractionSpecification::intersection_metadata))
            ->execute();
      auto s1 = readA();
      hash_snap(s1);
      hit.clear();
      for (auto &p : s1)
        if (p.v[oIC])
          hit[p.v[oID]] = {(int)p.v[oIM], p.v[oIM + 1]};
      if (P21) {
        sim::CoreGuard cg;
        for (auto &gr : groups)
          if (!cur.count(gr.first))
            sim::violation("op %d: no particle collection was returned for boundary group %d", i, gr.first);
        for (auto &p : s1) {
          i64 id = p.v[oID];
          const Walker &w = walk.at(id);
          double pt[3];
          std::vector<int> faces;
          if (w.in_sub)
            for (int fc = 0; fc < nface(); fc++)
              if (face_ok(w, fc, pt))
                faces.push_back(fc);
          i64 cnt = p.v[oIC];
          if (cnt > 1)
            sim::violation("op %d: particle %lld was reported %lld times by the boundary", i, (long long)id, (long long)cnt);
          std::set<int> ok;
          for (int fc : faces)
            ok.insert(group_of_face(fc));
          if (cnt == 0 && !ok.empty() && !ok.count(INT32_MIN))
            sim::violation("op %d: particle %lld left through face %d of group %d but was not reported", i, (long long)id,
                           faces[0], *ok.begin());
          if (cnt == 0)
            continue;
          if (faces.empty())
            sim::violation("op %d: particle %lld did not leave the domain but was reported for group %lld", i,
                           (long long)id, (long long)p.v[oIM]);
          // which of the possible faces was it?
          bool good = false;
          std::string why;
          for (int fc : faces) {
            face_ok(w, fc, pt);
            if (group_of_face(fc) != (int)p.v[oIM]) {
              why = "group";
              continue;
            }
            bool b = true;
            for (int d = 0; d < nd; d++)
              b = b && std::fabs(dbl(p.v[oIP + d]) - pt[d]) <= 1e-9 * ms.size(d) &&
                  dbl(p.v[oIN + d]) == (d == fdim[fc] ? (fhi[fc] ? -1.0 : 1.0) : 0.0);
            if (!b) {
              why = "point or normal";
              continue;
            }
            i64 e = p.v[oIM + 1] - foff(fc);
            b = e >= 0 && e < (i64)fn0(fc) * fn1(fc);
            i64 c[2] = {b ? e % fn0(fc) : 0, b ? e / fn0(fc) : 0};
            for (int k = 0; k < nd - 1 && b; k++) {
              double x = pt[fin[fc][k]], wd = ms.width(), tol = 1e-9 * ms.size(fin[fc][k]);
              b = x >= c[k] * wd - tol && x <= (c[k] + 1) * wd + tol;
            }
            if (!b) {
              why = "element";
              continue;
            }
            good = true;
          }
          if (!good)
            sim::violation("op %d: particle %lld left at (%.6g,%.6g,%.6g) but was reported with a wrong %s: group %lld element %lld point (%.6g,%.6g)",
                           i, (long long)id, pt[0], pt[1], nd == 3 ? pt[2] : 0.0, why.c_str(), (long long)p.v[oIM],
                           (long long)p.v[oIM + 1], dbl(p.v[oIP]), dbl(p.v[oIP + 1]));
        }
      }
      sim::counter("wall hits", (long)hit.size());
      break;
    }
    case PROJ:
    case PCON: {
      if (!step_open || (o.k == PCON && !popen[f]) || (o.k == PROJ && popen[f]))
        break;
      const int G = GF[f].group;
      ParticleSubGroupSharedPtr sg = cur.at(G);
      const bool mine = !(nranks() > 1 && g.pct(15));
      const int src = (int)(o.salt % 4), comp = (int)(o.salt / 4 % 2);
      Obs me;
      const double inv = 1.0 / ms.width();
      Sym<REAL> sym("Q");
      bool eph = false;
      if (src == 2) {
        // a scratch property of the sub group as the source
        if (!sg->contains_ephemeral_dat(Sym<REAL>("EW")))
          sg->add_ephemeral_dat(Sym<REAL>("EW"), 2);
        particle_loop(
            sg,
            [=](auto E, auto Q) {
              E.at_ephemeral(0) = Q.at(0) * 2.0;
              E.at_ephemeral(1) = Q.at(1) * 2.0;
            },
            Access::write(Sym<REAL>("EW")), Access::read(Sym<REAL>("Q")))
            ->execute();
        sym = Sym<REAL>("EW");
        eph = true;
      } else if (src == 3) {
        sym = BoundaryInteractionSpecification::intersection_normal;
        eph = true;
      }
      if (mine)
        for (auto &h : hit)
          if (h.second.first == G) {
            double v = src == 3 ? (fdim[face_of_elem(h.second.second)] == comp
                                       ? (fhi[face_of_elem(h.second.second)] ? -1.0 : 1.0)
                                       : 0.0)
                                : q_of[h.first][comp] * (src == 2 ? 2.0 : 1.0);
            me.c[h.second.second] += inv * v;
          }
      ParticleSubGroupSharedPtr arg = mine ? sg : nullptr;
      if (o.k == PROJ) {
        cti->function_project(arg, sym, comp, eph, fun[f]);
        check_dofs(me, f);
      } else
        cti->function_project_contribute(arg, sym, comp, eph, fun[f]);
      std::vector<Obs> all;
      sim::CoreGuard cg;
      if (RV.deposit(epoch++, r, me, all)) {
        if (o.k == PROJ)
          for (auto &kv : GF[f].dofs)
            kv.second = 0.0;
        auto &dst = o.k == PROJ ? GF[f].dofs : GF[f].acc;
        for (auto &q : all)
          for (auto &kv : q.c) {
            if (P17 && !GF[f].dofs.count(kv.first))
              sim::violation("op %d: element %lld reported for group %d is not part of it", i, (long long)kv.first, G);
            dst[kv.first] += kv.second;
          }
        if (o.k == PROJ)
          judge_dofs(all, f, i);
      }
      break;
    }
    case PINIT: {
      if (popen[f])
        break;
      cti->function_project_initialise(fun[f]);
      popen[f] = 1;
      sim::CoreGuard cg;
      std::vector<Obs> all;
      if (RV.deposit(epoch++, r, {}, all)) {
        GF[f].acc.clear();
        for (auto &kv : GF[f].dofs)
          kv.second = 0.0;
      }
      break;
    }
    case PFIN: {
      if (!popen[f])
        break;
      cti->function_project_finalise(fun[f]);
      popen[f] = 0;
      Obs me;
      check_dofs(me, f);
      std::vector<Obs> all;
      sim::CoreGuard cg;
      if (RV.deposit(epoch++, r, me, all)) {
        for (auto &kv : GF[f].acc)
          GF[f].dofs[kv.first] += kv.second;
        GF[f].acc.clear();
        judge_dofs(all, f, i);
      }
      break;
    }
    case EVAL: {
      if (!step_open || popen[f])
        break;
      const int G = GF[f].group;
      ParticleSubGroupSharedPtr sg = cur.at(G);
      const bool mine = !(nranks() > 1 && g.pct(15));
      const int comp = (int)(o.salt / 4 % 2);
      const bool eph = o.salt % 3 == 0;
      if (eph && mine) {
        if (!sg->contains_ephemeral_dat(Sym<REAL>("EX")))
          sg->add_ephemeral_dat(Sym<REAL>("EX"), 2);
      }
      ParticleSubGroupSharedPtr arg = mine ? sg : nullptr;
      cti->function_evaluate(arg, Sym<REAL>(eph ? "EX" : "EV"), comp, eph, fun[f]);
      if (eph && mine)
        particle_loop(
            sg, [=](auto V, auto E) { V.at(comp) = E.at_ephemeral(comp); }, Access::write(Sym<REAL>("EV")),
            Access::read(Sym<REAL>("EX")))
            ->execute();
      Obs me;
      auto s1 = readA();
      hash_snap(s1);
      for (auto &p : s1) {
        auto h = hit.find(p.v[oID]);
        if (mine && h != hit.end() && h->second.first == G)
          me.ev.push_back({p.v[oID], h->second.second, p.v[oEV + comp]});
      }
      std::vector<Obs> all;
      sim::CoreGuard cg;
      if (RV.deposit(epoch++, r, me, all) && P17)
        for (int q = 0; q < nranks(); q++)
          for (auto &e : all[q].ev) {
            double w = GF[f].dofs.at(e[1]), v = dbl(e[2]);
            if (W.exact() ? v != w : !(std::fabs(v - w) <= 1e-9 * std::max(1.0, std::fabs(w))))
              sim::violation("op %d: particle %lld on rank %d evaluated function %d on element %lld as %.17g, expected %.17g",
                             i, (long long)e[0], q, f, (long long)e[1], v, w);
          }
      break;
    }
    case FILL:
    case SETD: {
      if (popen[f])
        break;
      auto val = [&](i64 e) {
        return o.k == FILL ? (double)(o.salt % 64) / 4.0 : (double)(rng(o.salt, (u64)e).below(4096)) / 8.0;
      };
      if (o.k == FILL)
        fun[f]->fill(val(0));
      else {
        std::vector<REAL> d;
        for (auto e : fun[f]->cells)
          d.push_back(val(e));
        fun[f]->set_dofs(d);
      }
      Obs me;
      check_dofs(me, f);
      std::vector<Obs> all;
      sim::CoreGuard cg;
      if (RV.deposit(epoch++, r, me, all)) {
        for (auto &kv : GF[f].dofs)
          kv.second = val(kv.first);
        judge_dofs(all, f, i);
      }
      break;
    }
    case BMI: {
      // each rank announces some elements, then values flow to the owners and back
      std::vector<i64> elems;
      for (int fc : groups[bmi_label])
        for (i64 e = 0; e < (i64)fn0(fc) * fn1(fc); e++)
          elems.push_back(foff(fc) + e);
      std::vector<std::pair<int, INT>> ext;
      int k = g.pct(30) ? 0 : (int)g.range(1, 8);
      bool fresh = false;
      for (int j = 0; j < k; j++) {
        i64 e = g.pick(elems);
        ext.push_back({mesh->get_face_id_owning_rank(e), e});
        fresh = fresh || !bmi_known.count(e);
        bmi_known.insert(e);
      }
      const i64 v0 = bmi_version();
      bmi->extend_exchange_pattern(ext);
      const int nc = (int)(o.salt % 3) + 1;
      const i64 ng = bmi->get_num_intersection_geoms();
      if (P17 && (ng != (i64)bmi_known.size()))
        sim::violation("op %d: the interface reports %lld announced elements, expected %zu", i, (long long)ng,
                       bmi_known.size());
      Obs me;
      me.kind = fresh;
      me.version = bmi_version() - v0;
      std::vector<double> src((size_t)std::max<i64>(ng * nc, 1), 0.0);
      for (i64 q = 0; q < ng; q++) {
        i64 e = bmi->get_geom_id_from_seq_index(q);
        if (P17 && (!bmi_known.count(e) || bmi->get_seq_index_from_geom_id(e) != q))
          sim::violation("op %d: index %lld of the interface maps to element %lld and back to %lld", i, (long long)q,
                         (long long)e, (long long)bmi->get_seq_index_from_geom_id(e));
        for (int c = 0; c < nc; c++)
          me.src[e].push_back(src[q * nc + c] = (double)g.range(-64, 64));
      }
      std::vector<double> dst(std::max<size_t>(bmi_owned.size() * nc, 1));
      for (auto &x : dst)
        x = (double)g.range(-8, 8);
      me.init = dst;
      me.cells.assign(bmi_owned.begin(), bmi_owned.end());
      const bool rev = o.salt / 3 % 2;
      if (!rev) {
        BufferDevice<REAL> ds(target, src), dd(target, dst);
        bmi->exchange_from_device(ds.ptr, nc, dd.ptr);
        me.dofs = dd.get();
      } else {
        BufferDevice<REAL> ds(target, dst), dd(target, src);
        bmi->reverse_exchange_from_device(ds.ptr, nc, dd.ptr);
        auto got = dd.get();
        for (i64 q = 0; q < ng; q++)
          for (int c = 0; c < nc; c++)
            me.got[bmi->get_geom_id_from_seq_index(q)].push_back(got[q * nc + c]);
      }
      std::vector<Obs> all;
      sim::CoreGuard cg;
      if (RV.deposit(epoch++, r, me, all) && P17) {
        bool anyf = false;
        for (auto &q : all)
          anyf = anyf || q.kind;
        std::map<i64, std::vector<double>> want;
        for (auto &q : all)
          for (size_t j = 0; j < q.cells.size(); j++)
            want[q.cells[j]] = std::vector<double>(q.init.begin() + (long)(j * nc), q.init.begin() + (long)(j * nc + nc));
        if (!rev)
          for (auto &q : all)
            for (auto &kv : q.src)
              for (int c = 0; c < nc; c++)
                want.at(kv.first)[c] += kv.second[c];
        for (int qr = 0; qr < nranks(); qr++) {
          auto &q = all[qr];
          if (anyf ? q.version <= 0 : q.version != 0)
            sim::violation("op %d: the version of the interface on rank %d moved by %lld although the pattern %s", i, qr,
                           (long long)q.version, anyf ? "grew" : "did not grow");
          if (!rev)
            for (size_t j = 0; j < q.cells.size(); j++)
              for (int c = 0; c < nc; c++)
                if (q.dofs[j * nc + c] != want[q.cells[j]][c])
                  sim::violation("op %d: owner of element %lld (rank %d) received %g in component %d, expected %g", i,
                                 (long long)q.cells[j], qr, q.dofs[j * nc + c], c, want[q.cells[j]][c]);
          if (rev)
            for (auto &kv : q.got)
              for (int c = 0; c < nc; c++)
                if (kv.second[c] != want.at(kv.first)[c])
                  sim::violation("op %d: rank %d received %g for component %d of element %lld, its owner holds %g", i, qr,
                                 kv.second[c], c, (long long)kv.first, want.at(kv.first)[c]);
        }
      }
      break;
    }
    case UNSEEN: {
      auto s1 = readA();
      std::set<i64> want;
      const int m = 2 + (int)(o.salt % 3);
      const bool sub = o.salt / 8 % 2;
      for (auto &p : s1)
        if (!sub || p.v[oSEL] % m == 0) {
          i64 x = p.v[oSEL];
          if (!uve_seen.count(x))
            want.insert(x);
        }
      std::set<INT> got;
      if (sub)
        got = uve.extract(particle_sub_group(A, [=](auto X) { return X.at(0) % m == 0; }, Access::read(Sym<INT>("SEL"))),
                          Sym<INT>("SEL"), 0, false);
      else
        got = uve.extract(A, Sym<INT>("SEL"), 0, false);
      if (P17 && std::set<i64>(got.begin(), got.end()) != want)
        sim::violation("op %d: %zu values were reported as not seen before, expected %zu", i, got.size(), want.size());
      uve_seen.insert(want.begin(), want.end());
      break;
    }
    }
    sim::state_hash((u64)o.k * 1000003 + hit.size() * 31 + (step_open ? 7 : 0) + popen[f]);
  }
  cur.clear();
  fun.clear();
  bmi->free();
  cti->free();
  cti.reset();
  bmi.reset();
  A.reset();
  target.reset();
  mesh.reset();
  S.free();
}
void finish() {}
const char *judge_abort(const char *) { return "the library stopped on a valid input"; }
} // namespace simwl
