// P01, P04: conservation, ownership and payload of particles under particle transfer.
#include "wl.hpp"
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
enum OpK { ADD, ADVECT, HYBRID, HYBRID_CELL, GLOBAL_DIRECT, LOCAL_DIRECT, REMOVE, ADDDAT, REMDAT, PINIT, OK_N };
struct Op {
  int k;
  int n;
  u64 salt;
};
static MeshSpec ms;
static std::vector<Op> ops;
static std::vector<DatSpec> base_spec;
struct Obs {
  Snap snap;
  i64 npart_local = 0;
  std::vector<int> neighbours;
};
static Rendezvous<Obs> rv;
// reference model
struct MP {
  int rank;
  std::map<std::string, std::vector<i64>> f;
};
static std::map<i64, MP> model;
static std::map<std::string, std::pair<int, bool>> extra; // name -> ncomp, real

void choose_knobs() {
  choose_big(sim::K.nranks > 4 ? 0 : 2);
  if (sim::K.nranks == 1 && sim::chance(sim::S_CFG, 70))
    sim::K.nranks = 2;
  if (sim::chance(sim::S_CFG, 3))
    sim::K.nranks = 7 + (i64)sim::rnd_below(sim::S_CFG, 6);
}
static int pcomp = 2;
void plan() {
  seed_plan();
  Rng r = rng(1);
  ms = random_mesh(rng(2), 64);
  if (ms.stencil == 0 && r.pct(50))
    ms.stencil = 1;
  world_reset(ms);
  pcomp = r.pct(15) ? 3 : ms.ndim; // positions may have more components than the mesh has dimensions
  base_spec = {{"P", pcomp, true}, {"V", 3, true}, {"W", 1, true}, {"CELL_ID", 1, false},
               {"ID", 1, false},     {"T", 2, false}};
  int n = (int)r.range(3, 9);
  ops.clear();
  ops.push_back({ADD, first_add(r, 40), r.next()});
  for (int i = 0; i < n; i++) {
#if defined(SIM_P04)
    static const int w[OK_N] = {30, 8, 4, 6, 4, 0, 6, 3, 2, 37};
    int x = (int)r.below(100), k = 0;
#else
    static const int w[OK_N] = {12, 18, 14, 24, 12, 8, 8, 3, 2, 0};
    int x = (int)r.below(101), k = 0;
#endif
    while (k < OK_N - 1 && x >= w[k])
      x -= w[k], k++;
    ops.push_back({k, (int)r.range(0, 30), r.next()});
    if (k == ADVECT)
      ops.push_back({HYBRID_CELL, 0, r.next()});
  }
#if defined(SIM_P04)
  ops.push_back({PINIT, (int)r.below(30), r.next()});
#endif
  ops.push_back({HYBRID_CELL, 0, r.next()});
}
static std::string dname(int n, u64 salt) { return "X" + std::to_string(salt % 3) + (n % 2 ? "r" : "i"); }
static double wrap(double x, double L) {
  x = x - std::floor(x / L) * L;
  return (x >= 0.0 && x < L) ? x : 0.0;
}
static void new_particle(const Op &o, int opi, int r, int i, MP &m, i64 &id) {
  Rng g = rng(o.salt, r + 1, i + 1);
  id = (i64)opi * 1000000 + r * 10000 + i;
  double p[3];
  random_pos(g, ms, p);
  m.rank = r;
  auto &P = m.f["P"];
  for (int d = 0; d < ms.ndim; d++)
    P.push_back(bits(p[d]));
  for (int d = ms.ndim; d < pcomp; d++)
    P.push_back(bits(g.unit() * 50 - 25));
  for (int d = 0; d < 3; d++) {
    double sc = (o.n & 1) ? ms.width() : ms.size(d < ms.ndim ? d : 0);
    m.f["V"].push_back(bits((g.unit() * 2 - 1) * sc));
  }
  m.f["W"] = {bits(g.unit() - 0.5)};
  m.f["ID"] = {id};
  m.f["T"] = {(i64)g.next(), (i64)g.next()};
}
static int count_for(const Op &o, int r) {
  Rng g = rng(o.salt, 77, r);
  if (g.pct(25))
    return 0; // some ranks add nothing
  return (int)g.range(0, o.n);
}
static int direct_target(const Op &o, i64 id) {
  Rng g = rng(o.salt, (u64)id, 5);
  if (o.n % 5 == 0)
    return (int)(o.salt % (u64)nranks()); // everything to one rank
  return g.pct(20) ? -1 : (int)g.below(nranks());
}

// apply op i to the reference model, given what the mesh neighbours were
static std::vector<std::vector<int>> neigh;
static void model_apply(int i) {
  const Op &o = ops[i];
  if (!sim::op_enabled(i))
    return;
  switch (o.k) {
  case ADD:
    for (int r = 0; r < nranks(); r++)
      for (int j = 0, n = count_for(o, r); j < n; j++) {
        MP m;
        i64 id;
        new_particle(o, i, r, j, m, id);
        for (auto &e : extra)
          m.f[e.first] = std::vector<i64>((size_t)e.second.first, 0);
        model[id] = m;
      }
    break;
  case ADVECT:
    for (auto &kv : model) {
      auto &P = kv.second.f["P"];
      auto &V = kv.second.f["V"];
      for (int d = 0; d < ms.ndim; d++)
        P[d] = bits(wrap(dbl(P[d]) + dbl(V[d]), ms.size(d)));
    }
    break;
  case HYBRID:
  case HYBRID_CELL:
  case PINIT:
    for (auto &kv : model) {
      double p[3] = {0, 0, 0};
      for (int d = 0; d < ms.ndim; d++)
        p[d] = dbl(kv.second.f["P"][d]);
      kv.second.rank = W.owner(W.cell_tuple(p));
    }
    break;
  case GLOBAL_DIRECT:
    for (auto &kv : model) {
      int t = direct_target(o, kv.first);
      if (t >= 0)
        kv.second.rank = t;
    }
    break;
  case LOCAL_DIRECT:
    for (auto &kv : model) {
      auto &nb = neigh[kv.second.rank];
      Rng g = rng(o.salt, (u64)kv.first, 6);
      if (nb.size() && g.pct(60))
        kv.second.rank = nb[(size_t)g.below((i64)nb.size())];
    }
    break;
  case REMOVE:
    for (auto it = model.begin(); it != model.end();) {
      Rng g = rng(o.salt, (u64)it->first, 7);
      if (g.pct(o.n * 2))
        it = model.erase(it);
      else
        ++it;
    }
    break;
  case ADDDAT: {
    std::string nm = dname(o.n, o.salt);
    if (!extra.count(nm)) {
      int nc = 1 + (int)((o.salt >> 8) % 3);
      extra[nm] = {nc, o.n % 2 == 1};
      for (auto &kv : model) {
        auto &v = kv.second.f[nm];
        for (int c = 0; c < nc; c++)
          v.push_back(o.n % 2 ? bits((double)(kv.first * 4 + c)) : kv.first * 4 + c);
      }
    }
    break;
  }
  case REMDAT: {
    std::string nm = dname(o.n, o.salt);
    if (extra.count(nm)) {
      extra.erase(nm);
      for (auto &kv : model)
        kv.second.f.erase(nm);
    }
    break;
  }
  }
}
static void verify(int i, std::vector<Obs> &all) {
  static const char *kn[] = {"add", "advect", "hybrid_move", "hybrid_move+cell_move", "global_move",
                             "local_move", "remove", "add dat", "remove dat", "parallel initialisation"};
  const char *what = kn[ops[i].k];
  std::vector<DatSpec> spec = base_spec;
  for (auto &e : extra)
    spec.push_back({e.first, e.second.first, e.second.second});
  int ido = offset_of(spec, "ID"), co = offset_of(spec, "CELL_ID");
  std::set<i64> seen;
  u64 st = 0;
  for (int r = 0; r < nranks(); r++) {
    if (all[r].npart_local != (i64)all[r].snap.size())
      sim::violation("after op %d (%s) rank %d: local particle count %lld but the cells hold %zu", i, what, r,
                     (long long)all[r].npart_local, all[r].snap.size());
    st = st * 131 + all[r].snap.size();
    for (auto &p : all[r].snap) {
      i64 id = p.v[ido];
      auto it = model.find(id);
      if (it == model.end())
        sim::violation("after op %d (%s) rank %d cell %d layer %d: particle id %lld does not exist", i, what, r,
                       p.cell, p.layer, (long long)id);
      if (!seen.insert(id).second)
        sim::violation("after op %d (%s): particle id %lld is duplicated (rank %d)", i, what, (long long)id, r);
      MP &m = it->second;
      if (ops[i].k == HYBRID || ops[i].k == HYBRID_CELL || ops[i].k == PINIT) {
        double pos[3] = {0, 0, 0};
        for (int d = 0; d < ms.ndim; d++)
          pos[d] = dbl(m.f["P"][d]);
        if (m.rank != r && W.owned_by(pos, r))
          m.rank = r;
      }
      if (m.rank != r)
        sim::violation("after op %d (%s): particle id %lld is on rank %d, expected rank %d", i, what,
                       (long long)id, r, m.rank);
      int off = 0;
      for (auto &d : spec) {
        if (d.name != "CELL_ID")
          for (int k = 0; k < d.ncomp; k++)
            if (p.v[off + k] != m.f[d.name][k])
              sim::violation("after op %d (%s): particle id %lld dat %s component %d is %lld, expected %lld", i,
                             what, (long long)id, d.name.c_str(), k, (long long)p.v[off + k],
                             (long long)m.f[d.name][k]);
        off += d.ncomp;
      }
      if (ops[i].k == HYBRID || ops[i].k == HYBRID_CELL || ops[i].k == PINIT) {
        double pos[3] = {0, 0, 0};
        for (int d = 0; d < ms.ndim; d++)
          pos[d] = dbl(p.v[d]);
        if (ops[i].k == HYBRID_CELL) {
          if (p.v[co] != p.cell || !W.binned(pos, W.cell_of_local(r, p.cell)))
            sim::violation("after op %d (%s): particle id %lld is stored in cell %d with cell id %lld, its "
                           "position is in cell %d",
                           i, what, (long long)id, p.cell, (long long)p.v[co],
                           W.local_cell(r, W.cell_tuple(pos)));
        }
      }
    }
  }
  if (seen.size() != model.size()) {
    i64 lost = -1;
    for (auto &kv : model)
      if (!seen.count(kv.first)) {
        lost = kv.first;
        break;
      }
    sim::violation("after op %d (%s): %zu particles exist, expected %zu (first lost id %lld)", i, what,
                   seen.size(), model.size(), (long long)lost);
  }
  sim::state_hash(st * 31 + ops[i].k);
  sim::counter(what);
}

#if defined(SIM_P04)
// positions generated cell by cell lie in the cells they are listed for
static void check_placement(CartesianHMeshSharedPtr mesh, int r, int npc, unsigned seed) {
  std::vector<std::vector<double>> pos;
  std::vector<int> cells;
  uniform_within_cartesian_cells(mesh, npc, pos, cells, std::mt19937(seed));
  const int ncell = mesh->get_cell_count();
  if ((int)pos.size() != ms.ndim || (int)cells.size() != npc * ncell)
    sim::violation("placement: %d positions made for %d cells with %d each", (int)cells.size(), ncell, npc);
  std::vector<int> per(ncell, 0);
  std::set<std::vector<double>> seen;
  for (int i = 0; i < (int)cells.size(); i++) {
    double p[3] = {0, 0, 0};
    std::vector<double> q;
    for (int d = 0; d < ms.ndim; d++) {
      p[d] = pos[d].at(i);
      q.push_back(p[d]);
    }
    if (cells[i] < 0 || cells[i] >= ncell)
      sim::violation("placement: a position listed for cell %d of %d", cells[i], ncell);
    per[cells[i]]++;
    auto c = W.cell_of_local(r, cells[i]);
    for (int d = 0; d < ms.ndim; d++)
      if (p[d] < c[d] * ms.width() - 1e-12 || p[d] > (c[d] + 1) * ms.width() + 1e-12)
        sim::violation("placement: position component %d is %g, outside of its cell %d which starts at %g", d, p[d], cells[i],
                       c[d] * ms.width());
    if (!seen.insert(q).second)
      sim::violation("placement: two particles are placed at one position");
  }
  for (int c = 0; c < ncell; c++)
    if (per[c] != npc)
      sim::violation("placement: %d positions for cell %d, %d requested", per[c], c, npc);
  sim::counter("placements", cells.size());
}
#endif
void rank_main(int r) {
  auto mesh = make_mesh(ms);
  auto sycl_target = make_target(mesh->get_comm());
  auto mapper = CartesianHMeshLocalMapper(sycl_target, mesh);
  auto domain = std::make_shared<Domain>(mesh, mapper);
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), pcomp, true), ParticleProp(Sym<REAL>("V"), 3),
                    ParticleProp(Sym<REAL>("W"), 1),
                    ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("ID"), 1),
                    ParticleProp(Sym<INT>("T"), 2)};
  auto A = std::make_shared<ParticleGroup>(domain, spec, sycl_target);
  const int cart_rank = sycl_target->comm_pair.rank_parent;
  const int ncell = mesh->get_cell_count();
  world_publish(cart_rank, *mesh);
  auto nbv = mesh->get_local_communication_neighbours();
  if (neigh.size() != (size_t)nranks())
    neigh.resize((size_t)nranks());
  neigh[cart_rank] = nbv;
  r = cart_rank;
  std::map<std::string, std::pair<int, bool>> my_extra;
  for (int i = 0; i < (int)ops.size(); i++) {
    const Op &o = ops[i];
    if (sim::op_enabled(i)) {
      sim::op_begin(i, "op");
      switch (o.k) {
      case ADD: {
        int n = count_for(o, r);
        ParticleSet ps(n, A->get_particle_spec());
        for (int j = 0; j < n; j++) {
          MP m;
          i64 id;
          new_particle(o, i, r, j, m, id);
          for (int d = 0; d < pcomp; d++)
            ps[Sym<REAL>("P")][j][d] = dbl(m.f["P"][d]);
          for (int d = 0; d < 3; d++)
            ps[Sym<REAL>("V")][j][d] = dbl(m.f["V"][d]);
          ps[Sym<REAL>("W")][j][0] = dbl(m.f["W"][0]);
          ps[Sym<INT>("ID")][j][0] = id;
          ps[Sym<INT>("T")][j][0] = m.f["T"][0];
          ps[Sym<INT>("T")][j][1] = m.f["T"][1];
          ps[Sym<INT>("CELL_ID")][j][0] = rng(o.salt, r, 99 + j).below(ncell);
          ps[Sym<INT>("NESO_MPI_RANK")][j][0] = -1;
        }
        A->add_particles_local(ps);
#if defined(SIM_P04)
        if (Rng h = rng(o.salt, r, 55); h.pct(25))
          check_placement(mesh, r, (int)h.below(6), (unsigned)h.next());
#endif
        break;
      }
      case ADVECT: {
        const int nd = ms.ndim;
        double L0 = ms.size(0), L1 = nd > 1 ? ms.size(1) : 1, L2 = nd > 2 ? ms.size(2) : 1;
        particle_loop(
            A,
            [=](auto P, auto V) {
              const double L[3] = {L0, L1, L2};
              for (int d = 0; d < nd; d++)
                P.at(d) = wrap(P.at(d) + V.at(d), L[d]);
            },
            Access::write(Sym<REAL>("P")), Access::read(Sym<REAL>("V")))
            ->execute();
        break;
      }
      case HYBRID:
        A->hybrid_move();
        break;
      case HYBRID_CELL:
        A->hybrid_move();
        A->cell_move();
        break;
      case PINIT:
        parallel_advection_initialisation(A, o.salt >> 62 ? 1 + o.n % 2 : 1 + o.n % 23);
        if (A->contains_dat(Sym<REAL>("NESO_ORIG_POS")))
          sim::violation("op %d (parallel initialisation): a temporary property is left in the group", i);
        break;
      case GLOBAL_DIRECT: {
        // the user picks the destination rank of every particle
        for (int c = 0; c < ncell; c++) {
          auto ID = A->get_cell(Sym<INT>("ID"), c);
          auto M = A->get_cell(Sym<INT>("NESO_MPI_RANK"), c);
          for (int l = 0; l < ID->nrow; l++) {
            M->at(l, 0) = direct_target(o, ID->at(l, 0));
            M->at(l, 1) = -1;
          }
          A->get_dat(Sym<INT>("NESO_MPI_RANK"))->cell_dat.set_cell(c, M);
        }
        A->global_move();
        break;
      }
      case LOCAL_DIRECT: {
        for (int c = 0; c < ncell; c++) {
          auto ID = A->get_cell(Sym<INT>("ID"), c);
          auto M = A->get_cell(Sym<INT>("NESO_MPI_RANK"), c);
          for (int l = 0; l < ID->nrow; l++) {
            Rng g = rng(o.salt, (u64)ID->at(l, 0), 6);
            M->at(l, 0) = r;
            M->at(l, 1) = (nbv.size() && g.pct(60)) ? nbv[(size_t)g.below((i64)nbv.size())] : r;
          }
          A->get_dat(Sym<INT>("NESO_MPI_RANK"))->cell_dat.set_cell(c, M);
        }
        A->local_move();
        break;
      }
      case REMOVE: {
        std::vector<INT> cs, ls;
        for (int c = 0; c < ncell; c++) {
          auto ID = A->get_cell(Sym<INT>("ID"), c);
          for (int l = 0; l < ID->nrow; l++) {
            Rng g = rng(o.salt, (u64)ID->at(l, 0), 7);
            if (g.pct(o.n * 2)) {
              cs.push_back(c);
              ls.push_back(l);
            }
          }
        }
        A->remove_particles((int)cs.size(), cs, ls);
        break;
      }
      case ADDDAT: {
        std::string nm = dname(o.n, o.salt);
        if (!my_extra.count(nm)) {
          int nc = 1 + (int)((o.salt >> 8) % 3);
          my_extra[nm] = {nc, o.n % 2 == 1};
          if (o.n % 2) {
            A->add_particle_dat(Sym<REAL>(nm), nc);
            particle_loop(A, [=](auto ID, auto X) { for (int c = 0; c < nc; c++) X.at(c) = (REAL)(ID.at(0) * 4 + c); },
                          Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>(nm)))->execute();
          } else {
            A->add_particle_dat(Sym<INT>(nm), nc);
            particle_loop(A, [=](auto ID, auto X) { for (int c = 0; c < nc; c++) X.at(c) = ID.at(0) * 4 + c; },
                          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>(nm)))->execute();
          }
        }
        break;
      }
      case REMDAT: {
        std::string nm = dname(o.n, o.salt);
        if (my_extra.count(nm)) {
          if (my_extra[nm].second)
            A->remove_particle_dat(Sym<REAL>(nm));
          else
            A->remove_particle_dat(Sym<INT>(nm));
          my_extra.erase(nm);
        }
        break;
      }
      }
    }
    Obs ob;
    std::vector<DatSpec> sp = base_spec;
    for (auto &e : my_extra)
      sp.push_back({e.first, e.second.first, e.second.second});
    ob.snap = read_group(A, sp, r, ncell);
    ob.npart_local = A->get_npart_local();
    hash_snap(ob.snap);
    std::vector<Obs> all;
    if (rv.deposit(i, r, std::move(ob), all)) {
      sim::CoreGuard cg;
      model_apply(i);
      verify(i, all);
    }
  }
  A->free();
  sycl_target->free();
  mesh->free();
}
void finish() {}
const char *judge_abort(const char *) { return "the library stopped on a valid input"; }
} // namespace simwl
