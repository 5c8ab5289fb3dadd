// P26: invalid particles and requests stop the job; valid ones never do.
#include "store.hpp"
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
enum OpK { ADD, REM, MOVE, HYB, KLOOP, KPAIR, GETP, DATS, SUBS, OK_N };
static const char *kn[] = {"add", "remove", "cell move", "global move", "checked loop", "checked pair loop", "read rows",
                           "properties", "selections"};
static const int wt[OK_N] = {5, 3, 5, 6, 6, 3, 3, 2, 3};
enum TrapK { T_CELL_MOVE, T_CELL_ADD, T_OUTSIDE, T_KLOOP, T_KSUB, T_KPAIR, T_ROWS, T_SUBROWS, T_DAT, T_SPEC, T_RANGE, T_STATIC, T_SET, T_SAME, T_N };
static const char *tn[] = {"bad cell index at cell move", "bad cell index on a new particle", "position outside the domain",
                           "failing check in a loop", "failing check in a sub group loop", "failing check in a pair loop",
                           "bad row", "bad row of a sub group", "missing property", "wrong number of components",
                           "bad range", "stale static sub group", "bad values for new particles", "other group"};
struct Op {
  int k, n;
  u64 salt;
};
static MeshSpec ms;
static std::vector<Op> ops;
static int trap, trap_rank, trap_at, dummy;
static bool armed = false;
struct Seen {
  i64 id, v;
};
static Rendezvous<std::vector<Seen>> rv;
static Rendezvous<std::vector<i64>> rvp;
void choose_knobs() {
  if (sim::K.nranks > 4)
    sim::K.nranks = 1 + (i64)sim::rnd_below(sim::S_CFG, 4);
}
void plan() {
  seed_plan();
  Rng r = rng(1);
  ms = random_mesh(rng(2), 48);
  world_reset(ms);
  rv = {};
  rvp = {};
  armed = false;
  int tot = 0;
  for (int k = 0; k < OK_N; k++)
    tot += wt[k];
  ops.clear();
  ops.push_back({ADD, (int)r.range(0, 50), r.next()});
  int n = (int)r.range(2, 9);
  for (int i = 0; i < n; i++) {
    int x = (int)r.below(tot), k = 0;
    while (k < OK_N - 1 && x >= wt[k])
      x -= wt[k], k++;
    ops.push_back({k, (int)r.range(0, 40), r.next()});
  }
  trap = r.pct(12) ? -1 : (int)r.below(T_N + 2);
  if (trap == T_N)
    trap = T_OUTSIDE;
  if (trap == T_N + 1)
    trap = T_CELL_MOVE;
  trap_rank = (int)r.below(nranks());
  trap_at = (int)r.range(1, (i64)ops.size());
  // without a mapper of its own the mesh trusts the user's cell indices
  dummy = (trap == T_CELL_MOVE || trap == T_OUTSIDE) ? 1 : (int)r.below(2);
}
void rank_main(int) {
  Store S(ms, {{"V", 2, true}, {"N", 2, false}});
  S.one_way = true;
  auto target = S.target;
  if (dummy) {
    S.F.A->free();
    S.F.A.reset();
    S.A.reset();
    S.F.domain = std::make_shared<Domain>(S.F.mesh);
    ParticleSpec ps = to_spec(S.spec);
    S.F.A = std::make_shared<ParticleGroup>(S.F.domain, ps, target);
    S.A = S.F.A;
  }
  auto A = S.A;
  const int ncell = S.ncell, nd = ms.ndim, me = S.r;
  auto ep_fixed = error_propagate(target);
  auto fail = [&](const char *w) {
    sim::violation("%s (%s): the call returned normally on rank %d", trap < 0 ? "" : tn[trap], w, me);
  };
  // write the reference positions and cells of every particle to the device
  auto put = [&]() {
    for (int c = 0; c < ncell; c++) {
      auto ID = A->get_cell(Sym<INT>("ID"), c);
      if (!ID->nrow)
        continue;
      auto P = A->get_cell(Sym<REAL>("P"), c);
      auto C = A->get_cell(Sym<INT>("CELL_ID"), c);
      for (int l = 0; l < ID->nrow; l++) {
        auto &q = S.M.parts.at(ID->at(l, 0));
        for (int d = 0; d < nd; d++)
          P->at(l, d) = dbl(q.second["P"][d]);
        C->at(l, 0) = q.first;
      }
      A->get_dat(Sym<REAL>("P"))->cell_dat.set_cell(c, P);
      A->get_dat(Sym<INT>("CELL_ID"))->cell_dat.set_cell(c, C);
    }
  };
  auto scatter_local = [&](u64 salt) {
    for (auto &kv : S.M.parts) {
      if (!chosen(salt, kv.first))
        continue;
      Rng h = rng(salt, (u64)kv.first, 99);
      int cell = S.pick(h, (int)(salt % 5), salt >> 4);
      double p[3];
      pos_in_cell(h, me, cell, p);
      kv.second.first = cell;
      kv.second.second["CELL_ID"] = {cell};
      for (int d = 0; d < nd; d++)
        kv.second.second["P"][d] = bits(p[d]);
    }
  };
  // every rank's particles before and after a global move
  int epoch = 0;
  auto hybrid = [&](u64 salt, bool with_trap) {
    std::set<i64> bad;
    if (with_trap && !S.M.parts.empty()) {
      Rng g = rng(salt, (u64)me, 555);
      int nb = (int)g.range(1, 2);
      while (nb--) {
        auto it = std::next(S.M.parts.begin(), (long)g.below((i64)S.M.parts.size()));
        bad.insert(it->first);
      }
    }
    for (auto &kv : S.M.parts) {
      const i64 id = kv.first;
      Rng h = rng(salt, (u64)id, 98);
      double p[3];
      random_pos(h, ms, p);
      if (bad.count(id)) {
        int d = (int)h.below(nd);
        const double L = ms.size(d), w = ms.width();
        switch (h.below(9)) {
        case 0: p[d] = -1.01 * w; break;
        case 1: p[d] = L + 0.51 * w; break;
        case 2: p[d] = -L * (1.0 + 4 * h.unit()) - w; break;
        case 3: p[d] = L * (2.0 + 4 * h.unit()) + w; break;
        case 4: p[d] = 1e200; break;
        case 5: p[d] = -1e200; break;
        case 6: p[d] = std::nan(""); break;
        case 7: p[d] = -ms.extent - 0.01 * w; break;
        default: p[d] = L * (1 + 1e-6); break;
        }
        sim::trace("particle %lld placed at coordinate %d = %g", (long long)id, d, p[d]);
      }
      for (int d = 0; d < nd; d++)
        kv.second.second["P"][d] = bits(p[d]);
    }
    put();
    std::vector<i64> mine;
    for (auto &kv : S.M.parts)
      mine.push_back(kv.first);
    std::vector<std::vector<i64>> before;
    static std::set<i64> all_ids;
    if (rvp.deposit(epoch, me, mine, before)) {
      all_ids.clear();
      for (auto &b : before)
        all_ids.insert(b.begin(), b.end());
    }
    if (!bad.empty())
      armed = true;
    A->hybrid_move();
    if (!bad.empty())
      fail("global move");
    // rebuild the reference from what arrived
    auto snap = S.snap();
    const int io = offset_of(S.spec, "ID"), po = offset_of(S.spec, "P"), vo = offset_of(S.spec, "V");
    S.M.parts.clear();
    std::vector<Seen> seen;
    for (auto &q : snap) {
      const i64 id = q.v[(size_t)io];
      double p[3] = {0, 0, 0}, e[3];
      Rng h = rng(salt, (u64)id, 98);
      random_pos(h, ms, e);
      for (int d = 0; d < nd; d++) {
        p[d] = dbl(q.v[(size_t)(po + d)]);
        if (bits(p[d]) != bits(e[d]))
          sim::violation("global move: particle %lld arrived with another position", (long long)id);
      }
      if (!W.owned_by(p, me))
        sim::violation("global move: particle %lld is on rank %d", (long long)id, me);
      seen.push_back({id, q.v[(size_t)vo]});
      Fields f;
      int off = 0;
      for (auto &d : S.spec) {
        for (int c = 0; c < d.ncomp; c++)
          f[d.name].push_back(q.v[(size_t)(off + c)]);
        off += d.ncomp;
      }
      auto t = W.cell_tuple(p);
      for (int d = 0; d < nd; d++)
        t[d] = std::min(std::max(t[d], W.owned[me].lo[d]), W.owned[me].hi[d] - 1);
      for (int d = nd; d < 3; d++)
        t[d] = W.owned[me].lo[d];
      const int cell = W.local_cell(me, t);
      f["CELL_ID"] = {cell};
      S.M.parts[id] = {cell, f};
    }
    std::vector<std::vector<Seen>> all;
    if (rv.deposit(epoch, me, seen, all)) {
      std::set<i64> got;
      for (auto &a : all)
        for (auto &s : a)
          if (!got.insert(s.id).second)
            sim::violation("global move: particle %lld arrived twice", (long long)s.id);
      if (got != all_ids)
        sim::violation("global move: %zu particles before, %zu after", all_ids.size(), got.size());
    }
    epoch++;
    put();
    A->cell_move();
    if (!W.exact()) { // the mapper decides which side of a face
      auto s2 = S.snap();
      for (auto &q : s2) {
        auto &m = S.M.parts.at(q.v[(size_t)io]);
        m.first = q.cell;
        m.second["CELL_ID"] = {q.cell};
      }
    }
    S.check("global move", epoch);
  };
  auto some_id = [&](Rng &g) { return std::next(S.M.parts.begin(), (long)g.below((i64)S.M.parts.size()))->first; };
  auto add_one = [&](u64 salt, i64 cell) { // add a few particles, one of them with cell index `cell`
    Rng g = rng(salt, (u64)me, 31);
    const int n = 1 + (int)g.below(6), which = (int)g.below(n);
    ParticleSet ps(n, to_spec(S.spec));
    for (int j = 0; j < n; j++)
      ps.at(Sym<INT>("CELL_ID"), j, 0) = j == which ? cell : g.below(ncell);
    armed = true;
    A->add_particles_local(ps);
    fail("add");
  };
  auto bad_cell = [&](Rng &g) -> i64 {
    static const i64 far[] = {INT64_MIN, -4294967296LL, 4294967296LL, INT64_MAX, -2147483649LL, 2147483648LL};
    switch (g.below(4)) {
    case 0: return -1 - g.below(3);
    case 1: return ncell + g.below(3);
    case 2: return far[g.below(6)];
    default: return 4294967296LL * (1 + g.below(3)) + g.below(ncell); // valid when truncated
    }
  };
  // kernels which raise for the particles satisfying a condition
  auto kloop = [&](u64 salt, int where, i64 id_bad, bool resource) {
    ErrorPropagateSharedPtr ep = ep_fixed;
    if (resource)
      ep = get_resource<ErrorPropagate, ResourceStackInterfaceErrorPropagate>(
          target->resource_stack_map, ResourceStackKeyErrorPropagate{}, target);
    else
      ep->reset();
    auto k_ep = ep->device_ptr();
    const i64 m = 2 + (i64)(salt % 3);
    i64 want = 0;
    auto ker = [=](auto ID, auto N) {
      NESO_KERNEL_ASSERT(ID.at(0) != id_bad, k_ep);
      N.at(0) = ID.at(0) + m;
    };
    auto in = [&](i64 id) { return where == 0 || (where == 1 && id % m == 0) || where == 2 || where == 3; };
    for (auto &kv : S.M.parts)
      if (in(kv.first)) {
        kv.second.second["N"][0] = kv.first + m;
        want += kv.first == id_bad;
      }
    if (where == 1) {
      auto sub = particle_sub_group(A, [=](auto ID) { return ID.at(0) % m == 0; }, Access::read(Sym<INT>("ID")));
      particle_loop(sub, ker, Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("N")))->execute();
    } else if (where == 2) {
      auto l = particle_loop(A, ker, Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("N")));
      l->submit();
      l->wait();
    } else if (where == 3) {
      auto l = particle_loop(A, ker, Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("N")));
      for (int c = 0; c < ncell; c++)
        l->execute(c);
    } else
      particle_loop(A, ker, Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("N")))->execute();
    const int flag = ep->get_flag();
    if ((flag != 0) != (want != 0))
      sim::violation("checked loop: %lld particles failed the check, the error flag is %d", (long long)want, flag);
    if (want)
      armed = true;
    ep->check_and_throw("planned failure");
    if (want)
      fail("checked loop");
    if (resource)
      restore_resource(target->resource_stack_map, ResourceStackKeyErrorPropagate{}, ep);
  };
  // an error flag given back while set must come back clear
  auto dirty = [&](u64 salt) {
    auto ep = get_resource<ErrorPropagate, ResourceStackInterfaceErrorPropagate>(
        target->resource_stack_map, ResourceStackKeyErrorPropagate{}, target);
    auto k_ep = ep->device_ptr();
    const i64 m = 2 + (i64)(salt % 5);
    bool any = false;
    for (auto &kv : S.M.parts)
      any = any || kv.first % m == 0;
    particle_loop(A, [=](auto ID) { NESO_KERNEL_ASSERT(ID.at(0) % m != 0, k_ep); }, Access::read(Sym<INT>("ID")))
        ->execute();
    if ((ep->get_flag() > 0) != any)
      sim::violation("checked loop: the error flag is %d although %s particle failed", ep->get_flag(), any ? "a" : "no");
    if (salt % 2) {
      ep->reset();
      if (ep->get_flag() != 0)
        sim::violation("checked loop: the error flag is %d after a reset", ep->get_flag());
    }
    restore_resource(target->resource_stack_map, ResourceStackKeyErrorPropagate{}, ep);
    auto e2 = get_resource<ErrorPropagate, ResourceStackInterfaceErrorPropagate>(
        target->resource_stack_map, ResourceStackKeyErrorPropagate{}, target);
    if (e2->get_flag() != 0)
      sim::violation("checked loop: a fresh error flag is %d", e2->get_flag());
    e2->check_and_throw("fresh");
    restore_resource(target->resource_stack_map, ResourceStackKeyErrorPropagate{}, e2);
  };
  auto rows = [&](u64 salt, ParticleSubGroupSharedPtr sub, i64 m, int bad) {
    Rng g = rng(salt, (u64)me, 77);
    std::vector<INT> c, l;
    for (int i = 0; i < ncell; i++) {
      i64 n = sub ? sub->get_npart_cell(i) : A->get_npart_cell(i);
      for (i64 k = 0; k < n; k++)
        if (g.pct(30))
          c.push_back(i), l.push_back(k);
    }
    if (bad >= 0) {
      i64 cc = g.below(ncell), n = sub ? sub->get_npart_cell((int)cc) : A->get_npart_cell((int)cc);
      switch (bad % 5) {
      case 0: c.push_back(cc), l.push_back(n + g.below(3)); break;
      case 1: c.push_back(cc), l.push_back(-1 - g.below(2)); break;
      case 2: c.push_back(ncell + g.below(2)), l.push_back(0); break;
      case 3: c.push_back(-1 - g.below(2)), l.push_back(0); break;
      default: c.push_back(cc); break;
      }
      if (c.size() == l.size() && c.size() > 1) {
        size_t k = (size_t)g.below((i64)c.size());
        std::swap(c[k], c.back());
        std::swap(l[k], l.back());
      }
      armed = true;
    }
    auto ps = sub ? sub->get_particles(c, l) : A->get_particles(c, l);
    if (bad >= 0)
      fail("rows");
    for (size_t k = 0; k < c.size(); k++) {
      i64 id = ps->at(Sym<INT>("ID"), (int)k, 0);
      auto it = S.M.parts.find(id);
      if (it == S.M.parts.end() || it->second.first != c[k] || (sub && id % m != 0))
        sim::violation("rows: cell %lld row %lld gave particle %lld", (long long)c[k], (long long)l[k], (long long)id);
      if (ps->at(Sym<REAL>("V"), (int)k, 1) != S.fr(id, "V", 1))
        sim::violation("rows: particle %lld has another value", (long long)id);
    }
  };
  auto pairs = [&](u64 salt, i64 id_bad) {
    // neighbouring rows of each cell form pairs
    auto pl = std::make_shared<CellwisePairListSimple>(target, ncell);
    std::vector<int> pc, pi, pj;
    std::map<i64, i64> last;
    for (int c = 0; c < ncell; c++) {
      auto ID = A->get_cell(Sym<INT>("ID"), c);
      for (int k = 0; k + 1 < ID->nrow; k += 2)
        pc.push_back(c), pi.push_back(k), pj.push_back(k + 1);
    }
    if (!pc.empty())
      pl->push_back(pc, pi, pj);
    bool hit = false;
    for (size_t k = 0; k < pc.size(); k++) {
      auto ID = A->get_cell(Sym<INT>("ID"), pc[k]);
      hit = hit || ID->at(pi[k], 0) == id_bad || ID->at(pj[k], 0) == id_bad;
    }
    ep_fixed->reset();
    auto k_ep = ep_fixed->device_ptr();
    std::vector<CellwisePairListAbsolute<ParticleGroup, CellwisePairList>> lists;
    lists.emplace_back(A, A, pl);
    particle_pair_loop(
        "checked pairs", lists,
        [=](auto I, auto J) {
          NESO_KERNEL_ASSERT(I.at(0) != id_bad, k_ep);
          NESO_KERNEL_ASSERT(J.at(0) != id_bad, k_ep);
        },
        Access::A(Access::read(Sym<INT>("ID"))), Access::B(Access::read(Sym<INT>("ID"))))
        ->execute();
    if ((ep_fixed->get_flag() != 0) != hit)
      sim::violation("checked pair loop: the error flag is %d, expected %s", ep_fixed->get_flag(), hit ? "an error" : "none");
    if (hit)
      armed = true;
    ep_fixed->check_and_throw("planned failure");
    if (hit)
      fail("checked pair loop");
    (void)salt;
  };
  auto do_trap = [&](int i, u64 salt) {
    Rng g = rng(salt, (u64)me, 4711);
    const bool mine = me == trap_rank;
    if (trap == T_OUTSIDE) { // collective
      hybrid(salt, mine);
      return;
    }
    if (!mine)
      return;
    sim::counter("traps_sprung");
    switch (trap) {
    case T_CELL_MOVE: {
      if (S.M.parts.empty())
        return;
      scatter_local(salt);
      put();
      const i64 id = some_id(g), bad = bad_cell(g);
      const int cell = [&] {
        for (int c = 0; c < ncell; c++) {
          auto ID = A->get_cell(Sym<INT>("ID"), c);
          for (int l = 0; l < ID->nrow; l++)
            if (ID->at(l, 0) == id) {
              auto C = A->get_cell(Sym<INT>("CELL_ID"), c);
              C->at(l, 0) = bad;
              A->get_dat(Sym<INT>("CELL_ID"))->cell_dat.set_cell(c, C);
              return c;
            }
        }
        return -1;
      }();
      sim::trace("particle %lld in cell %d claims cell %lld of %d", (long long)id, cell, (long long)bad, ncell);
      armed = true;
      A->cell_move();
      fail("cell move");
    }
    case T_CELL_ADD:
      add_one(salt, bad_cell(g));
      return;
    case T_KLOOP:
    case T_KSUB: {
      if (S.M.parts.empty())
        return;
      i64 id = some_id(g);
      kloop(salt, trap == T_KSUB ? 1 : (int)(salt / 7 % 3) == 0 ? 0 : 2 + (int)(salt / 7 % 2), id, salt / 64 % 2);
      return;
    }
    case T_KPAIR:
      if (!S.M.parts.empty())
        pairs(salt, some_id(g));
      return;
    case T_ROWS:
      rows(salt, nullptr, 1, (int)g.below(5));
      return;
    case T_SUBROWS: {
      const i64 m = 2;
      rows(salt, particle_sub_group(A, [=](auto ID) { return ID.at(0) % m == 0; }, Access::read(Sym<INT>("ID"))), m,
           (int)g.below(5));
      return;
    }
    case T_DAT: {
      armed = true;
      int w = (int)g.below(7);
      if (w == 5 && S.M.parts.empty()) // a loop over nothing looks nothing up
        w = 6;
      switch (w) {
      case 0: A->remove_particle_dat(Sym<REAL>("P")); break;
      case 1: A->remove_particle_dat(Sym<INT>("CELL_ID")); break;
      case 2: A->remove_particle_dat(Sym<REAL>("NOPE")); break;
      case 3: A->remove_particle_dat(Sym<INT>("NOPE")); break;
      case 4: A->remove_particle_dat(Sym<INT>("NESO_MPI_RANK")); break;
      case 5:
        particle_loop(A, [=](auto X) { X.at(0) = 1; }, Access::write(Sym<REAL>("NOPE")))->execute();
        break;
      default:
        A->get_dat(Sym<INT>("NOPE"));
        break;
      }
      fail("missing property");
    }
    case T_SPEC: {
      armed = true;
      const int w = (int)g.below(3);
      if (w == 0)
        A->add_particle_dat(ParticleDat(target, ParticleProp(Sym<REAL>("V"), 3), ncell));
      else if (w == 1)
        A->add_particle_dat(ParticleDat(target, ParticleProp(Sym<INT>("N"), 1), ncell));
      else {
        auto sp = S.spec;
        for (auto &d : sp)
          if (d.name == "V" || d.name == "N")
            d.ncomp = d.name == "V" ? 1 : 3;
        ParticleSet ps(2, to_spec(sp));
        for (int j = 0; j < 2; j++)
          ps.at(Sym<INT>("CELL_ID"), j, 0) = 0;
        A->add_particles_local(ps);
      }
      fail("components");
    }
    case T_RANGE: {
      armed = true;
      switch (g.below(5)) {
      case 0: particle_sub_group(A, ncell); break;
      case 1: particle_sub_group(A, -1); break;
      case 2: particle_sub_group(A, 0, ncell + 1); break;
      case 3: particle_sub_group_truncate(A, -1); break;
      default: particle_sub_group_discard(A, -1); break;
      }
      fail("range");
    }
    case T_STATIC: {
      auto sub = static_particle_sub_group(A, [=](auto ID) { return ID.at(0) % 2 == 0; }, Access::read(Sym<INT>("ID")));
      sub->get_npart_local();
      if (g.pct(50)) {
        S.add(1 + (int)g.below(3), salt);
      } else {
        scatter_local(salt);
        put();
        A->cell_move();
      }
      armed = true;
      switch (g.below(3)) {
      case 0: particle_loop(sub, [=](auto N) { N.at(1) = 3; }, Access::write(Sym<INT>("N")))->execute(); break;
      case 1: sub->get_npart_local(); break;
      default: A->remove_particles(sub); break;
      }
      fail("stale static sub group");
    }
    case T_SET: {
      ParticleSet ps(3, to_spec(S.spec));
      std::vector<REAL> r2(2, 0.5), r3(3, 0.5);
      std::vector<INT> i3(3, 1), i4(4, 1);
      armed = true;
      switch (g.below(6)) {
      case 0: ps.set(Sym<REAL>("V"), 0, r2); break;
      case 1: ps.set(Sym<INT>("N"), 0, i4); break;
      case 2: ps.set(Sym<REAL>("V"), 2, r3); break;
      case 3: ps.set(Sym<INT>("N"), -1, i3); break;
      case 4: ps.set(Sym<INT>("NOPE"), 0, i3); break;
      default: ps.at(Sym<REAL>("NOPE"), 0, 0) = 1.0; break;
      }
      fail("set");
    }
    case T_SAME: {
      armed = true;
      if (g.pct(50))
        A->add_particles_local(A);
      else {
        std::vector<INT> c(1, 0), l;
        A->remove_particles(1, c, l);
      }
      fail("other group");
    }
    default:
      return;
    }
    (void)i;
  };
  for (int i = 0; i < (int)ops.size(); i++) {
    if (trap >= 0 && i == trap_at)
      do_trap(i, ops[i].salt + 17);
    const Op &o = ops[i];
    if (!sim::op_enabled(i))
      continue;
    sim::op_begin(i, kn[o.k]);
    const u64 salt = o.salt + (u64)me * 7919;
    switch (o.k) {
    case ADD:
      S.add((int)((u64)o.n * (1 + salt % 3) / 3), o.salt);
      break;
    case REM:
      S.remove([&](i64 id) { return chosen(o.salt, id) && id % 2; });
      break;
    case MOVE:
      scatter_local(o.salt);
      put();
      A->cell_move();
      break;
    case HYB:
      hybrid(o.salt, false);
      break;
    case KLOOP: {
      // the condition fails for no particle of the iterated set
      i64 id = -5;
      if (salt % 3 == 0)
        dirty(salt);
      if (salt % 4 == 1 && !S.M.parts.empty()) { // fails only outside the sub group
        const i64 m = 2 + (i64)(salt % 3);
        for (auto &kv : S.M.parts)
          if (kv.first % m)
            id = kv.first;
        kloop(salt, 1, id, salt / 8 % 2);
      } else
        kloop(salt, (int)(salt / 16 % 4), id, salt / 8 % 2);
      break;
    }
    case KPAIR:
      pairs(salt, -5);
      break;
    case GETP:
      if (salt % 2)
        rows(salt, nullptr, 1, -1);
      else
        rows(salt, particle_sub_group(A, [=](auto ID) { return ID.at(0) % 3 == 0; }, Access::read(Sym<INT>("ID"))), 3,
             -1);
      break;
    case DATS: {
      A->add_particle_dat(ParticleDat(target, ParticleProp(Sym<REAL>("X"), 2), ncell));
      particle_loop(A, [=](auto X) { X.at(1) = 1; }, Access::write(Sym<REAL>("X")))->execute();
      A->remove_particle_dat(Sym<REAL>("X"));
      break;
    }
    case SUBS: { // extreme but valid selections
      i64 n = particle_sub_group(A, ncell - 1)->get_npart_local();
      if (n != A->get_npart_cell(ncell - 1))
        sim::violation("selections: the last cell holds %lld particles, its selection %lld",
                       (long long)A->get_npart_cell(ncell - 1), (long long)n);
      n = particle_sub_group(A, 0, ncell)->get_npart_local();
      if (n != A->get_npart_local())
        sim::violation("selections: all cells hold %lld particles, their selection %lld",
                       (long long)A->get_npart_local(), (long long)n);
      if (particle_sub_group_truncate(A, 0)->get_npart_local() != 0)
        sim::violation("selections: a truncation to nothing holds particles");
      auto st = static_particle_sub_group(A, [=](auto ID) { return ID.at(0) % 2 == 0; }, Access::read(Sym<INT>("ID")));
      i64 want = 0;
      for (auto &kv : S.M.parts)
        want += kv.first % 2 == 0;
      if (st->get_npart_local() != want)
        sim::violation("selections: a static sub group holds %lld particles, expected %lld",
                       (long long)st->get_npart_local(), (long long)want);
      break;
    }
    }
    S.check(kn[o.k], i);
  }
  if (trap >= 0 && trap_at == (int)ops.size())
    do_trap((int)ops.size(), ops.back().salt + 17);
  S.F.A->free();
  ep_fixed.reset();
  S.A.reset();
  A.reset();
  S.target.reset();
  S.F.A.reset();
  S.F.domain.reset();
  target->free();
  S.F.mesh->free();
}
void finish() { sim::counter("ran_to_the_end"); }
const char *judge_abort(const char *) {
  if (armed) {
    sim::counter("stopped_as_required");
    return nullptr;
  }
  return "the library stopped on a valid input";
}
} // namespace simwl
