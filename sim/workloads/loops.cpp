// P05: a particle loop visits every particle of its iteration set exactly once and
// hands the kernel the right values, indices, counts and private memory.
#include "store.hpp"
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
enum OpK { ADD, REM, MOVE, LALL, LCELL, LRANGE, LMULTI, LDAT, LMEM, LVEC, LDIRECT, LKEEP, OK_N };
static const char *kn[] = {"add", "remove", "cell move", "loop all", "loop cell", "loop range", "loop several ranges",
                           "loop dat", "loop local memory", "loop property vector", "direct access", "kept loop"};
enum Set { GROUP, WHOLE, SUB, SUBSUB, SET_N };
struct Op {
  int k, n, set;
  u64 salt;
};
static MeshSpec ms;
static std::vector<Op> ops;
void choose_knobs() {
  choose_big(3);
  if (sim::chance(sim::S_CFG, 75))
    sim::K.nranks = 1;
  else if (sim::K.nranks > 3)
    sim::K.nranks = 2;
}
void plan() {
  seed_plan();
  Rng r = rng(1);
  ms = random_mesh(rng(2), 40);
  world_reset(ms);
  ops.clear();
  ops.push_back({ADD, first_add(r, 90), 0, r.next()});
  int n = (int)r.range(4, 12);
  for (int i = 0; i < n; i++) {
    static const int w[OK_N] = {7, 6, 6, 14, 8, 9, 6, 6, 10, 8, 5, 10};
    int x = (int)r.below(95), k = 0;
    while (k < OK_N - 1 && x >= w[k])
      x -= w[k], k++;
    ops.push_back({k, (int)(r.pct(10) ? r.range(50, 200) : r.range(0, 40)), (int)r.below(SET_N), r.next()});
  }
}
void rank_main(int) {
  Store S(ms, {{"V", 2, true}, {"Q", 2, false}, {"CNT", 1, false}, {"IX", 7, false}});
  auto A = S.A;
  const int ncell = S.ncell;
  // what the kernel recorded for each visit is compared with the stored rows
  auto index_kernel = [](auto IX, auto CNT, auto index, auto info, auto ID, auto V, auto Q) {
    CNT.at(0) += 1;
    IX.at(0) = index.cell;
    IX.at(1) = index.layer;
    IX.at(2) = index.loop_layer;
    IX.at(3) = index.get_local_linear_index();
    IX.at(4) = index.get_loop_linear_index();
    IX.at(5) = index.get_sub_linear_index();
    IX.at(6) = info.get();
    Q.at(0) = ID.at(0) * 3 + (INT)(V.at(1) * 16.0);
    V.at(0) = V.at(1) + 1.0;
  };
  auto make = [&](auto G) {
    return particle_loop("k", G, index_kernel, Access::write(Sym<INT>("IX")), Access::write(Sym<INT>("CNT")),
                         Access::read(ParticleLoopIndex{}), Access::read(CellInfoNPart{}),
                         Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>("V")), Access::write(Sym<INT>("Q")));
  };
  const i64 m0 = 2 + (i64)(ops[0].salt % 3);
  auto sub = particle_sub_group(A, [=](auto ID) { return ID.at(0) % m0 == 0; }, Access::read(Sym<INT>("ID")));
  auto subsub = particle_sub_group(sub, [=](auto ID) { return ID.at(0) % 5 != 0; }, Access::read(Sym<INT>("ID")));
  auto whole = particle_sub_group(A);
  auto in = [&](int set, i64 id) {
    return set == SUB ? id % m0 == 0 : set == SUBSUB ? (id % m0 == 0 && id % 5 != 0) : true;
  };
  // loops kept over the whole history and executed again after the group changed
  std::vector<ParticleLoopSharedPtr> kept = {make(A), make(whole), make(sub), make(subsub)};
  auto loop_on = [&](int set) { return set == GROUP ? make(A) : set == WHOLE ? make(whole) : set == SUB ? make(sub) : make(subsub); };
  auto verify = [&](int i, int set, int c0, int c1, const char *what, const std::map<i64, i64> &before,
                    bool several) {
    // rows as stored
    std::vector<i64> es(ncell + 1, 0), lb(ncell + 1, 0);
    std::vector<std::shared_ptr<CellDataT<INT>>> IDs, IXs, CNTs;
    for (int c = 0; c < ncell; c++) {
      IDs.push_back(A->get_cell(Sym<INT>("ID"), c));
      IXs.push_back(A->get_cell(Sym<INT>("IX"), c));
      CNTs.push_back(A->get_cell(Sym<INT>("CNT"), c));
      es[c + 1] = es[c] + IDs[c]->nrow;
      i64 k = 0;
      for (int l = 0; l < IDs[c]->nrow; l++)
        k += in(set, IDs[c]->at(l, 0));
      lb[c + 1] = lb[c] + k;
    }
    sim::CoreGuard cg;
    for (int c = 0; c < ncell; c++) {
      std::set<i64> ll;
      for (int l = 0; l < IDs[c]->nrow; l++) {
        i64 id = IDs[c]->at(l, 0);
        bool vis = c >= c0 && c < c1 && in(set, id);
        i64 d = CNTs[c]->at(l, 0) - before.at(id);
        if (d != (vis ? 1 : 0))
          sim::violation("op %d (%s): particle id %lld in cell %d was visited %lld times, expected %d", i, what,
                         (long long)id, c, (long long)d, vis ? 1 : 0);
        if (!vis)
          continue;
        auto &X = IXs[c];
        i64 n = lb[c + 1] - lb[c];
        i64 loop_layer = X->at(l, 2);
        i64 want[7] = {c, l, loop_layer, es[c] + l, several ? X->at(l, 4) : lb[c] + loop_layer - lb[c0], lb[c] + loop_layer, n};
        if (several)
          want[4] = X->at(l, 4);
        if (set == GROUP || set == WHOLE)
          want[2] = l;
        static const char *nm[7] = {"cell", "row", "loop row", "local linear index", "loop linear index",
                                    "sub group linear index", "number of particles in the cell"};
        for (int k = 0; k < 7; k++)
          if (X->at(l, k) != want[k])
            sim::violation("op %d (%s): the kernel of particle id %lld saw %s %lld, expected %lld", i, what,
                           (long long)id, nm[k], (long long)X->at(l, k), (long long)want[k]);
        if (loop_layer < 0 || loop_layer >= n || !ll.insert(loop_layer).second)
          sim::violation("op %d (%s): loop row %lld of cell %d is repeated or out of range", i, what,
                         (long long)loop_layer, c);
        // model update
        auto &f = S.M.parts.at(id).second;
        f["CNT"][0] += 1;
        for (int k = 0; k < 7; k++)
          f["IX"][k] = X->at(l, k);
        f["Q"][0] = id * 3 + (i64)(dbl(f["V"][1]) * 16.0);
        f["V"][0] = bits(dbl(f["V"][1]) + 1.0);
      }
    }
  };
  for (int i = 0; i < (int)ops.size(); i++) {
    const Op &o = ops[i];
    if (!sim::op_enabled(i))
      continue;
    sim::op_begin(i, kn[o.k]);
    Rng g = rng(o.salt, (u64)S.r, 3);
    std::map<i64, i64> before;
    for (auto &kv : S.M.parts)
      before[kv.first] = kv.second.second["CNT"][0];
    switch (o.k) {
    case ADD:
      S.add((int)g.range(0, o.n), o.salt);
      break;
    case REM:
      S.remove([&](i64 id) { return chosen(o.salt, id); }, o.salt);
      break;
    case MOVE:
      S.move([&](i64 id) { return chosen(o.salt, id); }, o.salt);
      break;
    case LALL: {
      auto l = loop_on(o.set);
      if (o.salt & 1)
        l->execute();
      else {
        l->submit();
        l->wait();
      }
      verify(i, o.set, 0, ncell, kn[o.k], before, false);
      break;
    }
    case LCELL: {
      int c = (int)g.below(ncell);
      loop_on(o.set)->execute(c);
      verify(i, o.set, c, c + 1, kn[o.k], before, false);
      break;
    }
    case LRANGE: {
      int c0 = (int)g.below(ncell), c1 = (int)g.range(c0 + 1, ncell);
      loop_on(o.set)->execute(c0, c1);
      verify(i, o.set, c0, c1, kn[o.k], before, false);
      break;
    }
    case LMULTI: {
      // consecutive launches over a partition of the cells
      auto l = loop_on(o.set);
      int step = (int)g.range(1, ncell);
      for (int c = 0; c < ncell; c += step)
        l->execute(c, std::min(ncell, c + step));
      verify(i, o.set, 0, ncell, kn[o.k], before, true);
      break;
    }
    case LKEEP: {
      kept[o.set]->execute();
      verify(i, o.set, 0, ncell, kn[o.k], before, false);
      break;
    }
    case LDAT: {
      // a loop over the rows of a property; other properties given as dats
      auto dID = A->get_dat(Sym<INT>("ID"));
      auto dQ = A->get_dat(Sym<INT>("Q"));
      auto dV = A->get_dat(Sym<REAL>("V"));
      const i64 k = (i64)(o.salt % 1000);
      particle_loop(dV, [=](auto ID, auto Q) { Q.at(1) = Q.at(1) * 3 + ID.at(0) * k; }, Access::read(dID),
                    Access::write(dQ))
          ->execute();
      for (auto &kv : S.M.parts)
        kv.second.second["Q"][1] = kv.second.second["Q"][1] * 3 + kv.first * k;
      break;
    }
    case LMEM: {
      const int nb = (int)g.range(1, 6), ni = (int)g.range(1, 5);
      auto mb = std::make_shared<LocalMemoryBlock<INT>>(nb);
      auto mi = std::make_shared<LocalMemoryInterlaced<INT>>(ni);
      auto run = [&](auto G) {
        particle_loop(
            G,
            [=](auto ID, auto Q, auto B, auto I) {
              for (int k = 0; k < nb; k++)
                B.at(k) = ID.at(0) * (k + 1);
              for (int k = 0; k < ni; k++)
                I.at(k) = ID.at(0) * 7 + k;
              INT s = 0;
              for (int k = 0; k < nb; k++)
                s = s * 31 + B.at(k);
              for (int k = ni - 1; k >= 0; k--)
                s = s * 31 + I.at(k);
              Q.at(1) = s;
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("Q")), Access::write(mb), Access::write(mi))
            ->execute();
      };
      o.set == GROUP ? run(A) : run(o.set == WHOLE ? whole : o.set == SUB ? sub : subsub);
      for (auto &kv : S.M.parts)
        if (in(o.set, kv.first)) {
          u64 s = 0;
          for (int k = 0; k < nb; k++)
            s = s * 31 + (u64)(kv.first * (k + 1));
          for (int k = ni - 1; k >= 0; k--)
            s = s * 31 + (u64)(kv.first * 7 + k);
          kv.second.second["Q"][1] = (i64)s;
        }
      break;
    }
    case LVEC: {
      // properties chosen at run time; the same property may be listed with others in any order
      std::vector<Sym<INT>> si = {Sym<INT>("ID"), Sym<INT>("Q"), Sym<INT>("CELL_ID")};
      int rot = (int)(o.salt % 3);
      std::rotate(si.begin(), si.begin() + rot, si.end());
      int pos = 0, posq = 0;
      for (int k = 0; k < 3; k++) {
        if (si[k].name == "ID")
          pos = k;
        if (si[k].name == "Q")
          posq = k;
      }
      auto sv = sym_vector<INT>(A, si);
      auto rv = sym_vector<REAL>(A, {Sym<REAL>("V"), Sym<REAL>("P")});
      auto run = [&](auto G) {
        if (o.salt & 64)
          particle_loop(
              G, [=](auto I, auto R, auto ix) { I.at(posq, 1) = I.at(pos, ix, 0) * 5 + (INT)(R.at(0, ix, 1) * 16.0); },
              Access::write(sv), Access::read(rv), Access::read(ParticleLoopIndex{}))
              ->execute();
        else
          particle_loop(G, [=](auto I, auto R) { I.at(posq, 1) = I.at(pos, 0) * 5 + (INT)(R.at(0, 1) * 16.0); },
                        Access::write(sv), Access::read(rv))
              ->execute();
      };
      o.set == GROUP ? run(A) : run(o.set == WHOLE ? whole : o.set == SUB ? sub : subsub);
      for (auto &kv : S.M.parts)
        if (in(o.set, kv.first))
          kv.second.second["Q"][1] = kv.first * 5 + (i64)(dbl(kv.second.second["V"][1]) * 16.0);
      break;
    }
    case LDIRECT: {
      // hand written device loop through the direct access interface
      auto dQ = A->get_dat(Sym<INT>("Q"));
      auto dID = A->get_dat(Sym<INT>("ID"));
      auto k_id = Access::direct_get(Access::read(dID));
      auto k_q = Access::direct_get(Access::write(dQ));
      int c = (int)g.below(ncell);
      int n = (int)A->get_npart_cell(c);
      if (n)
        S.target->queue.parallel_for<>(sycl::range<1>((size_t)n), [=](sycl::id<1> ix) { k_q[c][1][ix] = k_id[c][0][ix] * 11; })
            .wait_and_throw();
      Access::direct_restore(Access::read(dID), k_id);
      Access::direct_restore(Access::write(dQ), k_q);
      for (auto &kv : S.M.parts)
        if (kv.second.first == c)
          kv.second.second["Q"][1] = kv.first * 11;
      break;
    }
    }
    S.check(kn[o.k], i);
    u64 st = (u64)o.k * 16 + (u64)o.set;
    for (int c = 0; c < ncell; c++)
      st = st * 1000003 + (u64)A->get_npart_cell(c);
    sim::state_hash(st);
    sim::counter(kn[o.k]);
  }
  kept.clear();
  sub.reset();
  subsub.reset();
  whole.reset();
  A.reset();
  S.free();
}
void finish() {}
const char *judge_abort(const char *) { return "the library stopped on a valid input"; }
} // namespace simwl
