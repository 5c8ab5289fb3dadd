// P06: concurrent contributions to arrays and cell-wise matrices are all counted
// exactly once, and global arrays end up identical on every rank.
#include "store.hpp"
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
enum OpK { ADD, REM, MOVE, LADD, LREAD, LWRITE, NDADD, NDRW, GADD, GREAD, CADD, CMIN, CMAX, CRW, CRED, CREDI, RDC, RDCS, NPART, EWISE, BCAST, HOST, OK_N };
static const char *kn[] = {"add", "remove", "cell move", "local array add", "local array read", "local array write",
                           "nd array add", "nd array read write", "global array add", "global array read",
                           "cell matrix add", "cell matrix min", "cell matrix max", "cell matrix read write",
                           "real reduction", "integer reduction", "reduce component", "reduce components",
                           "count per cell", "element wise", "broadcast", "host access"};
enum Set { GROUP, WHOLE, SUB, SET_N };
struct Op {
  int k, n, set;
  u64 salt;
};
static MeshSpec ms;
static std::vector<Op> ops;
static int nl, nd0, nd1, ng, nrow, ncol;
static Rendezvous<std::pair<std::vector<i64>, std::vector<i64>>> rv;
void choose_knobs() {
  choose_big(3);
  if (sim::chance(sim::S_CFG, 50))
    sim::K.nranks = 1;
  else if (sim::K.nranks > 4)
    sim::K.nranks = 3;
}
void plan() {
  seed_plan();
  Rng r = rng(1);
  ms = random_mesh(rng(2), 40);
  world_reset(ms);
  rv = {};
  nl = (int)r.range(1, 9);
  nd0 = (int)r.range(1, 4);
  nd1 = (int)r.range(1, 4);
  ng = (int)r.range(1, 6);
  nrow = (int)r.range(1, 4);
  ncol = (int)r.range(1, 3);
  ops.clear();
  ops.push_back({ADD, first_add(r, 90), 0, r.next()});
  int n = (int)r.range(4, 12);
  for (int i = 0; i < n; i++) {
    static const int w[OK_N] = {8, 5, 4, 8, 4, 3, 6, 4, 9, 5, 7, 5, 5, 5, 9, 7, 6, 6, 3, 5, 4, 5};
    int x = (int)r.below(123), k = 0;
    while (k < OK_N - 1 && x >= w[k])
      x -= w[k], k++;
    ops.push_back({k, (int)(r.pct(10) ? r.range(50, 250) : r.range(0, 40)), (int)r.below(SET_N), r.next()});
  }
}
void rank_main(int) {
  Store S(ms, {{"V", 4, true}, {"N", 4, false}, {"Q", 2, false}, {"X", 1, true},
                {"RC", nrow * ncol, true}, {"IC", nrow * ncol, false}});
  auto A = S.A;
  auto target = S.target;
  const int ncell = S.ncell;
  const i64 m0 = 2 + (i64)(ops[0].salt % 3);
  auto sub = particle_sub_group(A, [=](auto ID) { return ID.at(0) % m0 == 0; }, Access::read(Sym<INT>("ID")));
  auto whole = particle_sub_group(A);
  auto in = [&](int set, i64 id) { return set == SUB ? id % m0 == 0 : true; };
  // the objects under test and their models
  auto LI = std::make_shared<LocalArray<INT>>(target, nl, 0);
  auto LR = std::make_shared<LocalArray<REAL>>(target, nl, 0.5);
  auto ND = std::make_shared<NDLocalArray<INT, 2>>(target, nd0, nd1);
  auto GI = std::make_shared<GlobalArray<INT>>(target, ng, 3);
  auto GR = std::make_shared<GlobalArray<REAL>>(target, ng, 0.25);
  auto CI = std::make_shared<CellDatConst<INT>>(target, ncell, nrow, ncol);
  auto CR = std::make_shared<CellDatConst<REAL>>(target, ncell, nrow, ncol);
  auto C1 = std::make_shared<CellDatConst<REAL>>(target, ncell, 1, 1);
  std::vector<i64> mLI(nl, 0), mND(nd0 * nd1, 0), mGI(ng, 3);
  std::vector<double> mLR(nl, 0.5), mGR(ng, 0.25);
  const int stride = nrow * ncol;
  std::vector<i64> mCI(ncell * stride, 0);
  std::vector<double> mCR(ncell * stride, 0.0), mC1(ncell, 0.0);
  auto at = [&](int c, int rr, int cc) { return c * stride + cc * nrow + rr; };
  auto on = [&](int set, auto f) {
    if (set == GROUP)
      f(A);
    else
      f(set == WHOLE ? whole : sub);
  };
  for (int i = 0; i < (int)ops.size(); i++) {
    const Op &o = ops[i];
    if (!sim::op_enabled(i))
      continue;
    sim::op_begin(i, kn[o.k]);
    Rng g = rng(o.salt, (u64)S.r, 3);
    Rng gs = rng(o.salt, 77, 3); // same on all ranks
    // range of cells: all, one or several
    int c0 = 0, c1 = ncell;
    std::optional<int> oc0, oc1;
    int rk = (int)(o.salt % 4);
    if (rk == 1) {
      c0 = (int)g.below(ncell);
      c1 = c0 + 1;
      oc0 = c0;
    } else if (rk == 2) {
      c0 = (int)g.below(ncell);
      c1 = (int)g.range(c0 + 1, ncell);
      oc0 = c0;
      oc1 = c1;
    }
    auto vis = [&](auto f) {
      for (auto &kv : S.M.parts)
        if (kv.second.first >= c0 && kv.second.first < c1 && in(o.set, kv.first))
          f(kv.first, kv.second.first, kv.second.second);
    };
    const int knl = nl, knd0 = nd0, knd1 = nd1, kng = ng, knr = nrow, knc = ncol;
    switch (o.k) {
    case ADD:
      S.add((int)g.range(0, o.n), o.salt);
      break;
    case REM:
      S.remove([&](i64 id) { return chosen(o.salt, id); }, o.salt);
      break;
    case MOVE:
      S.move([&](i64 id) { return chosen(o.salt, id); }, o.salt);
      break;
    case LADD: {
      // the value returned by each contribution is the running total before it
      LI->fill(0);
      mLI.assign(nl, 0);
      on(o.set, [&](auto G) {
        particle_loop(
            G,
            [=](auto ID, auto V, auto Q, auto L, auto R) {
              const int k = (int)(ID.at(0) % knl);
              Q.at(0) = L.fetch_add(k, 1);
              R.fetch_add(k, V.at(0));
            },
            Access::read(Sym<INT>("ID")), Access::read(Sym<REAL>("V")), Access::write(Sym<INT>("Q")), Access::add(LI),
            Access::add(LR))
            ->execute(oc0, oc1);
      });
      std::map<i64, i64> tick;
      for (int c = 0; c < ncell; c++) {
        auto ID = A->get_cell(Sym<INT>("ID"), c);
        auto Q = A->get_cell(Sym<INT>("Q"), c);
        for (int l = 0; l < ID->nrow; l++)
          tick[ID->at(l, 0)] = Q->at(l, 0);
      }
      std::map<int, std::set<i64>> seen;
      vis([&](i64 id, int, Fields &f) {
        int k = (int)(id % nl);
        mLI[k]++;
        mLR[k] += dbl(f["V"][0]);
        f["Q"][0] = tick[id];
        if (!seen[k].insert(tick[id]).second)
          sim::violation("op %d (%s): two particles were handed the same ticket %lld", i, kn[o.k], (long long)tick[id]);
      });
      for (auto &kv : seen)
        if (*kv.second.begin() != 0 || *kv.second.rbegin() != (i64)kv.second.size() - 1)
          sim::violation("op %d (%s): tickets of element %d are not 0..%zu", i, kn[o.k], kv.first, kv.second.size() - 1);
      break;
    }
    case LREAD:
      on(o.set, [&](auto G) {
        particle_loop(
            G,
            [=](auto ID, auto Q, auto X, auto L, auto R) {
              Q.at(1) = L.at((int)(ID.at(0) % knl)) + 1;
              X.at(0) = R.at((int)(ID.at(0) % knl));
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("Q")), Access::write(Sym<REAL>("X")), Access::read(LI),
            Access::read(LR))
            ->execute(oc0, oc1);
      });
      vis([&](i64 id, int, Fields &f) {
        f["Q"][1] = mLI[id % nl] + 1;
        f["X"][0] = bits(mLR[id % nl]);
      });
      break;
    case LWRITE: {
      const i64 k = (i64)(o.salt % 1000);
      bool any = false;
      on(o.set, [&](auto G) {
        particle_loop(G, [=](auto ID, auto L) { L.at((int)(k % knl)) = k; }, Access::read(Sym<INT>("ID")), Access::write(LI))
            ->execute(oc0, oc1);
      });
      vis([&](i64, int, Fields &) { any = true; });
      if (any)
        mLI[k % nl] = k;
      break;
    }
    case NDADD:
      on(o.set, [&](auto G) {
        particle_loop(
            G,
            [=](auto ID, auto N, auto L) {
              L.fetch_add((int)(ID.at(0) % knd0), (int)((ID.at(0) / 7) % knd1), N.at(0));
            },
            Access::read(Sym<INT>("ID")), Access::read(Sym<INT>("N")), Access::add(ND))
            ->execute(oc0, oc1);
      });
      vis([&](i64 id, int, Fields &f) { mND[(id % nd0) * nd1 + (id / 7) % nd1] += f["N"][0]; });
      break;
    case NDRW: {
      const i64 k = (i64)(o.salt % 1000);
      auto N2 = std::make_shared<NDLocalArray<INT, 2>>(target, nd0, nd1);
      bool any = false;
      on(o.set, [&](auto G) {
        particle_loop(
            G,
            [=](auto ID, auto Q, auto L, auto W) {
              Q.at(1) = L.at((int)(ID.at(0) % knd0), (int)((ID.at(0) / 7) % knd1)) - 5;
              W.at(knd0 - 1, knd1 - 1) = k;
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("Q")), Access::read(ND), Access::write(N2))
            ->execute(oc0, oc1);
      });
      vis([&](i64 id, int, Fields &f) {
        any = true;
        f["Q"][1] = mND[(id % nd0) * nd1 + (id / 7) % nd1] - 5;
      });
      auto v = N2->get();
      for (int x = 0; x < nd0 * nd1; x++)
        if (v[x] != (any && x == nd0 * nd1 - 1 ? k : 0))
          sim::violation("op %d (%s): element %d is %lld", i, kn[o.k], x, (long long)v[x]);
      break;
    }
    case GADD: {
      std::vector<i64> dI(ng, 0);
      std::vector<double> dR(ng, 0.0);
      on(o.set, [&](auto G) {
        particle_loop(
            G,
            [=](auto ID, auto N, auto V, auto I, auto R) {
              I.add((int)(ID.at(0) % kng), N.at(1));
              R.add((int)((ID.at(0) / 3) % kng), V.at(1));
            },
            Access::read(Sym<INT>("ID")), Access::read(Sym<INT>("N")), Access::read(Sym<REAL>("V")), Access::add(GI),
            Access::add(GR))
            ->execute(oc0, oc1);
      });
      vis([&](i64 id, int, Fields &f) {
        dI[id % ng] += f["N"][1];
        dR[(id / 3) % ng] += dbl(f["V"][1]);
      });
      auto vI = GI->get();
      auto vR = GR->get();
      // the arrays now hold old + the sum of every rank's contributions
      {
        sim::CoreGuard cg;
        std::vector<i64> contrib(dI.begin(), dI.end()), got(vI.begin(), vI.end());
        for (int k = 0; k < ng; k++)
          contrib.push_back(bits(dR[k])), got.push_back(bits(vR[k]));
        for (int k = 0; k < ng; k++)
          contrib.push_back(mGI[k]);
        for (int k = 0; k < ng; k++)
          contrib.push_back(bits(mGR[k]));
        std::vector<std::pair<std::vector<i64>, std::vector<i64>>> all;
        if (rv.deposit(i, S.r, {contrib, got}, all))
          for (int r = 0; r < nranks(); r++)
            for (int k = 0; k < ng; k++) {
              i64 wI = all[0].first[2 * ng + k];
              double wR = dbl(all[0].first[3 * ng + k]);
              for (int q = 0; q < nranks(); q++) {
                wI += all[q].first[k];
                wR += dbl(all[q].first[ng + k]);
              }
              if (all[r].second[k] != wI || dbl(all[r].second[ng + k]) != wR)
                sim::violation("op %d (%s): element %d on rank %d is %lld / %.17g, the sum of all contributions is %lld / %.17g", i,
                               kn[o.k], k, r, (long long)all[r].second[k], dbl(all[r].second[ng + k]), (long long)wI, wR);
            }
      }
      for (int k = 0; k < ng; k++)
        mGI[k] = vI[k], mGR[k] = vR[k];
      break;
    }
    case GREAD:
      on(o.set, [&](auto G) {
        particle_loop(
            G,
            [=](auto ID, auto Q, auto X, auto I, auto R) {
              Q.at(0) = I.at((int)(ID.at(0) % kng)) * 2;
              X.at(0) = R.at((int)(ID.at(0) % kng));
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("Q")), Access::write(Sym<REAL>("X")), Access::read(GI),
            Access::read(GR))
            ->execute(oc0, oc1);
      });
      vis([&](i64 id, int, Fields &f) {
        f["Q"][0] = mGI[id % ng] * 2;
        f["X"][0] = bits(mGR[id % ng]);
      });
      break;
    case CADD:
      on(o.set, [&](auto G) {
        particle_loop(
            G,
            [=](auto ID, auto N, auto V, auto I, auto R) {
              I.fetch_add((int)(ID.at(0) % knr), (int)((ID.at(0) / 5) % knc), N.at(2));
              R.fetch_add((int)((ID.at(0) / 2) % knr), (int)(ID.at(0) % knc), V.at(2));
            },
            Access::read(Sym<INT>("ID")), Access::read(Sym<INT>("N")), Access::read(Sym<REAL>("V")), Access::add(CI),
            Access::add(CR))
            ->execute(oc0, oc1);
      });
      vis([&](i64 id, int c, Fields &f) {
        mCI[at(c, (int)(id % nrow), (int)((id / 5) % ncol))] += f["N"][2];
        mCR[at(c, (int)((id / 2) % nrow), (int)(id % ncol))] += dbl(f["V"][2]);
      });
      break;
    case CMIN:
      on(o.set, [&](auto G) {
        particle_loop(
            G,
            [=](auto ID, auto N, auto V, auto I, auto R) {
              I.fetch_min((int)(ID.at(0) % knr), (int)((ID.at(0) / 5) % knc), N.at(2));
              R.fetch_min((int)((ID.at(0) / 2) % knr), (int)(ID.at(0) % knc), V.at(2));
            },
            Access::read(Sym<INT>("ID")), Access::read(Sym<INT>("N")), Access::read(Sym<REAL>("V")), Access::min(CI),
            Access::min(CR))
            ->execute(oc0, oc1);
      });
      vis([&](i64 id, int c, Fields &f) {
        auto &a = mCI[at(c, (int)(id % nrow), (int)((id / 5) % ncol))];
        a = std::min(a, f["N"][2]);
        auto &b = mCR[at(c, (int)((id / 2) % nrow), (int)(id % ncol))];
        b = std::min(b, dbl(f["V"][2]));
      });
      break;
    case CMAX:
      on(o.set, [&](auto G) {
        particle_loop(
            G,
            [=](auto ID, auto N, auto V, auto I, auto R) {
              I.fetch_max((int)(ID.at(0) % knr), (int)((ID.at(0) / 5) % knc), N.at(2));
              R.fetch_max((int)((ID.at(0) / 2) % knr), (int)(ID.at(0) % knc), V.at(2));
            },
            Access::read(Sym<INT>("ID")), Access::read(Sym<INT>("N")), Access::read(Sym<REAL>("V")), Access::max(CI),
            Access::max(CR))
            ->execute(oc0, oc1);
      });
      vis([&](i64 id, int c, Fields &f) {
        auto &a = mCI[at(c, (int)(id % nrow), (int)((id / 5) % ncol))];
        a = std::max(a, f["N"][2]);
        auto &b = mCR[at(c, (int)((id / 2) % nrow), (int)(id % ncol))];
        b = std::max(b, dbl(f["V"][2]));
      });
      break;
    case CRW: {
      const i64 k = (i64)(o.salt % 1000);
      std::set<int> touched;
      on(o.set, [&](auto G) {
        particle_loop(
            G,
            [=](auto ID, auto Q, auto I, auto R, auto ix) {
              Q.at(0) = (INT)(R.at((int)(ID.at(0) % knr), (int)(ID.at(0) % knc)) * 16.0);
              I.at(knr - 1, knc - 1) = k + ix.cell;
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("Q")), Access::write(CI), Access::read(CR),
            Access::read(ParticleLoopIndex{}))
            ->execute(oc0, oc1);
      });
      vis([&](i64 id, int c, Fields &f) {
        f["Q"][0] = (i64)(mCR[at(c, (int)(id % nrow), (int)(id % ncol))] * 16.0);
        mCI[at(c, nrow - 1, ncol - 1)] = k + c;
      });
      break;
    }
    case CRED: {
      int w = (int)(o.salt / 4 % 3);
      on(o.set, [&](auto G) {
        auto ker = [=](auto V, auto R) {
          for (int x = 0; x < knr; x++)
            for (int y = 0; y < knc; y++)
              R.combine(x, y, V.at((x + y) % 4));
        };
        if (w == 0)
          particle_loop(G, ker, Access::read(Sym<REAL>("V")), Access::reduce(CR, Kernel::plus<REAL>()))->execute(oc0, oc1);
        else if (w == 1)
          particle_loop(G, ker, Access::read(Sym<REAL>("V")), Access::reduce(CR, Kernel::minimum<REAL>()))->execute(oc0, oc1);
        else
          particle_loop(G, ker, Access::read(Sym<REAL>("V")), Access::reduce(CR, Kernel::maximum<REAL>()))->execute(oc0, oc1);
      });
      vis([&](i64, int c, Fields &f) {
        for (int x = 0; x < nrow; x++)
          for (int y = 0; y < ncol; y++) {
            auto &b = mCR[at(c, x, y)];
            double v = dbl(f["V"][(x + y) % 4]);
            b = w == 0 ? b + v : w == 1 ? std::min(b, v) : std::max(b, v);
          }
      });
      break;
    }
    case CREDI: {
      int w = (int)(o.salt / 4 % 3);
      on(o.set, [&](auto G) {
        auto ker = [=](auto N, auto R) {
          for (int x = 0; x < knr; x++)
            for (int y = 0; y < knc; y++)
              R.combine(x, y, N.at((x + y) % 4));
          R.combine(0, 0, N.at(3));
        };
        if (w == 0)
          particle_loop(G, ker, Access::read(Sym<INT>("N")), Access::reduce(CI, Kernel::plus<INT>()))->execute(oc0, oc1);
        else if (w == 1)
          particle_loop(G, ker, Access::read(Sym<INT>("N")), Access::reduce(CI, Kernel::minimum<INT>()))->execute(oc0, oc1);
        else
          particle_loop(G, ker, Access::read(Sym<INT>("N")), Access::reduce(CI, Kernel::maximum<INT>()))->execute(oc0, oc1);
      });
      vis([&](i64, int c, Fields &f) {
        auto put = [&](int x, int y, i64 v) {
          auto &b = mCI[at(c, x, y)];
          b = w == 0 ? b + v : w == 1 ? std::min(b, v) : std::max(b, v);
        };
        for (int x = 0; x < nrow; x++)
          for (int y = 0; y < ncol; y++)
            put(x, y, f["N"][(x + y) % 4]);
        put(0, 0, f["N"][3]);
      });
      break;
    }
    case RDC: {
      int x = (int)gs.below(nrow), y = (int)gs.below(ncol), k = (int)gs.below(4);
      c0 = 0;
      c1 = ncell;
      on(o.set, [&](auto G) {
        reduce_dat_component_cellwise(G, Sym<REAL>("V"), k, CR, x, y, Kernel::plus<REAL>());
        reduce_dat_component_cellwise(G, Sym<INT>("N"), k, CI, x, y, Kernel::plus<INT>());
      });
      vis([&](i64, int c, Fields &f) {
        mCR[at(c, x, y)] += dbl(f["V"][k]);
        mCI[at(c, x, y)] += f["N"][k];
      });
      break;
    }
    case RDCS: {
      int w = (int)(o.salt / 4 % 3);
      c0 = 0;
      c1 = ncell;
      on(o.set, [&](auto G) {
        if (w == 0) {
          reduce_dat_components_cellwise(G, Sym<REAL>("RC"), CR, Kernel::plus<REAL>());
          reduce_dat_components_cellwise(G, Sym<INT>("IC"), CI, Kernel::plus<INT>());
        } else if (w == 1) {
          reduce_dat_components_cellwise(G, Sym<REAL>("RC"), CR, Kernel::minimum<REAL>());
          reduce_dat_components_cellwise(G, Sym<INT>("IC"), CI, Kernel::minimum<INT>());
        } else {
          reduce_dat_components_cellwise(G, Sym<REAL>("RC"), CR, Kernel::maximum<REAL>());
          reduce_dat_components_cellwise(G, Sym<INT>("IC"), CI, Kernel::maximum<INT>());
        }
      });
      vis([&](i64, int c, Fields &f) {
        for (int x = 0; x < nrow; x++)
          for (int y = 0; y < ncol; y++) {
            double v = dbl(f["RC"][x * ncol + y]);
            i64 n = f["IC"][x * ncol + y];
            auto &b = mCR[at(c, x, y)];
            auto &a = mCI[at(c, x, y)];
            b = w == 0 ? b + v : w == 1 ? std::min(b, v) : std::max(b, v);
            a = w == 0 ? a + n : w == 1 ? std::min(a, n) : std::max(a, n);
          }
      });
      break;
    }
    case NPART: {
      int x = (int)gs.below(nrow), y = (int)gs.below(ncol);
      c0 = 0;
      c1 = ncell;
      on(o.set, [&](auto G) { get_npart_cell(G, CI, x, y); });
      for (int c = 0; c < ncell; c++)
        mCI[at(c, x, y)] = 0;
      vis([&](i64, int c, Fields &) { mCI[at(c, x, y)]++; });
      break;
    }
    case EWISE: {
      const double k = (double)(o.salt % 16) / 16.0;
      if (o.salt & 256) {
        cell_dat_const_loop_element_wise(CR, [=](auto a, auto b, auto c) { return a - b + c + k; }, CR, C1, CI);
        for (int c = 0; c < ncell; c++)
          for (int x = 0; x < stride; x++)
            mCR[c * stride + x] = mCR[c * stride + x] - mC1[c] + (double)mCI[c * stride + x] + k;
      } else {
        cell_dat_const_loop_element_wise(C1, [=](auto a) { return a + k; }, C1);
        for (int c = 0; c < ncell; c++)
          mC1[c] += k;
      }
      break;
    }
    case BCAST: {
      std::vector<INT> v(ncell);
      for (auto &x : v)
        x = g.range(-1000, 1000);
      c0 = 0;
      c1 = ncell;
      on(o.set, [&](auto G) { cellwise_broadcast(G, Sym<INT>("Q"), 1, v); });
      vis([&](i64, int c, Fields &f) { f["Q"][1] = v[c]; });
      break;
    }
    case HOST: {
      int c = (int)g.below(ncell), x = (int)g.below(nrow), y = (int)g.below(ncol);
      switch (o.salt % 5) {
      case 0:
        CI->set_value(c, x, y, 17);
        mCI[at(c, x, y)] = 17;
        break;
      case 1: {
        auto d = CR->get_cell(c);
        for (int a = 0; a < nrow; a++)
          for (int b = 0; b < ncol; b++) {
            if (d->at(a, b) != mCR[at(c, a, b)])
              sim::violation("op %d (%s): cell %d element (%d,%d) is %.17g, expected %.17g", i, kn[o.k], c, a, b,
                             d->at(a, b), mCR[at(c, a, b)]);
            d->at(a, b) = a * 2 + b;
            mCR[at(c, a, b)] = a * 2 + b;
          }
        CR->set_cell(c, d);
        break;
      }
      case 2: {
        auto d = CI->get_all_cells();
        for (int cc = 0; cc < ncell; cc++)
          for (int a = 0; a < nrow; a++)
            for (int b = 0; b < ncol; b++) {
              d[cc]->at(a, b) = cc * 100 + a * 10 + b;
              mCI[at(cc, a, b)] = cc * 100 + a * 10 + b;
            }
        CI->set_all_cells(d);
        break;
      }
      case 3: {
        std::vector<INT> v(nl);
        for (int a = 0; a < nl; a++)
          v[a] = mLI[a] = g.range(-50, 50);
        LI->set(v);
        std::vector<INT> w(nd0 * nd1);
        for (int a = 0; a < nd0 * nd1; a++)
          w[a] = mND[a] = g.range(-50, 50);
        ND->set(w);
        break;
      }
      case 4:
        GI->fill((i64)(o.salt % 91));
        mGI.assign(ng, (i64)(o.salt % 91));
        CR->fill(2.5);
        mCR.assign(ncell * stride, 2.5);
        C1->fill(-1.0);
        mC1.assign(ncell, -1.0);
        break;
      }
      break;
    }
    }
    // everything readable by the host agrees with the models
    auto vLI = LI->get();
    auto vLR = LR->get();
    auto vND = ND->get();
    auto vCI = CI->get_all_cells();
    auto vCR = CR->get_all_cells();
    auto vGI = GI->get();
    auto vGR = GR->get();
    for (int k = 0; k < nl; k++) {
      if (vLI[k] != mLI[k])
        sim::violation("after op %d (%s): local array element %d is %lld, expected %lld", i, kn[o.k], k, (long long)vLI[k], (long long)mLI[k]);
      if (vLR[k] != mLR[k])
        sim::violation("after op %d (%s): real local array element %d is %.17g, expected %.17g", i, kn[o.k], k, vLR[k], mLR[k]);
    }
    for (int k = 0; k < nd0 * nd1; k++)
      if (vND[k] != mND[k])
        sim::violation("after op %d (%s): nd array element %d is %lld, expected %lld", i, kn[o.k], k, (long long)vND[k], (long long)mND[k]);
    for (int k = 0; k < ng; k++)
      if (vGI[k] != mGI[k] || vGR[k] != mGR[k])
        sim::violation("after op %d (%s): global array element %d changed unexpectedly", i, kn[o.k], k);
    for (int c = 0; c < ncell; c++)
      for (int x = 0; x < nrow; x++)
        for (int y = 0; y < ncol; y++) {
          if (vCI[c]->at(x, y) != mCI[at(c, x, y)])
            sim::violation("after op %d (%s): integer matrix of cell %d element (%d,%d) is %lld, expected %lld", i, kn[o.k],
                           c, x, y, (long long)vCI[c]->at(x, y), (long long)mCI[at(c, x, y)]);
          if (vCR[c]->at(x, y) != mCR[at(c, x, y)])
            sim::violation("after op %d (%s): real matrix of cell %d element (%d,%d) is %.17g, expected %.17g", i, kn[o.k],
                           c, x, y, vCR[c]->at(x, y), mCR[at(c, x, y)]);
        }
    if (o.k == LREAD || o.k == NDRW || o.k == GREAD || o.k == CRW || o.k == BCAST || o.k == MOVE || o.k == REM)
      S.check(kn[o.k], i);
    u64 st = (u64)o.k * 16 + (u64)o.set;
    for (int c = 0; c < ncell; c++)
      st = st * 1000003 + (u64)A->get_npart_cell(c);
    sim::state_hash(st);
    sim::counter(kn[o.k]);
  }
  S.check("end", (int)ops.size());
  sub.reset();
  whole.reset();
  A.reset();
  target.reset();
  LI.reset(); LR.reset(); ND.reset(); GI.reset(); GR.reset(); CI.reset(); CR.reset(); C1.reset();
  S.free();
}
void finish() {}
const char *judge_abort(const char *) { return "the library stopped on a valid input"; }
} // namespace simwl
