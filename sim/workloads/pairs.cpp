// P09: pair loops run every pair exactly once, pairs that share a particle never overlap and run in order.
// P10: pair samplers and the collision cell partition give well formed pairs of the requested particles.
#include "store.hpp"
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
enum OpK { ADD, REM, MOVE, PUSH, WAVES, TWOGROUPS, NTC, NOREP, FAIR, OK_N };
static const char *kn[] = {"add", "remove", "cell move", "pair loop over pushed pairs", "pair loop over waves",
                           "pair loop over two groups", "pair sampler with replacement", "pair sampler without replacement",
                           "pair sampler fairness"};
struct Op {
  int k, n, m;
  u64 salt;
};
static MeshSpec ms;
static std::vector<Op> ops;
void choose_knobs() {
  if (sim::chance(sim::S_CFG, 80))
    sim::K.nranks = 1;
  else if (sim::K.nranks > 3)
    sim::K.nranks = 2;
}
void plan() {
  seed_plan();
  Rng r = rng(1);
  ms = random_mesh(rng(2), sim::K.nranks == 1 && r.pct(50) ? 6 : 24);
  world_reset(ms);
  ops.clear();
  ops.push_back({ADD, (int)r.range(5, 90), 0, r.next()});
  int n = (int)r.range(3, 9);
  for (int i = 0; i < n; i++) {
#ifdef SIM_P10
    static const int w[OK_N] = {9, 6, 6, 2, 4, 0, 38, 31, 4};
#else
    static const int w[OK_N] = {8, 6, 6, 22, 28, 12, 14, 4, 0};
#endif
    int x = (int)r.below(100), k = 0;
    while (k < OK_N - 1 && x >= w[k])
      x -= w[k], k++;
    ops.push_back({k, (int)(r.pct(10) ? r.range(50, 160) : r.range(0, 40)), (int)r.below(8), r.next()});
  }
}
struct Pair {
  int cell, i, j, list, block, wave, seq;
};
static i64 mix(i64 a, i64 b, i64 c) { return (a * 3 + b * 5 + c) & 0xffffffffLL; }
void rank_main(int) {
  Store S(ms, {{"X", 1, false}, {"CNT", 1, false}, {"LAY", 1, false}, {"SP", 2, false}, {"CC", 2, false}});
  Store T(S, true);
  auto A = S.A;
  auto B = T.A;
  auto target = S.target;
  const int ncell = S.ncell;
  using ListS = CellwisePairListAbsolute<ParticleGroup, CellwisePairList>;
  using ListB = CellwisePairListAbsolute<ParticleGroup, CellwisePairListBlockInterface>;
  std::shared_ptr<CellwisePairListSimple> kept[2], kept_wave[2];
  // deterministic samples including the ends of the interval
  auto dist = std::make_shared<Rng>(rng(91, (u64)S.r, 5));
  auto plain = std::make_shared<bool>(false);
  auto gen = [dist, plain]() -> REAL {
    if (*plain)
      return (double)dist->below(1 << 20) / (double)(1 << 20);
    u64 x = dist->below(20);
    if (x == 0)
      return 0.0;
    if (x == 1)
      return 1.0;
    if (x == 2)
      return std::nextafter(1.0, 0.0);
    return (double)dist->below(1 << 20) / (double)(1 << 20);
  };
  auto rng_fn = std::make_shared<HostRNGGenerationFunction<REAL>>(gen);
  std::vector<std::shared_ptr<DSMC::PairSamplerNTC>> ntc = {
      std::make_shared<DSMC::PairSamplerNTC>(target, ncell, rng_fn),
      std::make_shared<DSMC::PairSamplerNTC>(target, ncell, rng_fn)};
  auto norep = std::make_shared<DSMC::PairSamplerNoReplacement>(target, ncell, rng_fn);
  // species labels are arbitrary user values; some particles carry a label that was not registered
  std::vector<INT> labels = {3, -7, 1000001};
  auto part = std::make_shared<DSMC::CollisionCellPartition>(target, ncell, labels);
  auto sub0 = particle_sub_group(A, [=](auto ID) { return ID.at(0) % 2 == 0; }, Access::read(Sym<INT>("ID")));
  auto sub1 = particle_sub_group(A, [=](auto ID) { return ID.at(0) % 2 != 0; }, Access::read(Sym<INT>("ID")));
  auto whole = particle_sub_group(A);
  auto set_layer = [&](ParticleGroupSharedPtr G) {
    particle_loop(G, [=](auto ix, auto L) { L.at(0) = ix.layer; }, Access::read(ParticleLoopIndex{}),
                  Access::write(Sym<INT>("LAY")))
        ->execute();
  };
  auto rows = [&](ParticleGroupSharedPtr G) {
    std::vector<std::vector<i64>> id(ncell);
    for (int c = 0; c < ncell; c++) {
      auto ID = G->get_cell(Sym<INT>("ID"), c);
      for (int l = 0; l < ID->nrow; l++)
        id[c].push_back(ID->at(l, 0));
    }
    return id;
  };
  // run a pair loop over the lists and compare with executing the pairs one after another
  int cur = 0;
  auto run = [&](auto lists, std::vector<Pair> &pairs, Store &SA, Store &SB, u64 salt, int ncomp) {
    auto GA = SA.A, GB = SB.A;
    set_layer(GA);
    if (GB != GA)
      set_layer(GB);
    auto ida = rows(GA), idb = rows(GB);
    for (int c = 0; c < ncell; c++) {
      for (int l = 0; l < (int)ida[c].size(); l++)
        SA.f(ida[c][l], "LAY") = l;
      for (int l = 0; l < (int)idb[c].size(); l++)
        SB.f(idb[c][l], "LAY") = l;
    }
    const int np = (int)pairs.size();
    Rng g = rng(salt, (u64)S.r, 77);
    int c0 = 0, c1 = ncell;
    int rk = (int)(salt % 4);
    if (rk == 1) {
      c0 = (int)g.below(ncell);
      c1 = c0 + 1;
    } else if (rk == 2) {
      c0 = (int)g.below(ncell);
      c1 = (int)g.range(c0 + 1, ncell);
    }
    auto la = std::make_shared<LocalArray<INT>>(target, std::max(1, 4 * np));
    la->fill(0);
    auto lr = std::make_shared<LocalArray<REAL>>(target, std::max(1, ncomp * np));
    lr->fill(-1.0);
    auto lsum = std::make_shared<LocalArray<INT>>(target, 1);
    lsum->fill(0);
    auto count = std::make_shared<i64>(0);
    auto krng = host_per_particle_block_rng<REAL>([count]() -> REAL { return (REAL)((*count)++); }, ncomp,
                                                  (int)g.range(1, 40));
    auto loop = particle_pair_loop(
        "pairs", lists,
        [=](auto IX, auto IDA, auto IDB, auto XA, auto XB, auto CA, auto CB, auto LAYA, auto LAYB, auto CELL, auto LA,
            auto LR, auto LS, auto R) {
          const INT ix = IX.get_loop_linear_index();
          const INT xa = XA.at(0);
          const INT xb = XB.at(0);
          XA.at(0) = (xa * 3 + xb * 5 + IDB.at(0)) & 0xffffffffLL;
          XB.at(0) = (xb * 3 + xa * 5 + IDA.at(0)) & 0xffffffffLL;
          CA.at(0) = CA.at(0) + 1;
          CB.at(0) = CB.at(0) + 1;
          LA.at(4 * ix + 0) = LA.at(4 * ix + 0) + 1;
          LA.at(4 * ix + 1) = CELL.at(0);
          LA.at(4 * ix + 2) = LAYA.at(0);
          LA.at(4 * ix + 3) = LAYB.at(0);
          for (int k = 0; k < ncomp; k++) {
            bool ok = true;
            LR.at(ix * ncomp + k) = R.at(IX, k, &ok);
          }
          LS.fetch_add(0, 1);
        },
        Access::read(ParticlePairLoopIndex{}), Access::A(Access::read(Sym<INT>("ID"))),
        Access::B(Access::read(Sym<INT>("ID"))), Access::A(Access::write(Sym<INT>("X"))),
        Access::B(Access::write(Sym<INT>("X"))), Access::A(Access::write(Sym<INT>("CNT"))),
        Access::B(Access::write(Sym<INT>("CNT"))), Access::A(Access::read(Sym<INT>("LAY"))),
        Access::B(Access::read(Sym<INT>("LAY"))), Access::A(Access::read(Sym<INT>("CELL_ID"))), Access::write(la),
        Access::write(lr), Access::add(lsum), Access::read(krng));
    int times = g.pct(25) ? 2 : 1;
    for (int t = 0; t < times; t++) {
      if (t) {
        la->fill(0);
        lr->fill(-1.0);
        lsum->fill(0);
        *count = 0;
      }
      bool split = g.pct(40);
      if (rk == 1)
        split ? (loop->submit(c0), loop->wait()) : loop->execute(c0);
      else if (rk == 2)
        split ? (loop->submit(c0, c1), loop->wait()) : loop->execute(c0, c1);
      else
        split ? (loop->submit(), loop->wait()) : loop->execute();
      auto h = la->get();
      auto hr = lr->get();
      i64 total = lsum->get()[0];
      sim::CoreGuard cg;
      // conflicting pairs run in the order of their block and wave
      std::stable_sort(pairs.begin(), pairs.end(), [](const Pair &a, const Pair &b) {
        return std::tie(a.cell, a.block, a.wave, a.seq) < std::tie(b.cell, b.block, b.wave, b.seq);
      });
      std::map<std::tuple<int, int, int>, int> want;
      i64 nwant = 0;
      for (auto &p : pairs) {
        if (p.cell < c0 || p.cell >= c1)
          continue;
        nwant++;
        want[{p.cell, p.i, p.j}]++;
        i64 a = ida[p.cell][p.i], b = idb[p.cell][p.j];
        i64 xa = SA.f(a, "X"), xb = SB.f(b, "X");
        SA.f(a, "X") = mix(xa, xb, b);
        SB.f(b, "X") = mix(xb, xa, a);
        SA.f(a, "CNT") += 1;
        SB.f(b, "CNT") += 1;
      }
      if (total != nwant)
        sim::violation("op %d (%s): the kernel ran %lld times for %lld pairs of cells [%d,%d)", cur, kn[ops[cur].k],
                       (long long)total, (long long)nwant, c0, c1);
      std::set<i64> used;
      for (int ix = 0; ix < np; ix++) {
        i64 n = h[4 * ix];
        if (n > 1)
          sim::violation("op %d (%s): pair index %d was given to %lld pairs", cur, kn[ops[cur].k], ix, (long long)n);
        if (!n) {
          if (c0 == 0 && c1 == ncell)
            sim::violation("op %d (%s): pair index %d of %d was never used", cur, kn[ops[cur].k], ix, np);
          continue;
        }
        auto key = std::make_tuple((int)h[4 * ix + 1], (int)h[4 * ix + 2], (int)h[4 * ix + 3]);
        auto it = want.find(key);
        if (it == want.end() || it->second-- <= 0)
          sim::violation("op %d (%s): the kernel ran for cell %d rows %d and %d more often than listed", cur,
                         kn[ops[cur].k], std::get<0>(key), std::get<1>(key), std::get<2>(key));
        for (int k = 0; k < ncomp; k++) {
          double v = hr[ix * ncomp + k];
          if (v < 0 || v >= (double)*count || v != std::floor(v) || !used.insert((i64)v).second)
            sim::violation("op %d (%s): pair index %d component %d received sample %g which was not drawn for it", cur,
                           kn[ops[cur].k], ix, k, v);
        }
      }
    }
    sim::counter("pairs executed", (u64)np);
    for (auto &p : pairs)
      if (p.wave > 0) {
        sim::counter("pairs in later waves");
      }
  };
  for (int i = 0; i < (int)ops.size(); i++) {
    const Op &o = ops[i];
    if (!sim::op_enabled(i))
      continue;
    sim::op_begin(i, kn[o.k]);
    cur = i;
    Rng g = rng(o.salt, (u64)S.r, 3);
    switch (o.k) {
    case ADD:
      S.add((int)g.range(0, o.n), o.salt);
      if (o.m < 3)
        T.add((int)g.range(0, o.n / 2 + 1), o.salt ^ 5);
      break;
    case REM:
      S.remove([&](i64 id) { return chosen(o.salt, id); }, o.salt);
      break;
    case MOVE:
      S.move([&](i64 id) { return chosen(o.salt, id); }, o.salt);
      break;
    case PUSH:
    case TWOGROUPS: {
      // pairs that share no particle, spread over one or two lists and any number of calls
      Store &SB = o.k == PUSH ? S : T;
      auto ida = rows(S.A), idb = rows(SB.A);
      int nl = 1 + (o.m & 1);
      std::vector<ListS> lists;
      std::vector<Pair> pairs;
      const bool reuse = (o.m & 2) != 0;
      std::vector<std::shared_ptr<CellwisePairListSimple>> L;
      for (int l = 0; l < nl; l++) {
        if (!kept[l] || !reuse)
          kept[l] = std::make_shared<CellwisePairListSimple>(target, ncell);
        else if (g.pct(70))
          kept[l]->clear();
        else
          kept[l] = std::make_shared<CellwisePairListSimple>(target, ncell);
        if (kept_wave[l] && g.pct(20)) {
          // a list that held waves before
          std::swap(kept[l], kept_wave[l]);
          kept[l]->clear();
          kept_wave[l]->clear();
        }
        L.push_back(kept[l]);
        lists.push_back(ListS(S.A, SB.A, L[l]));
      }
      std::vector<std::vector<int>> vc(nl), vi(nl), vj(nl);
      int dens = (int)g.range(0, 3);
      for (int c = 0; c < ncell; c++) {
        if (dens == 0 && g.pct(70))
          continue;
        std::vector<int> a(ida[c].size()), b(idb[c].size());
        for (size_t k = 0; k < a.size(); k++)
          a[k] = (int)k;
        for (size_t k = 0; k < b.size(); k++)
          b[k] = (int)k;
        for (size_t k = a.size(); k > 1; k--)
          std::swap(a[k - 1], a[g.below(k)]);
        for (size_t k = b.size(); k > 1; k--)
          std::swap(b[k - 1], b[g.below(k)]);
        size_t np = o.k == PUSH ? a.size() / 2 : std::min(a.size(), b.size());
        if (dens == 1)
          np = np ? g.below(np + 1) : 0;
        for (size_t k = 0; k < np; k++) {
          int x = o.k == PUSH ? a[2 * k] : a[k], y = o.k == PUSH ? a[2 * k + 1] : b[k];
          int l = (int)g.below(nl);
          vc[l].push_back(c);
          vi[l].push_back(x);
          vj[l].push_back(y);
          pairs.push_back({c, x, y, l, 0, 0, (int)pairs.size()});
        }
      }
      for (int l = 0; l < nl; l++) {
        // cells in any order, split over several calls
        size_t n = vc[l].size();
        for (size_t k = n; k > 1; k--) {
          size_t q = g.below(k);
          std::swap(vc[l][k - 1], vc[l][q]);
          std::swap(vi[l][k - 1], vi[l][q]);
          std::swap(vj[l][k - 1], vj[l][q]);
        }
        size_t k = 0;
        if (g.pct(10))
          L[l]->push_back({}, {}, {});
        while (k < n) {
          size_t e = g.pct(50) ? n : k + 1 + g.below(n - k);
          L[l]->push_back(std::vector<int>(vc[l].begin() + k, vc[l].begin() + e),
                          std::vector<int>(vi[l].begin() + k, vi[l].begin() + e),
                          std::vector<int>(vj[l].begin() + k, vj[l].begin() + e));
          k = e;
        }
        auto H = L[l]->get_host_pair_list();
        sim::CoreGuard cg;
        std::map<int, std::pair<std::vector<int>, std::vector<int>>> want;
        for (size_t q = 0; q < n; q++) {
          want[vc[l][q]].first.push_back(vi[l][q]);
          want[vc[l][q]].second.push_back(vj[l][q]);
        }
        for (int c = 0; c < ncell; c++)
          if (want[c] != H[c][0] || H[c].size() > 1)
            sim::violation("op %d (%s): list %d does not return the pairs pushed for cell %d", i, kn[o.k], l, c);
      }
      run(lists, pairs, S, SB, o.salt, (int)g.range(0, 3));
      break;
    }
    case WAVES: {
      // arbitrary pairs, many sharing particles: the order of pushing is the order of execution
      auto ida = rows(S.A);
      int nl = 1 + (o.m & 1);
      std::vector<ListS> lists;
      std::vector<Pair> pairs;
      for (int l = 0; l < nl; l++) {
        if (!kept_wave[l] || (o.m & 4))
          kept_wave[l] = std::make_shared<CellwisePairListSimple>(target, ncell);
        auto host = std::make_shared<CellwisePairListHost>(ncell);
        if (g.pct(20)) {
          if (ncell)
            host->push_back(0, 0, 1);
          host->clear();
        }
        int hub = (int)g.below(3);
        for (int c = 0; c < ncell; c++) {
          std::vector<int> a;
          for (int k = 0; k < (int)ida[c].size(); k++)
            if (nl == 1 || (k % 2) == l)
              a.push_back(k);
          if (a.size() < 2 || g.pct(25))
            continue;
          int np = (int)g.range(0, (int)std::min<size_t>(30, a.size() * 2));
          for (int k = 0; k < np; k++) {
            int x = hub == 1 ? a[0] : a[g.below(a.size())], y = a[g.below(a.size())];
            if (x == y)
              continue;
            host->push_back(c, x, y);
            pairs.push_back({c, std::min(x, y), std::max(x, y), l, 0, 0, (int)pairs.size()});
          }
        }
        kept_wave[l]->set(host);
        lists.push_back(ListS(S.A, S.A, kept_wave[l]));
        auto H = kept_wave[l]->get_host_pair_list();
        sim::CoreGuard cg;
        std::map<std::tuple<int, int, int>, int> want;
        for (auto &p : pairs)
          if (p.list == l)
            want[{p.cell, p.i, p.j}]++;
        for (auto &kc : H)
          for (auto &kw : kc.second) {
            std::set<int> seen;
            for (size_t q = 0; q < kw.second.first.size(); q++) {
              int x = kw.second.first[q], y = kw.second.second[q];
              if (!seen.insert(x).second || !seen.insert(y).second)
                sim::violation("op %d (%s): two pairs of one wave share a particle in cell %d", i, kn[o.k], kc.first);
              if (want[{kc.first, x, y}]-- <= 0)
                sim::violation("op %d (%s): the list holds pair (%d,%d) of cell %d which was not pushed", i, kn[o.k], x,
                               y, kc.first);
            }
          }
        for (auto &kv : want)
          if (kv.second)
            sim::violation("op %d (%s): a pushed pair of cell %d is missing", i, kn[o.k], std::get<0>(kv.first));
      }
      run(lists, pairs, S, S, o.salt, (int)g.range(0, 3));
      break;
    }
    case NTC: {
      auto ida = rows(S.A);
      int mode = o.m % 4; // 0 whole/whole 1 sub0/sub0 2 sub0/sub1 3 two lists sub0/sub0 sub1/sub1
      std::vector<ListB> lists;
      std::vector<Pair> pairs;
      int nl = mode == 3 ? 2 : 1;
      int dens = (int)g.below(3);
      for (int l = 0; l < nl; l++) {
        auto ga = mode == 0 ? std::dynamic_pointer_cast<ParticleSubGroup>(whole) : (l == 1 ? sub1 : sub0);
        auto gb = mode == 2 ? sub1 : ga;
        auto ina = [&](i64 id) { return mode == 0 || (id % 2 == 0) == (l == 0); };
        auto inb = [&](i64 id) { return mode == 2 ? id % 2 != 0 : ina(id); };
        std::vector<int> npair(ncell, 0);
        for (int c = 0; c < ncell; c++) {
          int na = 0, nb = 0;
          for (i64 id : ida[c])
            na += ina(id), nb += inb(id);
          bool can = mode == 2 ? na && nb : na > 1;
          if (can && !(dens == 0 && g.pct(60)))
            npair[c] = (int)g.range(0, dens == 2 ? 40 : 8);
        }
        ntc[l]->sample(ga, gb, npair);
        if (!ntc[l]->validate_pair_list(target))
          sim::violation("op %d (%s): the sampled list does not validate", i, kn[o.k]);
        auto H = ntc[l]->get_host_pair_list(target);
        auto dev = ntc[l]->get_pair_list();
        std::vector<int> occ;
        ntc[l]->get_wave_occupancy_counts(target, occ);
        std::vector<int> occg;
        get_global_wave_occupancy_counts(target, occ, occg);
        sim::CoreGuard cg;
        const int bs = dev.block_size;
        std::vector<int> wocc((size_t)bs + 1, 0);
        for (int c = 0; c < ncell; c++) {
          auto &vi = std::get<0>(H[c]);
          auto &vj = std::get<1>(H[c]);
          auto &vw = std::get<2>(H[c]);
          if ((int)vi.size() != npair[c] || vj.size() != vi.size() || vw.size() != vi.size())
            sim::violation("op %d (%s): %zu pairs in cell %d, %d were requested", i, kn[o.k], vi.size(), c, npair[c]);
          std::map<std::pair<int, int>, std::set<int>> seen;
          std::map<std::pair<int, int>, int> per;
          std::map<int, int> nw;
          for (size_t q = 0; q < vi.size(); q++) {
            int x = vi[q], y = vj[q], w = vw[q], b = (int)q / bs;
            if (x < 0 || y < 0 || x >= (int)ida[c].size() || y >= (int)ida[c].size())
              sim::violation("op %d (%s): pair (%d,%d) of cell %d names no particle", i, kn[o.k], x, y, c);
            if (x == y || !ina(ida[c][x]) || !inb(ida[c][y]))
              sim::violation("op %d (%s): pair (%d,%d) of cell %d is not a pair of the requested particles", i, kn[o.k],
                             x, y, c);
            if (w < 0 || !seen[{b, w}].insert(x).second || !seen[{b, w}].insert(y).second)
              sim::violation("op %d (%s): two pairs of one wave share a particle in cell %d", i, kn[o.k], c);
            per[{b, w}]++;
            nw[b] = std::max(nw[b], w + 1);
            pairs.push_back({c, x, y, l, b, w, (int)pairs.size()});
          }
          for (auto &kv : nw)
            for (int w = 0; w < kv.second; w++)
              wocc[(size_t)per[{kv.first, w}]]++;
        }
        if (occ != wocc)
          sim::violation("op %d (%s): wave occupancy counts differ from the sampled list", i, kn[o.k]);
        sim::counter("sampled pairs", pairs.size());
        lists.push_back(ListB(S.A, S.A, ntc[l]));
      }
      run(lists, pairs, S, S, o.salt, (int)g.range(0, 2));
      break;
    }
    case FAIR: {
      // uniform samples: every admissible pair is chosen equally often (bounds with error probability below 1e-14)
      auto ida = rows(S.A);
      *plain = true;
      if (o.m % 2) {
        int mode = (int)g.below(3); // 0 whole/whole 1 sub0/sub0 2 sub0/sub1
        auto ga = mode == 0 ? std::dynamic_pointer_cast<ParticleSubGroup>(whole) : sub0;
        auto gb = mode == 2 ? sub1 : ga;
        std::vector<int> npair(ncell, 0);
        std::vector<std::vector<int>> la(ncell), lb(ncell);
        int used = 0;
        for (int c = 0; c < ncell; c++) {
          for (int l = 0; l < (int)ida[c].size(); l++) {
            if (mode == 0 || ida[c][l] % 2 == 0)
              la[c].push_back(l);
            if (mode == 0 || (ida[c][l] % 2 == 0) == (mode == 1))
              lb[c].push_back(l);
          }
          int K = (int)(mode == 2 ? la[c].size() * lb[c].size() : la[c].size() * (la[c].size() - (la[c].size() ? 1 : 0)));
          if (K > 0 && K <= 20 && used < 4) {
            npair[c] = 400 * K;
            used++;
          }
        }
        if (used) {
          ntc[0]->sample(ga, gb, npair);
          auto H = ntc[0]->get_host_pair_list(target);
          sim::CoreGuard cg;
          for (int c = 0; c < ncell; c++)
            if (npair[c]) {
              std::map<std::pair<int, int>, int> n;
              auto &vi = std::get<0>(H[c]);
              auto &vj = std::get<1>(H[c]);
              // within one set only the unordered pair counts
              auto key = [&](int x, int y) { return mode == 2 || x < y ? std::make_pair(x, y) : std::make_pair(y, x); };
              for (size_t q = 0; q < vi.size(); q++)
                n[key(vi[q], vj[q])]++;
              const double mean = mode == 2 ? 400 : 800, dev = 8 * std::sqrt(mean) + 8;
              for (int x : la[c])
                for (int y : lb[c])
                  if (x != y && (std::abs(n[key(x, y)] - mean) > dev))
                    sim::violation("op %d (%s): the pair (%d,%d) of cell %d was sampled %d times, about %d times expected", i,
                                   kn[o.k], x, y, c, n[key(x, y)], (int)mean);
            }
          sim::counter("pairs sampled for fairness");
        }
      } else if (A->get_npart_local() > 0) {
        // one collision cell per mesh cell; the species follow the parity of the id
        for (int c = 0; c < ncell; c++) {
          auto SP = A->get_cell(Sym<INT>("SP"), c);
          auto CC = A->get_cell(Sym<INT>("CC"), c);
          for (int l = 0; l < SP->nrow; l++) {
            S.f(ida[c][l], "SP", 0) = SP->at(l, 0) = ida[c][l] % 2 ? -7 : 3;
            S.f(ida[c][l], "CC", 0) = CC->at(l, 0) = 0;
          }
          if (SP->nrow) {
            A->get_dat(Sym<INT>("SP"))->cell_dat.set_cell(c, SP);
            A->get_dat(Sym<INT>("CC"))->cell_dat.set_cell(c, CC);
          }
        }
        std::vector<int> ones(ncell, 1);
        part->construct(whole, ones, Sym<INT>("SP"), 0, Sym<INT>("CC"), 0);
        const bool same = g.pct(50);
        std::vector<std::vector<int>> la(ncell), lb(ncell), cnt(ncell, std::vector<int>(1, 0));
        std::vector<int> K(ncell, 0);
        std::vector<std::map<std::pair<int, int>, int>> n(ncell);
        int used = 0, kmax = 0;
        for (int c = 0; c < ncell; c++) {
          for (int l = 0; l < (int)ida[c].size(); l++) {
            if (ida[c][l] % 2 == 0)
              la[c].push_back(l);
            if ((ida[c][l] % 2 == 0) == same)
              lb[c].push_back(l);
          }
          int k = (int)(same ? la[c].size() * (la[c].size() - (la[c].size() ? 1 : 0)) : la[c].size() * lb[c].size());
          int m = (int)(same ? la[c].size() / 2 : std::min(la[c].size(), lb[c].size()));
          if (k > 0 && k <= 6 && used < 3) {
            K[c] = k;
            kmax = std::max(kmax, k);
            cnt[c][0] = g.pct(60) ? 1 : m;
            used++;
          }
        }
        auto key = [&](int x, int y) { return !same || x < y ? std::make_pair(x, y) : std::make_pair(y, x); };
        for (int t = 0; t < 40 * kmax; t++) {
          norep->sample(part, 3, same ? 3 : -7, cnt);
          auto H = norep->get_host_pair_list();
          sim::CoreGuard cg;
          for (int c = 0; c < ncell; c++)
            if (K[c])
              for (size_t q = 0; q < H[c][0].first.size(); q++)
                n[c][key(H[c][0].first[q], H[c][0].second[q])]++;
        }
        sim::CoreGuard cg;
        for (int c = 0; c < ncell; c++)
          if (K[c]) {
            const double mean = (same ? 80.0 : 40.0) * kmax * cnt[c][0] / K[c];
            for (int x : la[c])
              for (int y : lb[c])
                if (x != y && (n[c][key(x, y)] < 3 || n[c][key(x, y)] > mean + 10 * std::sqrt(mean) + 10))
                  sim::violation("op %d (%s): the pair (%d,%d) of cell %d was sampled %d times without replacement, about "
                                 "%d times expected",
                                 i, kn[o.k], x, y, c, n[c][key(x, y)], (int)mean);
            sim::counter("pairs sampled for fairness");
          }
      }
      *plain = false;
      break;
    }
    case NOREP: {
      // assign species and collision cells, then partition and sample
      const int ncoll = g.pct(40) ? 1 : (int)g.range(1, 4), comp_s = (int)g.below(2), comp_c = (int)g.below(2);
      std::vector<int> cc(ncell);
      for (auto &x : cc)
        x = (int)g.range(1, ncoll);
      auto ida = rows(S.A);
      std::vector<i64> sp = {3, -7, 1000001, 12};
      for (int c = 0; c < ncell; c++) {
        auto SP = A->get_cell(Sym<INT>("SP"), c);
        auto CC = A->get_cell(Sym<INT>("CC"), c);
        for (int l = 0; l < SP->nrow; l++) {
          i64 id = ida[c][l];
          Rng h = rng(o.salt, (u64)id, 31);
          S.f(id, "SP", comp_s) = SP->at(l, comp_s) = sp[h.pct(8) ? 3 : h.pct(60) ? 0 : h.below(o.m < 4 ? 2 : 3)];
          S.f(id, "CC", comp_c) = CC->at(l, comp_c) = (i64)h.below(cc[c]);
        }
        if (SP->nrow) {
          A->get_dat(Sym<INT>("SP"))->cell_dat.set_cell(c, SP);
          A->get_dat(Sym<INT>("CC"))->cell_dat.set_cell(c, CC);
        }
      }
      int which = (int)g.below(3);
      auto in = [&](i64 id) { return which == 0 || (id % 2 == 0) == (which == 1); };
      part->construct(which == 0 ? std::dynamic_pointer_cast<ParticleSubGroup>(whole) : which == 1 ? sub0 : sub1, cc,
                      Sym<INT>("SP"), comp_s, Sym<INT>("CC"), comp_c);
      // the partition itself
      std::map<std::tuple<int, int, i64>, std::set<int>> want;
      size_t maxo = 0;
      for (int c = 0; c < ncell; c++)
        for (int l = 0; l < (int)ida[c].size(); l++)
          if (in(ida[c][l]))
            want[{c, (int)S.f(ida[c][l], "CC", comp_c), S.f(ida[c][l], "SP", comp_s)}].insert(l);
      const int mx = (int)part->max_num_collision_cells;
      const int npt = (int)A->get_npart_local();
      {
        BufferDevice<INT> dn(target, (size_t)std::max(1, ncell * mx * 3)), dl(target, (size_t)(npt + 1));
        auto kd = part->get_device();
        INT *kn_ = dn.ptr, *kl = dl.ptr;
        INT lin[3];
        for (int s = 0; s < 3; s++)
          lin[s] = part->get_linear_species_id(labels[s]);
        const INT l0 = lin[0], l1 = lin[1], l2 = lin[2];
        target->queue
            .parallel_for<>(sycl::range<1>((size_t)ncell),
                            [=](sycl::id<1> ix) {
                              for (int cx = 0; cx < mx; cx++)
                                for (int s = 0; s < 3; s++) {
                                  const INT ls = s == 0 ? l0 : s == 1 ? l1 : l2;
                                  const INT n = kd.get_num_particles_cell_species((INT)ix[0], cx, ls);
                                  kn_[((INT)ix[0] * mx + cx) * 3 + s] = n;
                                  const INT base = kd.d_collision_cell_offsets[kd.get_offset_cell_species((INT)ix[0], cx, ls)];
                                  for (INT q = 0; q < n; q++)
                                    kl[base + q] = kd.get_particle_layer((INT)ix[0], cx, ls, q);
                                }
                            })
            .wait_and_throw();
        auto hn = dn.get();
        auto hl = dl.get();
        std::vector<INT> off((size_t)(ncell * mx * 3 + 1));
        target->queue.memcpy(off.data(), kd.d_collision_cell_offsets, off.size() * sizeof(INT)).wait_and_throw();
        sim::CoreGuard cg;
        for (int c = 0; c < ncell; c++)
          for (int cx = 0; cx < mx; cx++)
            for (int s = 0; s < 3; s++) {
              auto &w = want[{c, cx, labels[s]}];
              maxo = std::max(maxo, w.size());
              INT n = hn[(size_t)((c * mx + cx) * 3 + s)];
              if (n != (INT)w.size())
                sim::violation("op %d (%s): the partition counts %lld particles in cell %d collision cell %d species "
                               "%lld, expected %zu",
                               i, kn[o.k], (long long)n, c, cx, (long long)labels[s], w.size());
              std::set<int> got;
              INT base = off[(size_t)kd.get_offset_cell_species(c, cx, lin[s])];
              for (INT q = 0; q < n; q++)
                got.insert((int)hl[(size_t)(base + q)]);
              if (got != w)
                sim::violation("op %d (%s): the partition lists the wrong particles in cell %d collision cell %d", i,
                               kn[o.k], c, cx);
            }
        if (part->max_collision_cell_occupancy != (INT)maxo)
          sim::violation("op %d (%s): maximum collision cell occupancy is %lld, expected %zu", i, kn[o.k],
                         (long long)part->max_collision_cell_occupancy, maxo);
      }
      int sa = g.pct(50) ? 0 : (int)g.below(3), sb = g.pct(50) ? sa : (int)g.below(3);
      std::vector<std::vector<int>> cnt;
      bool repl = g.pct(30);
      part->get_max_num_pairs(labels[sa], labels[sb], repl, cnt);
      {
        sim::CoreGuard cg;
        for (int c = 0; c < ncell; c++)
          for (int cx = 0; cx < cc[c]; cx++) {
            int na = (int)want[{c, cx, labels[sa]}].size(), nb = (int)want[{c, cx, labels[sb]}].size();
            int w = sa == sb ? na / 2 : std::min(na, nb);
            if (repl)
              w = (sa == sb ? na >= 2 : (na >= 1 && nb >= 1)) ? std::numeric_limits<int>::max() : 0;
            if (cnt[c][cx] != w)
              sim::violation("op %d (%s): at most %d pairs reported for cell %d collision cell %d, expected %d", i,
                             kn[o.k], cnt[c][cx], c, cx, w);
            if (repl)
              cnt[c][cx] = sa == sb ? na / 2 : std::min(na, nb);
          }
      }
      int dens = (int)g.below(3);
      for (auto &v : cnt)
        for (auto &x : v)
          if (dens == 0)
            x = x ? (int)g.below(x + 1) : 0;
          else if (dens == 1 && g.pct(60))
            x = 0;
      norep->sample(part, labels[sa], labels[sb], cnt);
      auto H = norep->get_host_pair_list();
      std::vector<Pair> pairs;
      {
        sim::CoreGuard cg;
        for (int c = 0; c < ncell; c++) {
          std::set<int> seen;
          std::vector<int> got(cc[c], 0);
          auto &v = H[c][0];
          if (H[c].size() > 1)
            sim::violation("op %d (%s): pairs without replacement need no second wave", i, kn[o.k]);
          for (size_t q = 0; q < v.first.size(); q++) {
            int x = v.first[q], y = v.second[q];
            if (x < 0 || y < 0 || x >= (int)ida[c].size() || y >= (int)ida[c].size())
              sim::violation("op %d (%s): pair (%d,%d) of cell %d names no particle", i, kn[o.k], x, y, c);
            i64 a = ida[c][x], b = ida[c][y];
            if (!in(a) || !in(b) || S.f(a, "SP", comp_s) != labels[sa] || S.f(b, "SP", comp_s) != labels[sb])
              sim::violation("op %d (%s): pair (%d,%d) of cell %d has the wrong species", i, kn[o.k], x, y, c);
            if (S.f(a, "CC", comp_c) != S.f(b, "CC", comp_c))
              sim::violation("op %d (%s): pair (%d,%d) of cell %d spans two collision cells", i, kn[o.k], x, y, c);
            if (!seen.insert(x).second || !seen.insert(y).second)
              sim::violation("op %d (%s): a particle of cell %d was sampled twice", i, kn[o.k], c);
            got[(size_t)S.f(a, "CC", comp_c)]++;
            pairs.push_back({c, x, y, 0, 0, 0, (int)pairs.size()});
          }
          for (int cx = 0; cx < cc[c]; cx++)
            if (got[cx] != cnt[c][cx])
              sim::violation("op %d (%s): %d pairs sampled in cell %d collision cell %d, %d were requested", i, kn[o.k],
                             got[cx], c, cx, cnt[c][cx]);
        }
        sim::counter("sampled pairs without replacement", pairs.size());
      }
      std::vector<ListS> lists = {ListS(S.A, S.A, norep)};
      run(lists, pairs, S, S, o.salt, (int)g.range(0, 2));
      break;
    }
    }
    S.check(kn[o.k], i);
    T.check("second group", i);
    u64 st = (u64)o.k * 16 + (u64)o.m;
    for (int c = 0; c < ncell; c++)
      st = st * 1000003 + (u64)A->get_npart_cell(c);
    sim::state_hash(st);
    sim::counter(kn[o.k]);
  }
  for (int l = 0; l < 2; l++)
    kept[l].reset(), kept_wave[l].reset();
  ntc.clear();
  norep.reset();
  part.reset();
  sub0.reset();
  sub1.reset();
  whole.reset();
  A.reset();
  B.reset();
  T.free_group();
  S.free();
}
void finish() {}
const char *judge_abort(const char *) { return "the library stopped on a valid input"; }
} // namespace simwl
