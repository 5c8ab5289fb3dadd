// P12: particles made by kernels - product matrices, descendant products, device particle sets.
#include "store.hpp"
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
enum OpK { ADD, REM, MOVE, PM, DP, PMADD, PSD, OK_N };
static const char *kn[] = {"add", "remove", "cell move", "product matrix", "descendant products", "concurrent product sums",
                           "device particle set"};
static const int wt[OK_N] = {8, 8, 6, 24, 38, 8, 8};
enum Set { GROUP, WHOLE, SUB, SET_N };
struct Op {
  int k, n, set;
  u64 salt;
};
static MeshSpec ms;
static std::vector<Op> ops;
void choose_knobs() {
  choose_big(3);
  if (sim::K.nranks > 2)
    sim::K.nranks = 1 + (i64)sim::rnd_below(sim::S_CFG, 2);
}
void plan() {
  seed_plan();
  Rng r = rng(1);
  ms = random_mesh(rng(2), 30);
  world_reset(ms);
  int tot = 0;
  for (int k = 0; k < OK_N; k++)
    tot += wt[k];
  ops.clear();
  if (r.pct(90))
    ops.push_back({ADD, first_add(r, 60), 0, r.next()});
  int n = (int)r.range(3, 9);
  for (int i = 0; i < n; i++) {
    int x = (int)r.below(tot), k = 0;
    while (k < OK_N - 1 && x >= wt[k])
      x -= wt[k], k++;
    ops.push_back({k, (int)(r.pct(15) ? r.range(30, 120) : r.range(0, 30)), (int)r.below(SET_N), r.next()});
  }
}
// the properties a product specifies itself, in a random order
struct PSpec {
  std::vector<DatSpec> d;
  std::map<std::pair<std::string, int>, i64> def;
  std::shared_ptr<ProductMatrixSpec> s;
  bool has(const char *n) const {
    for (auto &e : d)
      if (e.name == n)
        return true;
    return false;
  }
  int idx(const char *n, bool real) const { return real ? s->get_sym_index(Sym<REAL>(n)) : s->get_sym_index(Sym<INT>(n)); }
};
static PSpec make_spec(Rng g, int ndim) {
  PSpec p;
  p.d = {{"ID", 1, false}, {"PAR", 2, false}};
  auto opt = [&](DatSpec s, int pct) {
    if (g.pct(pct))
      p.d.push_back(s);
  };
  opt({"N", 2, false}, 50);
  opt({"M", 3, false}, 40);
  opt({"CELL_ID", 1, false}, 40);
  opt({"V", 3, true}, 50);
  opt({"X", 1, true}, 50);
  opt({"P", ndim, true}, 30);
  for (size_t i = p.d.size(); i-- > 1;)
    std::swap(p.d[i], p.d[(size_t)g.below((i64)i + 1)]);
  std::vector<DatSpec> e = p.d;
  ParticleSpec ps = to_spec(e);
  p.s = product_matrix_spec(ps);
  for (auto &e2 : p.d)
    for (int c = 0; c < e2.ncomp; c++)
      if (e2.name == "CELL_ID") {
        p.s->set_default_value(Sym<INT>(e2.name), c, -1);
        p.def[{e2.name, c}] = -1;
      } else if (g.pct(40)) {
        i64 v = g.range(-50, 50);
        if (e2.real)
          p.s->set_default_value(Sym<REAL>(e2.name), c, (double)v / 4);
        else
          p.s->set_default_value(Sym<INT>(e2.name), c, v);
        p.def[{e2.name, c}] = e2.real ? bits((double)v / 4) : v;
      }
  return p;
}
void rank_main(int) {
  Store S(ms, {{"PAR", 2, false}, {"N", 2, false}, {"M", 3, false}, {"V", 3, true}, {"X", 1, true}, {"Y", 2, true}, {"Z", 1, false}}, false);
  Store T(S, true);
  auto A = S.A;
  auto B = T.A;
  auto target = S.target;
  const int ncell = S.ncell, nd = ms.ndim;
  // properties that only one of the groups has
  B->add_particle_dat(ParticleDat(target, ParticleProp(Sym<REAL>("BR"), 2), ncell));
  B->add_particle_dat(ParticleDat(target, ParticleProp(Sym<INT>("BI"), 1), ncell));
  T.spec.push_back({"BR", 2, true});
  T.spec.push_back({"BI", 1, false});
  auto subA = particle_sub_group(A, [=](auto ID) { return ID.at(0) % 3 != 1; }, Access::read(Sym<INT>("ID")));
  auto subB = particle_sub_group(B, [=](auto ID) { return ID.at(0) % 3 != 1; }, Access::read(Sym<INT>("ID")));
  auto wA = particle_sub_group(A), wB = particle_sub_group(B);
  auto in = [&](int set, i64 id) { return set == SUB ? id % 3 != 1 : true; };
  i64 fresh = 100000000; // ids of new particles
  std::map<int, std::shared_ptr<DescendantProducts>> kept_dp;
  std::map<int, PSpec> kept_sp;
  std::map<int, int> kept_npp;
  for (int i = 0; i < (int)ops.size(); i++) {
    const Op &o = ops[i];
    if (!sim::op_enabled(i))
      continue;
    sim::op_begin(i, kn[o.k]);
    Rng g = rng(o.salt, (u64)S.r, 3);
    const bool onB = o.salt % 3 == 0; // which group holds the parents
    Store &L = onB ? T : S;
    auto on = [&](auto f) {
      if (o.set == GROUP)
        f(onB ? B : A);
      else
        f(o.set == WHOLE ? (onB ? wB : wA) : (onB ? subB : subA));
    };
    i64 nsel = 0;
    for (auto &kv : L.M.parts)
      nsel += in(o.set, kv.first);
    switch (o.k) {
    case ADD:
      L.add((int)g.range(0, o.n), o.salt);
      break;
    case REM:
      L.remove([&](i64 id) { return chosen(o.salt, id); });
      break;
    case MOVE:
      // products can sit at positions outside their cell: move those as well
      L.move([&](i64 id) { return id >= 100000000 || chosen(o.salt, id); }, o.salt);
      break;
    case PM:
    case DP: {
      const bool dp = o.k == DP;
      // parents in L, products go to D
      Store &D = dp ? (o.salt / 3 % 3 == 0 ? (onB ? S : T) : L) : (o.salt / 3 % 2 ? S : T);
      int npp = (int)g.range(1, 4);
      int slot = (int)(o.salt / 9 % 4); // slots 0 and 1 reuse the container of an earlier operation
      PSpec sp = make_spec(rng(o.salt, (u64)S.r, 8), nd);
      std::shared_ptr<DescendantProducts> P;
      std::shared_ptr<ProductMatrix> Q;
      if (dp) {
        if (slot < 2 && kept_dp.count(slot)) {
          P = kept_dp[slot];
          sp = kept_sp[slot];
          npp = kept_npp[slot];
        } else
          P = std::make_shared<DescendantProducts>(target, sp.s, npp);
        if (slot < 2) {
          kept_dp[slot] = P;
          kept_sp[slot] = sp;
          kept_npp[slot] = npp;
        }
        P->reset((int)nsel);
        if (P->num_products != nsel * npp || P->num_parent_particles != nsel)
          sim::violation("op %d (%s): %d products for %lld parents with %d products", i, kn[o.k], P->num_products,
                         (long long)nsel, npp);
      } else {
        npp = 1;
        Q = product_matrix(target, sp.s);
        Q->reset((int)nsel);
      }
      const int kV = sp.idx("V", true), kX = sp.idx("X", true), kP = sp.idx("P", true);
      const int kN = sp.idx("N", false), kM = sp.idx("M", false), kC = sp.idx("CELL_ID", false),
                kI = sp.idx("ID", false), kA = sp.idx("PAR", false);
      const i64 base = fresh, sx = (i64)(o.salt / 77 % 100);
      const int k_npp = npp, k_nd = nd, k_nc = ncell;
      fresh += nsel * npp + 1;
      auto make = [=](i64 id, int p) { return (id * 3 + p + sx) % 4 != 0; };      // is the product made
      auto leave = [=](i64 id, int p) { return (id + p * 2 + sx) % 3 == 0; };     // left at its default
      if (dp)
        on([&](auto G) {
          particle_loop(
              G,
              [=](auto IX, auto ID, auto V, auto N, auto M, auto R) {
                for (int p = 0; p < k_npp; p++) {
                  const i64 id = ID.at(0);
                  if ((id * 3 + p + sx) % 4 == 0)
                    continue;
                  R.set_parent(IX, p);
                  R.at_int(IX, p, kI, 0) = base + (i64)IX.get_loop_linear_index() * k_npp + p;
                  R.at_int(IX, p, kA, 0) = id;
                  R.at_int(IX, p, kA, 1) = p;
                  if (kC >= 0)
                    R.at_int(IX, p, kC, 0) = (IX.cell + p) % k_nc;
                  if ((id + p * 2 + sx) % 3 == 0)
                    continue;
                  for (int c = 0; c < 3; c++) {
                    if (kV >= 0)
                      R.at_real(IX, p, kV, c) = V.at(c) + p + 0.5;
                    if (kM >= 0)
                      R.at_int(IX, p, kM, c) = M.at(c) * 2 + p;
                  }
                  if (kX >= 0)
                    R.at_real(IX, p, kX, 0) = V.at(0) - p;
                  for (int c = 0; c < k_nd; c++)
                    if (kP >= 0)
                      R.at_real(IX, p, kP, c) = 0.25 * p;
                  for (int c = 0; c < 2; c++)
                    if (kN >= 0)
                      R.at_int(IX, p, kN, c) = N.at(c) - p;
                }
              },
              Access::read(ParticleLoopIndex{}), Access::read(Sym<INT>("ID")), Access::read(Sym<REAL>("V")),
              Access::read(Sym<INT>("N")), Access::read(Sym<INT>("M")), Access::write(P))
              ->execute();
        });
      else
        on([&](auto G) {
          particle_loop(
              G,
              [=](auto IX, auto ID, auto V, auto N, auto M, auto R) {
                const i64 id = ID.at(0);
                const int row = (int)IX.get_loop_linear_index();
                R.at_int(row, kI, 0) = base + row;
                R.at_int(row, kA, 0) = id;
                if (kC >= 0 && (id * 3 + sx) % 4 != 0)
                  R.at_int(row, kC, 0) = IX.cell;
                if ((id + sx) % 3 == 0)
                  return;
                for (int c = 0; c < 3; c++) {
                  if (kV >= 0)
                    R.at_real(row, kV, c) = V.at(c) + 0.5;
                  if (kM >= 0)
                    R.at_int(row, kM, c) = M.at(c) * 2;
                }
                if (kX >= 0)
                  R.at_real(row, kX, 0) = V.at(0);
                for (int c = 0; c < k_nd; c++)
                  if (kP >= 0)
                    R.at_real(row, kP, c) = 0.0;
                for (int c = 0; c < 2; c++)
                  if (kN >= 0)
                    R.at_int(row, kN, c) = N.at(c);
              },
              Access::read(ParticleLoopIndex{}), Access::read(Sym<INT>("ID")), Access::read(Sym<REAL>("V")),
              Access::read(Sym<INT>("N")), Access::read(Sym<INT>("M")), Access::write(Q))
              ->execute();
        });
      // expected products by (parent, product)
      std::map<std::pair<i64, i64>, std::pair<int, Fields>> want;
      for (auto &kv : L.M.parts) {
        i64 id = kv.first;
        if (!in(o.set, id))
          continue;
        int cell = kv.second.first;
        Fields &pf = kv.second.second;
        for (int p = 0; p < npp; p++) {
          if (dp && !make(id, p))
            continue;
          if (!dp && kC >= 0 && !make(id, 0))
            continue; // its cell is left at -1
          int nc = kC >= 0 ? (dp ? (cell + p) % ncell : cell) : dp ? cell : 0;
          Fields f;
          for (auto &d : D.spec) {
            auto &v = f[d.name];
            v.assign((size_t)d.ncomp, d.real ? bits(0.0) : 0);
            if (!sp.has(d.name.c_str())) {
              if (dp && pf.count(d.name))
                v = pf.at(d.name);
              continue;
            }
            for (int c = 0; c < d.ncomp; c++) {
              auto it = sp.def.find({d.name, c});
              if (it != sp.def.end())
                v[c] = it->second;
            }
            if (d.name == "PAR") {
              v[0] = id;
              if (dp)
                v[1] = p;
            } else if (d.name == "CELL_ID")
              v[0] = nc;
            else if (!leave(id, p)) {
              for (int c = 0; c < d.ncomp; c++)
                if (d.name == "V")
                  v[c] = bits(dbl(pf["V"][c]) + p + 0.5);
                else if (d.name == "M")
                  v[c] = pf["M"][c] * 2 + p;
                else if (d.name == "X")
                  v[c] = bits(dbl(pf["V"][0]) - p);
                else if (d.name == "P")
                  v[c] = bits(0.25 * p);
                else if (d.name == "N")
                  v[c] = pf["N"][c] - p;
            }
          }
          want[{id, p}] = {nc, f};
        }
      }
      if (dp) {
        if (&D == &L && o.salt % 2)
          D.A->add_particles_local(P);
        else
          D.A->add_particles_local(P, L.A);
      } else
        D.A->add_particles_local(Q);
      // find the new particles: each expected product once
      auto s = D.snap();
      int ido = 0, pao = 0, off = 0;
      for (auto &d : D.spec) {
        if (d.name == "ID")
          ido = off;
        if (d.name == "PAR")
          pao = off;
        off += d.ncomp;
      }
      size_t found = 0;
      for (auto &q : s) {
        i64 id = q.v[ido];
        if (id < base || id >= fresh)
          continue;
        found++;
        i64 p = dp ? q.v[pao + 1] : 0;
        auto it = want.find({q.v[pao], p});
        if (it == want.end() || D.M.parts.count(id))
          sim::violation("op %d (%s): a particle was added for parent %lld product %lld, which was not made or was already added",
                         i, kn[o.k], (long long)q.v[pao], (long long)p);
        it->second.second["ID"] = {id};
        D.M.parts[id] = it->second;
        want.erase(it);
      }
      if (!want.empty())
        sim::violation("op %d (%s): %zu particles were added and %zu products are missing", i, kn[o.k], found, want.size());
      break;
    }
    case PMADD: {
      // many particles add to few products
      int nq = (int)g.range(1, 4);
      PSpec sp = make_spec(rng(o.salt, (u64)S.r, 8), nd);
      auto Q = product_matrix(target, sp.s);
      Q->reset((int)g.range(0, 9));
      Q->reset(nq);
      const int kI = sp.idx("ID", false), kA = sp.idx("PAR", false), kV = sp.idx("V", true);
      std::vector<i64> sI(nq, 0), s1(nq, 0);
      std::vector<double> sV(nq, 0.0);
      on([&](auto G) {
        particle_loop(
            G,
            [=](auto ID, auto V, auto R) {
              const int row = (int)(ID.at(0) % nq);
              R.fetch_add_int(row, kI, 0, 1);
              R.fetch_add_int(row, kA, 1, ID.at(0));
              if (kV >= 0)
                R.fetch_add_real(row, kV, 2, V.at(1));
            },
            Access::read(Sym<INT>("ID")), Access::read(Sym<REAL>("V")), Access::add(Q))
            ->execute();
      });
      for (auto &kv : L.M.parts)
        if (in(o.set, kv.first)) {
          s1[kv.first % nq]++;
          sI[kv.first % nq] += kv.first;
          sV[kv.first % nq] += dbl(kv.second.second["V"][1]);
        }
      auto h = Q->get();
      auto def = [&](const char *n, int c) {
        auto it = sp.def.find({n, c});
        return it == sp.def.end() ? (i64)0 : it->second;
      };
      for (int q = 0; q < nq; q++) {
        if (h->at(Sym<INT>("ID"), q, 0) != s1[q] + def("ID", 0) || h->at(Sym<INT>("PAR"), q, 1) != sI[q] + def("PAR", 1) ||
            h->at(Sym<INT>("PAR"), q, 0) != def("PAR", 0))
          sim::violation("op %d (%s): product %d holds %lld / %lld, contributions add up to %lld / %lld", i, kn[o.k], q,
                         (long long)h->at(Sym<INT>("ID"), q, 0), (long long)h->at(Sym<INT>("PAR"), q, 1),
                         (long long)s1[q], (long long)sI[q]);
        if (kV >= 0 && h->at(Sym<REAL>("V"), q, 2) != sV[q] + dbl(def("V", 2)))
          sim::violation("op %d (%s): product %d holds %.17g, contributions add up to %.17g", i, kn[o.k], q,
                         h->at(Sym<REAL>("V"), q, 2), sV[q] + dbl(def("V", 2)));
      }
      // and are read back by a kernel
      on([&](auto G) {
        particle_loop(
            G, [=](auto ID, auto Z, auto R) { Z.at(0) = R.at_int((int)(ID.at(0) % nq), kA, 1); },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("Z")), Access::read(Q))
            ->execute();
      });
      for (auto &kv : L.M.parts)
        if (in(o.set, kv.first))
          kv.second.second["Z"][0] = sI[kv.first % nq] + def("PAR", 1);
      break;
    }
    case PSD: {
      int nq = (int)g.range(0, 9);
      std::vector<DatSpec> sd = {{"M", 3, false}, {"X", 1, true}, {"N", 2, false}, {"V", 3, true}};
      ParticleSpec full = to_spec(sd);
      auto D = std::make_shared<ParticleSetDevice>(target, nq, full);
      // the host set does not hold every property
      std::vector<DatSpec> hd = {{"V", 3, true}, {"M", 3, false}, {"K", 1, false}};
      ParticleSpec hps = to_spec(hd);
      auto h = std::make_shared<ParticleSet>(nq, hps);
      for (int q = 0; q < nq; q++)
        for (int c = 0; c < 3; c++) {
          h->at(Sym<REAL>("V"), q, c) = q * 10 + c + 0.5;
          h->at(Sym<INT>("M"), q, c) = q * 100 + c;
        }
      D->set(h);
      auto b = D->get();
      for (int q = 0; q < nq; q++)
        for (int c = 0; c < 3; c++)
          if (b->at(Sym<REAL>("V"), q, c) != q * 10 + c + 0.5 || b->at(Sym<INT>("M"), q, c) != q * 100 + c ||
              (c < 2 && b->at(Sym<INT>("N"), q, c) != 0) || (c < 1 && b->at(Sym<REAL>("X"), q, c) != 0.0))
            sim::violation("op %d (%s): particle %d does not hold the values it was set to", i, kn[o.k], q);
      if (nq) {
        const int km = D->spec->get_sym_index(Sym<INT>("M")), kv_ = D->spec->get_sym_index(Sym<REAL>("V"));
        on([&](auto G) {
          particle_loop(
              G,
              [=](auto ID, auto Z, auto X, auto R) {
                Z.at(0) = R.at_int((int)(ID.at(0) % nq), km, 2);
                X.at(0) = R.at_real((int)(ID.at(0) % nq), kv_, 1);
              },
              Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("Z")), Access::write(Sym<REAL>("X")), Access::read(D))
              ->execute();
        });
        for (auto &kv : L.M.parts)
          if (in(o.set, kv.first)) {
            kv.second.second["Z"][0] = kv.first % nq * 100 + 2;
            kv.second.second["X"][0] = bits((double)(kv.first % nq) * 10 + 1.5);
          }
      }
      break;
    }
    }
    S.check(kn[o.k], i);
    T.check(kn[o.k], i);
    sim::state_hash((u64)o.k * 1000003 + (u64)nsel * 31 + S.M.parts.size() * 7 + T.M.parts.size());
  }
  kept_dp.clear();
  kept_sp.clear();
  subA.reset();
  subB.reset();
  wA.reset();
  wB.reset();
  A.reset();
  B.reset();
  target.reset();
  T.free_group();
  S.free();
}
void finish() {}
const char *judge_abort(const char *) { return "the library stopped on a valid input"; }
} // namespace simwl
