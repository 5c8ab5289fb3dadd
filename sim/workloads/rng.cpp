// P11: random numbers given to kernels.
#include "store.hpp"
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
enum OpK { ADD, REM, MOVE, BLOCK, ATOMIC, TUPLE, DEVFN, FAILFN, OVERRIDE, NULLRNG, OK_N };
static const char *kn[] = {"add", "remove", "cell move", "per particle samples", "samples on demand", "tuple of samplers",
                           "device generator", "failing generator", "set number of samples", "null sampler"};
static const int wt[OK_N] = {9, 6, 6, 22, 30, 14, 8, 1, 6, 3};
enum Set { GROUP, WHOLE, SUB, SUBSUB, SET_N };
struct Op {
  int k, n, set;
  u64 salt;
};
static MeshSpec ms;
static std::vector<Op> ops;
static int ncb, nca, bsb, bsa, ncd;
static bool expect_abort;
void choose_knobs() {
  choose_big(3);
  if (sim::K.nranks > 3)
    sim::K.nranks = 1 + (i64)sim::rnd_below(sim::S_CFG, 2);
}
void plan() {
  seed_plan();
  Rng r = rng(1);
  ms = random_mesh(rng(2), 30);
  world_reset(ms);
  expect_abort = false;
  auto bs = [&] { return r.pct(30) ? (int)r.range(1, 4) : r.pct(50) ? (int)r.range(5, 60) : 8192; };
  ncb = (int)r.range(0, 4);
  nca = (int)r.range(0, 3);
  ncd = (int)r.range(1, 3);
  bsb = bs();
  bsa = bs();
  int tot = 0;
  for (int k = 0; k < OK_N; k++)
    tot += wt[k];
  ops.clear();
  if (r.pct(90))
    ops.push_back({ADD, first_add(r, 90), 0, r.next()});
  int n = (int)r.range(3, 11);
  for (int i = 0; i < n; i++) {
    int x = (int)r.below(tot), k = 0;
    while (k < OK_N - 1 && x >= wt[k])
      x -= wt[k], k++;
    if (k == FAILFN && i != n - 1)
      k = ATOMIC;
    ops.push_back({k, (int)(r.pct(15) ? r.range(50, 300) : r.range(0, 40)), (int)r.below(SET_N), r.next()});
  }
}
// A generator that returns each value once: value k*1000+tag+1.
struct Gen {
  i64 tag, calls = 0;
  std::set<i64> given; // values handed out to some particle
};
typedef std::map<i64, std::vector<i64>> Got; // particle id -> values
void rank_main(int) {
  Store S(ms, {{"SI", 6, false}, {"SR", 6, true}, {"OK", 2, false}, {"OR", 2, false}});
  auto A = S.A;
  auto target = S.target;
  const int ncell = S.ncell;
  const i64 m0 = 2 + (i64)(ms.size(0) > 1 ? 1 : 0);
  auto sub = particle_sub_group(A, [=](auto ID) { return ID.at(0) % m0 == 0; }, Access::read(Sym<INT>("ID")));
  auto sub2 = particle_sub_group(sub, [=](auto ID) { return ID.at(0) % 5 < 3; }, Access::read(Sym<INT>("ID")));
  auto whole = particle_sub_group(A);
  auto in = [&](int set, i64 id) {
    return set == SUB ? id % m0 == 0 : set == SUBSUB ? id % m0 == 0 && id % 5 < 3 : true;
  };
  auto on = [&](int set, auto f) {
    if (set == GROUP)
      f(A);
    else
      f(set == WHOLE ? whole : set == SUB ? sub : sub2);
  };
  std::vector<std::shared_ptr<Gen>> gens;
  auto gen = [&]() {
    auto g = std::make_shared<Gen>();
    g->tag = (i64)gens.size() + 1;
    gens.push_back(g);
    return g;
  };
  auto gb = gen(), gbr = gen(), ga = gen(), ga2 = gen(), gt = gen(), gd = gen();
  auto next = [](std::shared_ptr<Gen> g) { return (g->calls++) * 1000 + g->tag; };
  // per particle, integer and real
  auto RB = host_per_particle_block_rng<INT>([=]() -> INT { return next(gb); }, ncb, bsb);
  auto RR = host_per_particle_block_rng<REAL>([=]() -> REAL { return (REAL)next(gbr); }, 2, bsa);
  // on demand, and a twin that sees the same loops
  auto RA = host_atomic_block_kernel_rng<INT>([=]() -> INT { return next(ga); }, nca, bsa);
  auto RA2 = host_atomic_block_kernel_rng<INT>([=]() -> INT { return next(ga2); }, nca, bsa);
  auto RT = host_atomic_block_kernel_rng<REAL>([=]() -> REAL { return (REAL)next(gt); }, 2, bsb);
  RA->suppress_warnings = RA2->suppress_warnings = RT->suppress_warnings = true;
  bool ra_ok = true, rt_ok = true;
  auto tup = tuple_rng(RB, tuple_rng(RR, RT));
  // samples drawn straight into device memory by the user's function
  auto dfn = std::make_shared<GenericDeviceRNGGenerationFunction<INT>>(
      std::function<int(INT *, const std::size_t)>([=](INT *d, const std::size_t n) -> int {
        if (expect_abort)
          return 1;
        if (n == 0)
          return 0;
        std::vector<INT> h(n);
        for (auto &x : h)
          x = next(gd);
        target->queue.memcpy(d, h.data(), n * sizeof(INT)).wait_and_throw();
        return 0;
      }));
  auto RD = std::make_shared<HostPerParticleBlockRNG<INT>>(std::static_pointer_cast<RNGGenerationFunction<INT>>(dfn), ncd, bsb);
  i64 ovr = -1;
  auto read_dat = [&](const char *nm, bool real) {
    Got o;
    for (int c = 0; c < ncell; c++) {
      auto ID = A->get_cell(Sym<INT>("ID"), c);
      if (real) {
        auto D = A->get_cell(Sym<REAL>(nm), c);
        for (int l = 0; l < ID->nrow; l++)
          for (int k = 0; k < D->ncol; k++)
            o[ID->at(l, 0)].push_back(bits(D->at(l, k)));
      } else {
        auto D = A->get_cell(Sym<INT>(nm), c);
        for (int l = 0; l < ID->nrow; l++)
          for (int k = 0; k < D->ncol; k++)
            o[ID->at(l, 0)].push_back(D->at(l, k));
      }
    }
    return o;
  };
  for (int i = 0; i < (int)ops.size(); i++) {
    const Op &o = ops[i];
    if (!sim::op_enabled(i))
      continue;
    sim::op_begin(i, kn[o.k]);
    Rng g = rng(o.salt, (u64)S.r, 3);
    int c0 = 0, c1 = ncell;
    std::optional<int> oc0, oc1;
    int rk = (int)(o.salt % 5);
    if (rk == 1) {
      c0 = (int)g.below(ncell);
      c1 = c0 + 1;
      oc0 = c0;
    } else if (rk == 2) {
      c0 = (int)g.below(ncell);
      c1 = (int)g.range(c0 + 1, ncell);
      oc0 = c0;
      oc1 = c1;
    }
    i64 nsel = 0;
    auto vis = [&](auto f) {
      for (auto &kv : S.M.parts)
        if (kv.second.first >= c0 && kv.second.first < c1 && in(o.set, kv.first))
          f(kv.first, kv.second.second);
    };
    vis([&](i64, Fields &) { nsel++; });
    // value v was given to particle id: it must come from the generator and be new
    auto take = [&](std::shared_ptr<Gen> q, i64 id, i64 v, i64 lo) {
      i64 k = (v - q->tag) / 1000;
      if ((v - q->tag) % 1000 != 0 || k < 0 || k >= q->calls)
        sim::violation("op %d (%s): particle %lld received %lld, which the generator never returned", i, kn[o.k],
                       (long long)id, (long long)v);
      if (k < lo)
        sim::violation("op %d (%s): particle %lld received a sample of an earlier loop", i, kn[o.k], (long long)id);
      if (!q->given.insert(k).second)
        sim::violation("op %d (%s): particle %lld received a sample that was given out before", i, kn[o.k],
                       (long long)id);
    };
    switch (o.k) {
    case ADD:
      S.add((int)g.range(0, o.n), o.salt);
      break;
    case REM:
      S.remove([&](i64 id) { return chosen(o.salt, id); }, o.salt);
      break;
    case MOVE:
      S.move([&](i64 id) { return chosen(o.salt, id); }, o.salt);
      break;
    case BLOCK:
    case DEVFN: {
      auto R = o.k == BLOCK ? RB : RD;
      auto q = o.k == BLOCK ? gb : gd;
      const int nc = o.k == BLOCK ? ncb : ncd;
      i64 before = q->calls, beforer = gbr->calls;
      on(o.set, [&](auto G) {
        particle_loop(
            G,
            [=](auto IX, auto SI, auto SR, auto OK, auto I, auto F) {
              INT good = 1;
              for (int k = 0; k < nc; k++) {
                bool ok = false;
                SI.at(k) = I.at(IX, k, &ok);
                good = good && ok;
              }
              for (int k = 0; k < 2; k++) {
                bool ok = false;
                SR.at(k) = F.at(IX, k, &ok);
                good = good && ok;
              }
              OK.at(0) = good;
            },
            Access::read(ParticleLoopIndex{}), Access::write(Sym<INT>("SI")), Access::write(Sym<REAL>("SR")),
            Access::write(Sym<INT>("OK")), Access::read(R), Access::read(RR))
            ->execute(oc0, oc1);
      });
      if (q->calls != before + nsel * nc || gbr->calls != beforer + nsel * 2)
        sim::violation("op %d (%s): %lld and %lld samples were drawn for %lld particles with %d and 2 samples each", i,
                       kn[o.k], (long long)(q->calls - before), (long long)(gbr->calls - beforer), (long long)nsel, nc);
      auto si = read_dat("SI", false), sr = read_dat("SR", true), ok = read_dat("OK", false);
      vis([&](i64 id, Fields &f) {
        for (int k = 0; k < nc; k++) {
          take(q, id, si[id][k], before);
          f["SI"][k] = si[id][k];
        }
        for (int k = 0; k < 2; k++) {
          take(gbr, id, (i64)dbl(sr[id][k]), beforer);
          f["SR"][k] = sr[id][k];
        }
        if (ok[id][0] != 1)
          sim::violation("op %d (%s): particle %lld was told its sample is not valid", i, kn[o.k], (long long)id);
        f["OK"][0] = 1;
      });
      if (!R->valid_internal_state())
        sim::violation("op %d (%s): the sampler reports an invalid state", i, kn[o.k]);
      break;
    }
    case ATOMIC: {
      // a particle takes w(id) samples
      const int mode = (int)(o.salt / 7 % 4);
      const i64 sx = (i64)(o.salt / 31 % 1000);
      auto want = [=](i64 id) -> int {
        i64 h = (id * 7 + sx) % 11;
        return mode == 0 ? (int)(h % 4 == 0) : mode == 1 ? (int)(h % 3) : mode == 2 ? 2 : (int)(h % 5);
      };
      i64 asked = 0;
      vis([&](i64 id, Fields &) { asked += want(id); });
      auto run = [&](std::shared_ptr<HostAtomicBlockKernelRNG<INT>> R, const char *dst, const char *okd) {
        on(o.set, [&](auto G) {
          particle_loop(
              G,
              [=](auto IX, auto ID, auto SI, auto OK, auto I) {
                const INT id = ID.at(0);
                const i64 h = (id * 7 + sx) % 11;
                const int w = mode == 0 ? (int)(h % 4 == 0) : mode == 1 ? (int)(h % 3) : mode == 2 ? 2 : (int)(h % 5);
                INT good = 0;
                for (int k = 0; k < w; k++) {
                  bool ok = false;
                  SI.at(k) = I.at(IX, k, &ok);
                  if (ok)
                    good |= (INT)1 << k;
                }
                OK.at(0) = good;
              },
              Access::read(ParticleLoopIndex{}), Access::read(Sym<INT>("ID")), Access::write(Sym<INT>(dst)),
              Access::write(Sym<INT>(okd)), Access::read(R))
              ->execute(oc0, oc1);
        });
        return asked;
      };
      auto judge = [&](std::shared_ptr<HostAtomicBlockKernelRNG<INT>> R, std::shared_ptr<Gen> q, bool &state) {
        auto si = read_dat("SI", false), ok = read_dat("OK", false);
        i64 good = 0;
        vis([&](i64 id, Fields &f) {
          for (int k = 0; k < want(id); k++) {
            f["SI"][k] = si[id][k];
            if (ok[id][0] >> k & 1) {
              good++;
              take(q, id, si[id][k], 0);
            }
          }
          f["OK"][0] = ok[id][0];
        });
        i64 cap = nca == 0 ? 0 : ovr >= 0 ? ovr : nsel * nca;
        if (asked <= cap && good != asked)
          sim::violation("op %d (%s): %lld of %lld samples were marked invalid although %lld were available", i, kn[o.k],
                         (long long)(asked - good), (long long)asked, (long long)cap);
        if (good != asked)
          state = false;
        if (R->valid_internal_state() != state)
          sim::violation("op %d (%s): %lld of %lld samples were valid and the sampler reports %s state", i, kn[o.k],
                         (long long)good, (long long)asked, R->valid_internal_state() ? "a valid" : "an invalid");
        return good;
      };
      bool s1 = ra_ok, s2 = ra_ok;
      run(RA, "SI", "OK");
      i64 g1 = judge(RA, ga, s1);
      run(RA2, "SI", "OK");
      i64 g2 = judge(RA2, ga2, s2);
      // the same loops draw the same number of samples, whatever the memory held before
      if (ga->calls != ga2->calls || (g1 == asked) != (g2 == asked))
        sim::violation("op %d (%s): two samplers used in the same loops drew %lld and %lld samples (%lld and %lld valid)", i,
                       kn[o.k], (long long)ga->calls, (long long)ga2->calls, (long long)g1, (long long)g2);
      ra_ok = s1;
      break;
    }
    case OVERRIDE:
      ovr = o.salt % 3 == 0 ? -1 : (i64)g.range(1, 60);
      RA->set_num_random_numbers((int)ovr);
      RA2->set_num_random_numbers((int)ovr);
      break;
    case TUPLE: {
      const int nc = ncb;
      i64 b0 = gb->calls, b1 = gbr->calls;
      on(o.set, [&](auto G) {
        particle_loop(
            G,
            [=](auto IX, auto ID, auto SI, auto SR, auto OK, auto T) {
              INT good = 0;
              bool ok = false;
              for (int k = 0; k < nc; k++) {
                ok = false;
                SI.at(k) = Access::TupleRNG::get<0>(T).at(IX, k, &ok);
                good += ok;
              }
              auto &U = T.template get<1>();
              for (int k = 0; k < 2; k++) {
                ok = false;
                SR.at(k) = Access::TupleRNG::get<0>(U).at(IX, k, &ok);
                good += ok;
              }
              for (int k = 0; k < (int)(ID.at(0) % 3); k++) {
                ok = false;
                SR.at(2 + k) = Access::TupleRNG::get<1>(U).at(IX, k, &ok);
                good += ok;
              }
              OK.at(0) = good;
            },
            Access::read(ParticleLoopIndex{}), Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("SI")),
            Access::write(Sym<REAL>("SR")), Access::write(Sym<INT>("OK")), Access::read(tup))
            ->execute(oc0, oc1);
      });
      auto si = read_dat("SI", false), sr = read_dat("SR", true), ok = read_dat("OK", false);
      vis([&](i64 id, Fields &f) {
        int w = (int)(id % 3);
        if (ok[id][0] != nc + 2 + w)
          sim::violation("op %d (%s): %lld of the %d samples of particle %lld were valid", i, kn[o.k],
                         (long long)ok[id][0], nc + 2 + w, (long long)id);
        f["OK"][0] = ok[id][0];
        for (int k = 0; k < nc; k++)
          take(gb, id, f["SI"][k] = si[id][k], b0);
        for (int k = 0; k < 2 + w; k++) {
          f["SR"][k] = sr[id][k];
          take(k < 2 ? gbr : gt, id, (i64)dbl(sr[id][k]), k < 2 ? b1 : 0);
        }
      });
      if (gb->calls != b0 + nsel * nc || gbr->calls != b1 + nsel * 2)
        sim::violation("op %d (%s): wrong number of samples drawn", i, kn[o.k]);
      if (RT->valid_internal_state() != rt_ok)
        sim::violation("op %d (%s): the sampler reports an invalid state", i, kn[o.k]);
      break;
    }
    case NULLRNG: {
      auto N = null_kernel_rng<REAL>();
      on(o.set, [&](auto G) {
        particle_loop(
            G, [=](auto IX, auto SR, auto R) { SR.at(5) = R.at(IX, 0); }, Access::read(ParticleLoopIndex{}),
            Access::write(Sym<REAL>("SR")), Access::read(N))
            ->execute(oc0, oc1);
      });
      vis([&](i64, Fields &f) { f["SR"][5] = bits(0.0); });
      break;
    }
    case FAILFN: {
      // the user's generator reports a failure: the job must stop
      if (nsel == 0)
        break;
      expect_abort = true;
      on(o.set, [&](auto G) {
        particle_loop(
            G, [=](auto IX, auto SI, auto R) { SI.at(0) = R.at(IX, 0); }, Access::read(ParticleLoopIndex{}),
            Access::write(Sym<INT>("SI")), Access::read(RD))
            ->execute(oc0, oc1);
      });
      sim::violation("op %d (%s): the loop ran although its generator failed", i, kn[o.k]);
    }
    }
    S.check(kn[o.k], i);
    sim::state_hash((u64)o.k * 1000003 + (u64)nsel * 31 + (u64)(o.set * 5 + rk));
  }
  sub2.reset();
  sub.reset();
  whole.reset();
  dfn.reset();
  RD.reset();
  A.reset();
  target.reset();
  S.free();
}
void finish() {}
const char *judge_abort(const char *) { return expect_abort ? nullptr : "the library stopped on a valid input"; }
} // namespace simwl
