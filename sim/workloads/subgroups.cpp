// P07/P08: sub groups select exactly the particles their definition selects, and
// keep doing so while the particles change.
#include "store.hpp"
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
enum OpK { ADD, REM, MOVE, HYBRID, WRITE, NEW, DROP, USE, KEPT, REMSUB, COMPL, TOGGLE, TWICE, WINDOW, RECREATE, OK_N };
static const char *kn[] = {"add",      "remove", "cell move",  "hybrid move", "write selecting property", "new sub group",
                           "drop sub group", "use sub group", "execute kept loop", "remove sub group", "truncate and discard", "toggle static",
                           "use twice", "direct write", "recreate"};
enum Kind { SEL, VAL, VEC, IXP, NPC, WHOLE, CELL, RANGE, TRUNC, DISC, COPY, UNI, PART, KIND_N };
static const char *kindn[] = {"predicate on INT", "predicate on REAL", "predicate on a property vector", "predicate on index",
                              "predicate on occupancy", "whole", "cell", "cell range", "truncate", "discard", "copy", "disjoint union", "partition"};
struct Op {
  int k, n;
  u64 salt;
};
static MeshSpec ms;
static std::vector<Op> ops;
void choose_knobs() {
  choose_big(3);
  if (sim::chance(sim::S_CFG, 75))
    sim::K.nranks = 1;
  else if (sim::K.nranks > 3)
    sim::K.nranks = 2;
}
void plan() {
  seed_plan();
  Rng r = rng(1);
  ms = random_mesh(rng(2), 30);
  world_reset(ms);
  ops.clear();
  ops.push_back({ADD, first_add(r, 80), r.next()});
  for (int i = 0; i < 3; i++)
    ops.push_back({NEW, 0, r.next()});
  int n = (int)r.range(5, 18);
  for (int i = 0; i < n; i++) {
#ifdef SIM_P08
    static const int w[OK_N] = {5, 4, 4, 1, 8, 26, 2, 24, 4, 4, 10, 3, 3, 2, 2};
#else
    static const int w[OK_N] = {8, 6, 7, 3, 16, 14, 4, 16, 8, 4, 3, 4, 4, 3, 3};
#endif
    int x = (int)r.below(102), k = 0;
    while (k < OK_N - 1 && x >= w[k])
      x -= w[k], k++;
    ops.push_back({k, (int)(r.pct(10) ? r.range(40, 150) : r.range(0, 30)), r.next()});
  }
}
typedef std::set<i64> Ids;
struct Node {
  Kind kind;
  int parent = -1; // -1: the group
  i64 a = 0, b = 0;
  std::vector<int> members;
  bool is_static = false, dropped = false;
  Ids frozen;
  ParticleSubGroupSharedPtr g;
  ParticleLoopSharedPtr kept;
};
void rank_main(int) {
  Store S(ms, {{"S", 1, false}, {"T", 2, false}, {"V", 2, true}, {"PT", 1, false}, {"MARK", 1, false}});
  auto A = S.A;
  const int ncell = S.ncell, r = S.r;
  std::vector<Node> N;
  bool toggled_parent = false;
  std::vector<std::vector<i64>> rows; // ids by cell and row
  auto read_rows = [&]() {
    rows.assign(ncell, {});
    for (int c = 0; c < ncell; c++) {
      auto ID = A->get_cell(Sym<INT>("ID"), c);
      for (int l = 0; l < ID->nrow; l++)
        rows[c].push_back(ID->at(l, 0));
    }
  };
  auto mark_kernel = [](auto MARK) { MARK.at(0) += 1; };
  auto mark_loop = [&](auto G) { return particle_loop("mark", G, mark_kernel, Access::write(Sym<INT>("MARK"))); };
  // run the loop and return how often each particle was visited
  auto observe = [&](ParticleLoopSharedPtr loop, int how, int i, const char *what) {
    if (how == 0)
      loop->execute();
    else if (how == 1) {
      loop->submit();
      loop->wait();
    } else
      for (int c = 0; c < ncell; c++)
        loop->execute(c);
    Ids seen;
    for (int c = 0; c < ncell; c++) {
      auto ID = A->get_cell(Sym<INT>("ID"), c);
      auto MK = A->get_cell(Sym<INT>("MARK"), c);
      sim::CoreGuard cg;
      for (int l = 0; l < ID->nrow; l++) {
        i64 id = ID->at(l, 0);
        i64 d = MK->at(l, 0) - S.f(id, "MARK");
        S.f(id, "MARK") = MK->at(l, 0);
        if (d < 0 || d > 1)
          sim::violation("op %d (%s): particle id %lld was visited %lld times", i, what, (long long)id, (long long)d);
        if (d)
          seen.insert(id);
      }
    }
    return seen;
  };
  auto by_cell = [&](const Ids &s) {
    std::vector<std::vector<i64>> o(ncell);
    for (i64 id : s)
      o[S.M.parts.at(id).first].push_back(id);
    return o;
  };
  auto usable = [&](int n) {
    std::function<bool(int)> f = [&](int k) -> bool {
      if (k < 0)
        return true;
      for (int m : N[k].members)
        if (!f(m))
          return false;
      if (N[k].is_static && !N[k].g->is_valid())
        return false;
      return f(N[k].parent);
    };
    return f(n);
  };
  auto is_whole = [&](int n) {
    while (n >= 0 && (N[n].kind == WHOLE || N[n].kind == COPY))
      n = N[n].parent;
    return n < 0;
  };
  std::function<Ids(int, int)> expect = [&](int n, int i) -> Ids {
    Ids out;
    if (n < 0) {
      for (auto &kv : S.M.parts)
        out.insert(kv.first);
      return out;
    }
    Node &q = N[n];
    if (q.is_static)
      return q.frozen;
    if (q.kind == UNI) {
      for (int m : q.members)
        for (i64 id : expect(m, i))
          out.insert(id);
      return out;
    }
    Ids p = expect(q.parent, i);
    std::map<i64, std::pair<int, int>> at;
    if (q.kind == IXP || q.kind == TRUNC || q.kind == DISC) {
      read_rows();
      for (int c = 0; c < ncell; c++)
        for (int l = 0; l < (int)rows[c].size(); l++)
          at[rows[c][l]] = {c, l};
    }
    auto cells = by_cell(p);
    if ((q.kind == TRUNC || q.kind == DISC) && !is_whole(q.parent)) {
      // which rows of the parent come first is not specified: only their number
      Ids got = observe(mark_loop(q.g), 0, i, kindn[q.kind]);
      auto gc = by_cell(got);
      sim::CoreGuard cg;
      for (i64 id : got)
        if (!p.count(id))
          sim::violation("op %d: a %s sub group holds particle id %lld which its parent does not", i, kindn[q.kind],
                         (long long)id);
      for (int c = 0; c < ncell; c++) {
        i64 np = (i64)cells[c].size(), want = q.kind == TRUNC ? std::min(np, q.a) : std::max((i64)0, np - q.a);
        if ((i64)gc[c].size() != want)
          sim::violation("op %d: a %s(%lld) sub group holds %zu particles of cell %d, expected %lld of %lld", i,
                         kindn[q.kind], (long long)q.a, gc[c].size(), c, (long long)want, (long long)np);
      }
      return got;
    }
    for (i64 id : p) {
      int c = S.M.parts.at(id).first;
      bool in = true;
      auto mod = [](i64 x, i64 m) { return ((x % m) + m) % m; };
      switch (q.kind) {
      case SEL:
        in = mod(S.f(id, "S"), q.a) == q.b;
        break;
      case VAL:
        in = S.fr(id, "V", 1) > (double)q.a / 4.0;
        break;
      case VEC:
        in = mod(S.f(id, "S") + S.f(id, "T", 1), q.a) == q.b;
        break;
      case IXP:
        in = at.at(id).second % q.a == q.b;
        break;
      case NPC:
        in = (i64)cells[c].size() > q.a;
        break;
      case CELL:
        in = c == q.a;
        break;
      case RANGE:
        in = c >= q.a && c < q.b;
        break;
      case TRUNC:
        in = at.at(id).second < q.a;
        break;
      case DISC:
        in = at.at(id).second >= q.a;
        break;
      case PART:
        in = S.f(id, "PT") == q.a;
        break;
      default:
        break;
      }
      if (in)
        out.insert(id);
    }
    return out;
  };
  auto compare = [&](const Ids &got, const Ids &want, int n, int i, const char *how) {
    sim::CoreGuard cg;
    const char *k = n < 0 ? "group" : kindn[N[n].kind];
    for (i64 id : got)
      if (!want.count(id))
        sim::violation("op %d: %s over a %s%s sub group (on %s) includes particle id %lld, which it must not", i, how,
                       N[n].is_static ? "static " : "", k, N[n].parent < 0 ? "the group" : kindn[N[N[n].parent].kind],
                       (long long)id);
    for (i64 id : want)
      if (!got.count(id))
        sim::violation("op %d: %s over a %s%s sub group (on %s) misses particle id %lld", i, how,
                       N[n].is_static ? "static " : "", k, N[n].parent < 0 ? "the group" : kindn[N[N[n].parent].kind],
                       (long long)id);
  };
  auto alive = [&](Rng &g, bool need_usable) {
    std::vector<int> o;
    for (int n = 0; n < (int)N.size(); n++)
      if (!N[n].dropped && N[n].g && (!need_usable || usable(n)))
        o.push_back(n);
    return o.empty() ? -1 : o[(size_t)g.below((i64)o.size())];
  };
  auto build = [&](int parent, Kind k, i64 a, i64 b, bool st) {
    auto with = [&](auto P) -> ParticleSubGroupSharedPtr {
      auto mk = [&](auto kern, auto... args) {
        const int how = (int)((a * 7 + b * 3 + parent + 3) % 6);
        if (how < 2) { // from an explicit selector
          namespace I = ParticleSubGroupImplementation;
          I::SubGroupSelectorBaseSharedPtr sel;
          if (how)
            sel = std::make_shared<I::SubGroupSelectorExclusiveScan>(P, kern, args...);
          else
            sel = std::make_shared<I::SubGroupSelector>(P, kern, args...);
          auto g = std::make_shared<ParticleSubGroup>(sel);
          g->static_status(st);
          return g;
        }
        return st ? static_particle_sub_group(P, kern, args...) : particle_sub_group(P, kern, args...);
      };
      switch (k) {
      case SEL:
        return mk([=](auto S_) { return ((S_.at(0) % a) + a) % a == b; }, Access::read(Sym<INT>("S")));
      case VAL: {
        double t = (double)a / 4.0;
        return mk([=](auto V) { return V.at(1) > t; }, Access::read(Sym<REAL>("V")));
      }
      case VEC: {
        auto sv = sym_vector<INT>(A, {Sym<INT>("T"), Sym<INT>("S")});
        return mk([=](auto V) { INT x = V.at(1, 0) + V.at(0, 1); return ((x % a) + a) % a == b; }, Access::read(sv));
      }
      case IXP:
        return mk([=](auto ix) { return ix.layer % a == b; }, Access::read(ParticleLoopIndex{}));
      case NPC:
        return mk([=](auto np) { return np.get() > a; }, Access::read(CellInfoNPart{}));
      case WHOLE:
      case COPY:
        return st ? static_particle_sub_group(P) : particle_sub_group(P);
      case CELL:
        return particle_sub_group(P, (int)a, st);
      case RANGE:
        return particle_sub_group(P, (int)a, (int)b, st);
      case TRUNC:
        return particle_sub_group_truncate(P, (int)a, st);
      case DISC:
        return particle_sub_group_discard(P, (int)a, st);
      default:
        return nullptr;
      }
    };
    return parent < 0 ? with(A) : with(N[parent].g);
  };
  auto freeze = [&](int n, int i) { N[n].frozen = N[n].kind == TRUNC || N[n].kind == DISC ? observe(mark_loop(N[n].g), 0, i, "freeze") : Ids(); };
  // check a node through one of its interfaces
  auto use = [&](int n, Rng &g, int i) {
    int how = (int)g.below(6);
    if (how == 3) { // counts
      i64 tot = N[n].g->get_npart_local();
      std::vector<i64> pc(ncell);
      for (int c = 0; c < ncell; c++)
        pc[c] = N[n].g->get_npart_cell(c);
      Ids want = expect(n, i);
      auto w = by_cell(want);
      sim::CoreGuard cg;
      if (tot != (i64)want.size())
        sim::violation("op %d: a %s sub group reports %lld particles, expected %zu", i, kindn[N[n].kind], (long long)tot,
                       want.size());
      for (int c = 0; c < ncell; c++)
        if (pc[c] != (i64)w[c].size())
          sim::violation("op %d: a %s sub group reports %lld particles in cell %d, expected %zu", i, kindn[N[n].kind],
                         (long long)pc[c], c, w[c].size());
      return;
    }
    if (how == 4 && g.pct(25)) { // the printed table
      std::ostringstream ss;
        std::ostream &os = ss;
      N[n].g->print(os, Sym<INT>("ID"), Sym<INT>("T"));
      Ids got;
      for (auto &w : parse_print(ss.str())) {
        i64 id = w.second.size() ? w.second[0] : -1;
        if (!S.M.parts.count(id) || !got.insert(id).second || S.M.parts.at(id).first != w.first ||
            w.second.size() < 3 || w.second[1] != S.f(id, "T", 0) || w.second[2] != S.f(id, "T", 1))
          sim::violation("op %d: a printed row of a %s sub group is not a particle of cell %d (id %lld)", i,
                         kindn[N[n].kind], w.first, (long long)id);
      }
      compare(got, expect(n, i), n, i, "printing");
      return;
    }
    if (how == 4) { // rows copied to the host
      std::vector<INT> cs, ls;
      for (int c = 0; c < ncell; c++)
        for (int l = 0; l < N[n].g->get_npart_cell(c); l++) {
          cs.push_back(c);
          ls.push_back(l);
        }
      auto ps = N[n].g->get_particles(cs, ls);
      Ids got;
      for (int j = 0; j < (int)cs.size(); j++) {
        i64 id = ps->at(Sym<INT>("ID"), j, 0);
        if (!S.M.parts.count(id) || !got.insert(id).second || S.M.parts.at(id).first != cs[j])
          sim::violation("op %d: row %d of the particles copied from a %s sub group is particle id %lld, which is not in cell %lld",
                         i, j, kindn[N[n].kind], (long long)id, (long long)cs[j]);
        if (ps->at(Sym<INT>("T"), j, 1) != S.f(id, "T", 1) || bits(ps->at(Sym<REAL>("V"), j, 1)) != S.f(id, "V", 1))
          sim::violation("op %d: particle id %lld copied from a %s sub group has altered values", i, (long long)id,
                         kindn[N[n].kind]);
      }
      compare(got, expect(n, i), n, i, "copying rows");
      return;
    }
    if (how == 5) { // the same rows as seen by a deterministic reduction
      auto la = std::make_shared<LocalArray<INT>>(S.target, 2, 0);
      particle_loop(N[n].g, [](auto ID, auto L) { L.fetch_add(0, 1); L.fetch_add(1, ID.at(0) * ID.at(0)); },
                    Access::read(Sym<INT>("ID")), Access::add(la))
          ->execute();
      auto v = la->get();
      Ids want = expect(n, i);
      i64 s = 0;
      for (i64 id : want)
        s += id * id;
      if (v[0] != (i64)want.size() || v[1] != s)
        sim::violation("op %d: summing over a %s sub group counts %lld particles, expected %zu", i, kindn[N[n].kind],
                       (long long)v[0], want.size());
      return;
    }
    Ids got = observe(mark_loop(N[n].g), how, i, "loop");
    compare(got, expect(n, i), n, i, "a loop");
  };
  // write the properties that selections depend on
  auto rewrite = [&](i64 id, u64 salt) {
    if (!chosen(salt, id))
      return;
    S.f(id, "S") = (id * 7 + (i64)(salt % 97)) % 24 - 3;
    S.f(id, "T", 1) = (id * 5 + (i64)(salt % 31)) % 17;
    S.f(id, "PT") = (id * 3 + (i64)(salt % 13)) % 8 - 1;
    S.f(id, "V", 1) = bits((double)((id * 11 + (i64)(salt % 41)) % 64 - 30) / 4.0);
  };
  auto host_write = [&](const char *which, int c) {
    if (std::string(which) == "V") {
      auto V = A->get_cell(Sym<REAL>("V"), c);
      auto ID = A->get_cell(Sym<INT>("ID"), c);
      for (int l = 0; l < ID->nrow; l++)
        V->at(l, 1) = S.fr(ID->at(l, 0), "V", 1);
      A->get_dat(Sym<REAL>("V"))->cell_dat.set_cell(c, V);
    } else {
      auto V = A->get_cell(Sym<INT>(which), c);
      auto ID = A->get_cell(Sym<INT>("ID"), c);
      for (int l = 0; l < ID->nrow; l++)
        for (int k = 0; k < V->ncol; k++)
          V->at(l, k) = S.f(ID->at(l, 0), which, k);
      A->get_dat(Sym<INT>(which))->cell_dat.set_cell(c, V);
    }
  };
  for (int i = 0; i < (int)ops.size(); i++) {
    const Op &o = ops[i];
    if (!sim::op_enabled(i))
      continue;
    sim::op_begin(i, kn[o.k]);
    Rng g = rng(o.salt, (u64)r, 3);
    bool structural = false;
    switch (o.k) {
    case ADD: {
      size_t before = S.M.parts.size();
      S.add((int)g.range(0, o.n), o.salt);
      for (auto &kv : S.M.parts) {
        // give the new particles selecting values in the range the predicates use
        if (kv.first >= S.next_id - (i64)(S.M.parts.size() - before))
          (void)kv;
      }
      structural = S.M.parts.size() != before;
      break;
    }
    case REM: {
      structural = S.remove([&](i64 id) { return chosen(o.salt, id); }, o.salt) > 0;
      break;
    }
    case MOVE:
      structural = true;
      S.move([&](i64 id) { return chosen(o.salt, id); }, o.salt);
      break;
    case HYBRID: {
      structural = true;
      A->hybrid_move();
      A->cell_move();
      break;
    }
    case WRITE:
    case WINDOW: {
      std::vector<i64> was;
      const i64 m = 1 + (i64)(o.salt % 3);
      const i64 s97 = (i64)(o.salt % 97), s31 = (i64)(o.salt % 31), s13 = (i64)(o.salt % 13), s41 = (i64)(o.salt % 41);
      auto pred = [=](i64 id) { return id % m == 0; };
      auto model = [&](const Ids &sel) {
        for (i64 id : sel)
          if (pred(id)) {
            S.f(id, "S") = (id * 7 + s97) % 24 - 3;
            S.f(id, "T", 1) = (id * 5 + s31) % 17;
            S.f(id, "PT") = (id * 3 + s13) % 8 - 1;
            S.f(id, "V", 1) = bits((double)((id * 11 + s41) % 64 - 30) / 4.0);
          }
      };
      auto kern = [=](auto ID, auto S_, auto T, auto PT, auto V) {
        INT id = ID.at(0);
        if (id % m == 0) {
          S_.at(0) = (id * 7 + s97) % 24 - 3;
          T.at(1) = (id * 5 + s31) % 17;
          PT.at(0) = (id * 3 + s13) % 8 - 1;
          V.at(1) = (REAL)((id * 11 + s41) % 64 - 30) / 4.0;
        }
      };
      if (o.k == WINDOW) {
        // a hand written device loop over directly accessed properties
        auto dS = A->get_dat(Sym<INT>("S"));
        auto dP = A->get_dat(Sym<INT>("PT"));
        auto dID = A->get_dat(Sym<INT>("ID"));
        int rounds = (int)g.range(1, 3);
        for (int q = 0; q < rounds; q++) {
          auto k_id = Access::direct_get(Access::read(dID));
          auto k_s = Access::direct_get(Access::write(dS));
          auto k_p = Access::direct_get(Access::write(dP));
          int c = (int)g.below(ncell), n = (int)A->get_npart_cell(c);
          i64 add = g.range(1, 9);
          if (n)
            S.target->queue
                .parallel_for<>(sycl::range<1>((size_t)n),
                                [=](sycl::id<1> ix) {
                                  k_s[c][0][ix] = (k_id[c][0][ix] + add) % 12;
                                  k_p[c][0][ix] = (k_id[c][0][ix] * 5 + add) % 7 - 1;
                                })
                .wait_and_throw();
          Access::direct_restore(Access::read(dID), k_id);
          Access::direct_restore(Access::write(dS), k_s);
          Access::direct_restore(Access::write(dP), k_p);
          for (auto &kv : S.M.parts)
            if (kv.second.first == c) {
              kv.second.second["S"][0] = (kv.first + add) % 12;
              kv.second.second["PT"][0] = (kv.first * 5 + add) % 7 - 1;
            }
          int n2 = alive(g, true);
          if (n2 >= 0)
            use(n2, g, i);
        }
        break;
      }
      int way = (int)(o.salt % 5);
      int n = alive(g, true);
      if (way == 1 && n < 0)
        way = 0;
      if (way == 0) {
        auto l = particle_loop(A, kern, Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("S")),
                               Access::write(Sym<INT>("T")), Access::write(Sym<INT>("PT")), Access::write(Sym<REAL>("V")));
        l->execute();
        model(expect(-1, i));
      } else if (way == 1) {
        // through a sub group: the selection in force is the one before the write
        Ids sel = expect(n, i);
        particle_loop(N[n].g, kern, Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("S")),
                      Access::write(Sym<INT>("T")), Access::write(Sym<INT>("PT")), Access::write(Sym<REAL>("V")))
            ->execute();
        model(sel);
      } else if (way == 2) {
        for (auto &kv : S.M.parts)
          rewrite(kv.first, o.salt);
        for (int c = 0; c < ncell; c++)
          if (A->get_npart_cell(c))
            for (const char *d : {"S", "T", "PT", "V"})
              host_write(d, c);
      } else if (way == 3) {
        auto sv = sym_vector<INT>(A, {Sym<INT>("PT"), Sym<INT>("S"), Sym<INT>("T")});
        particle_loop(A,
                      [=](auto ID, auto X, auto V) {
                        INT id = ID.at(0);
                        if (id % m == 0) {
                          X.at(1, 0) = (id * 7 + s97) % 24 - 3;
                          X.at(2, 1) = (id * 5 + s31) % 17;
                          X.at(0, 0) = (id * 3 + s13) % 8 - 1;
                          V.at(1) = (REAL)((id * 11 + s41) % 64 - 30) / 4.0;
                        }
                      },
                      Access::read(Sym<INT>("ID")), Access::write(sv), Access::write(Sym<REAL>("V")))
            ->execute();
        model(expect(-1, i));
      } else {
        auto dI = A->get_dat(Sym<INT>("ID"));
        auto dS = A->get_dat(Sym<INT>("S"));
        auto dT = A->get_dat(Sym<INT>("T"));
        auto dP = A->get_dat(Sym<INT>("PT"));
        auto dV = A->get_dat(Sym<REAL>("V"));
        particle_loop(dI, kern, Access::read(dI), Access::write(dS), Access::write(dT), Access::write(dP), Access::write(dV))
            ->execute();
        model(expect(-1, i));
      }
      break;
    }
    case NEW: {
      if (N.size() >= 12)
        break;
      Rng h = rng(o.salt, (u64)r, 5);
      int parent = h.pct(50) ? -1 : alive(h, true);
      Kind k = (Kind)h.below(KIND_N);
#ifdef SIM_P07
      if (h.pct(50))
        k = (Kind)h.below(5);
#endif
      bool st = h.pct(18);
      if (k == PART) {
        int np = (int)h.range(1, 5);
        auto v = parent < 0 ? particle_group_partition(A, Sym<INT>("PT"), np)
                            : particle_group_partition(N[parent].g, Sym<INT>("PT"), np);
        for (int p = 0; p < np; p++) {
          if (h.pct(20)) { // members may be dropped at any time
            v[p].reset();
            continue;
          }
          Node q;
          q.kind = PART;
          q.parent = parent;
          q.a = p;
          q.g = v[p];
          q.kept = mark_loop(q.g);
          N.push_back(q);
        }
        break;
      }
      Node q;
      q.kind = k;
      q.parent = parent;
      if (k == UNI) {
        int cnt = (int)h.range(1, 4), m = (int)h.range(std::max(2, cnt), 5);
        std::vector<std::shared_ptr<ParticleSubGroup>> mem;
        bool cells = h.pct(40) && ncell > 1;
        int prev = 0;
        for (int j = 0; j < cnt; j++) {
          Node e;
          e.parent = parent;
          if (cells) {
            if (prev >= ncell)
              break;
            e.kind = RANGE;
            e.a = prev;
            e.b = prev + h.range(0, ncell - prev);
            if (e.a == 0 && e.b == ncell)
              e.b = ncell - 1;
            prev = (int)e.b;
          } else {
            e.kind = h.pct(70) ? SEL : VEC;
            if (j)
              e.kind = N[q.members[0]].kind;
            e.a = m;
            e.b = j;
          }
          e.g = build(parent, e.kind, e.a, e.b, false);
          e.kept = mark_loop(e.g);
          q.members.push_back((int)N.size());
          mem.push_back(e.g);
          N.push_back(e);
        }
        q.g = particle_sub_group_disjoint_union(mem, st);
      } else {
        switch (k) {
        case SEL:
        case VEC:
          q.a = h.range(1, 4);
          q.b = h.below(q.a);
          break;
        case VAL:
          q.a = h.range(-40, 40);
          break;
        case IXP:
          q.a = h.range(1, 3);
          q.b = h.below(q.a);
          break;
        case NPC:
          q.a = h.range(0, 8);
          break;
        case CELL:
          q.a = h.below(ncell);
          break;
        case RANGE:
          q.a = h.range(0, ncell);
          q.b = h.range(q.a, ncell);
          break;
        case TRUNC:
        case DISC:
          q.a = h.pct(15) ? 1000000 : h.range(0, 9);
          break;
        default:
          break;
        }
        q.g = build(parent, k, q.a, q.b, st);
      }
      q.kept = mark_loop(q.g);
      if (k == RANGE && q.a == 0 && q.b == ncell)
        q.kind = parent < 0 ? WHOLE : COPY;
      N.push_back(q);
      int n = (int)N.size() - 1;
      if (st) {
        if (!N[n].g->static_status() || !N[n].g->is_valid())
          sim::violation("op %d: a new static %s sub group is not static and valid", i, kindn[k]);
        N[n].frozen = expect(n, i);
        N[n].is_static = true;
      }
      if (h.pct(60))
        use(n, h, i);
      sim::counter(kindn[k]);
      break;
    }
    case DROP: {
      int n = alive(g, false);
      if (n >= 0) {
        N[n].dropped = true;
        N[n].kept.reset();
        bool child = false;
        for (auto &q : N) {
          child = child || q.parent == n;
          for (int m : q.members)
            child = child || m == n;
        }
        if (!child)
          N[n].g.reset();
      }
      break;
    }
    case USE: {
      for (int k = 0; k < 3; k++) {
        int n = alive(g, true);
        if (n >= 0)
          use(n, g, i);
      }
      break;
    }
    case KEPT: {
      int n = alive(g, true);
      if (n >= 0) {
        Ids got = observe(N[n].kept, (int)g.below(3), i, "kept loop");
        compare(got, expect(n, i), n, i, "a kept loop");
      }
      break;
    }
    case REMSUB: {
      int n = alive(g, true);
      if (n >= 0) {
        Ids sel = expect(n, i);
        A->remove_particles(N[n].g);
        for (i64 id : sel)
          S.M.parts.erase(id);
        structural = !sel.empty();
      }
      break;
    }
    case COMPL: {
      // first n rows and the rest of the same parent split it
      int n = g.pct(30) ? -1 : alive(g, true);
      i64 k = g.pct(10) ? 100000 : g.range(0, 9);
      auto mkp = [&](auto P) {
        return std::make_pair(particle_sub_group_truncate(P, (int)k), particle_sub_group_discard(P, (int)k));
      };
      auto pr = n < 0 ? mkp(A) : mkp(N[n].g);
      Ids t = observe(mark_loop(pr.first), 0, i, "truncate"), d = observe(mark_loop(pr.second), 0, i, "discard");
      Ids p = expect(n, i);
      auto tc = by_cell(t), pc = by_cell(p);
      sim::CoreGuard cg;
      for (i64 id : t)
        if (d.count(id) || !p.count(id))
          sim::violation("op %d: particle id %lld of truncate(%lld) is also discarded or not in the parent", i,
                         (long long)id, (long long)k);
      if (t.size() + d.size() != p.size())
        sim::violation("op %d: truncate(%lld) and discard(%lld) hold %zu and %zu of %zu particles", i, (long long)k,
                       (long long)k, t.size(), d.size(), p.size());
      for (int c = 0; c < ncell; c++)
        if (tc[c].size() != (size_t)std::min(k, (i64)pc[c].size()))
          sim::violation("op %d: truncate(%lld) holds %zu particles of cell %d with %zu", i, (long long)k, tc[c].size(), c,
                         pc[c].size());
      break;
    }
    case TOGGLE: {
      int n = alive(g, true);
      if (n < 0)
        break;
      // members of a union must stay disjoint
      bool member = false;
      for (auto &q : N)
        for (int m : q.members)
          member = member || m == n;
      if (member)
        break;
      if (N[n].is_static) {
        N[n].g->static_status(false);
        N[n].is_static = false;
      } else {
        N[n].g->static_status(true);
        N[n].frozen = expect(n, i);
        N[n].is_static = true;
      }
      if (N[n].g->static_status() != N[n].is_static)
        sim::violation("op %d: the static status was not kept", i);
      use(n, g, i);
      break;
    }
    case RECREATE: {
      // building again on request: a static sub group takes the current particles
      int n = alive(g, true);
      if (n < 0)
        break;
      bool member = false;
      for (auto &q : N)
        for (int m : q.members)
          member = member || m == n;
      if (member && N[n].is_static)
        break;
      N[n].g->create();
      if (N[n].is_static) {
        N[n].is_static = false;
        N[n].frozen = expect(n, i);
        N[n].is_static = true;
        if (!N[n].g->is_valid() || !N[n].g->static_status())
          sim::violation("op %d: a static sub group built again is not static and valid", i);
      }
      use(n, g, i);
      break;
    }
    case TWICE: {
      int n = alive(g, true);
      if (n < 0)
        break;
      auto v0 = N[n].g->get_version();
      bool u0 = N[n].g->create_if_required();
      auto v1 = N[n].g->get_version();
      bool u1 = N[n].g->create_if_required();
      auto v2 = N[n].g->get_version();
      if (v0 < 1 || v1 != v0 + (u0 ? 1 : 0) || v2 != v1 + (u1 ? 1 : 0))
        sim::violation("op %d: sub group versions %lld %lld %lld do not follow its updates %d %d", i, (long long)v0,
                       (long long)v1, (long long)v2, u0, u1);
      if (u1)
        sim::violation("op %d: a %s sub group was built twice although nothing changed", i, kindn[N[n].kind]);
      if (N[n].g->get_particle_group() != A)
        sim::violation("op %d: a sub group names another parent group", i);
      use(n, g, i);
      break;
    }
    }
    S.check(kn[o.k], i);
    // static sub groups: still valid unless the particles were restructured
    for (int n = 0; n < (int)N.size(); n++)
      if (N[n].g && N[n].is_static && !N[n].dropped) {
        bool v = N[n].g->is_valid();
        if (structural && v && !N[n].frozen.empty() && (o.k == REM || o.k == REMSUB || o.k == ADD))
          sim::violation("op %d (%s): a static sub group still claims to be valid after particles were added or removed", i,
                         kn[o.k]);
        bool restr = o.k == ADD || o.k == REM || o.k == MOVE || o.k == HYBRID || o.k == REMSUB;
        if (!v && !restr)
          sim::violation("op %d (%s): a static sub group became invalid although no particle was added, moved or removed", i,
                         kn[o.k]);
        if (!v) { // nothing may be built on it any more
          N[n].dropped = true;
          N[n].kept.reset();
        }
      }
    // a static sub group which became invalid must not become static-valid again by chance
    for (int n = 0; n < (int)N.size(); n++)
      if (N[n].g && !N[n].dropped && !usable(n)) {
        N[n].dropped = true;
        N[n].kept.reset();
      }
    // asking a sub group about itself changes nothing
    if (g.pct(40))
      for (int n = 0; n < (int)N.size(); n++)
        if (N[n].g && !N[n].dropped && usable(n) && g.pct(50)) {
          if (g.pct(70) && (N[n].g->contains_ephemeral_dat(Sym<REAL>("NOTHERE")) || N[n].g->contains_ephemeral_dat(Sym<INT>("ID"))))
            sim::violation("op %d: a sub group claims to hold a scratch property that was never added", i);
          N[n].g->is_valid();
          N[n].g->is_entire_particle_group();
          sim::counter("queried");
        }
    u64 st = (u64)o.k;
    for (auto &q : N)
      st = st * 131 + (u64)q.kind * 4 + (q.is_static ? 2 : 0) + (q.dropped ? 1 : 0);
    for (int c = 0; c < ncell; c++)
      st = st * 1000003 + (u64)A->get_npart_cell(c);
    sim::state_hash(st);
    sim::counter(kn[o.k]);
  }
  (void)toggled_parent;
  (void)freeze;
  // whatever is left must still be right
  for (int n = 0; n < (int)N.size(); n++)
    if (N[n].g && !N[n].dropped && usable(n)) {
      Ids got = observe(mark_loop(N[n].g), 0, 9999, "final loop");
      compare(got, expect(n, 9999), n, 9999, "the final loop");
    }
  N.clear();
  A.reset();
  S.free();
}
void finish() {}
const char *judge_abort(const char *) { return "the library stopped on a valid input"; }
} // namespace simwl
