// P22: per sub group scratch properties, property vectors and temporary particle groups.
#include "store.hpp"
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
enum OpK { ADD, REM, MOVE, WSEL, WOTHER, EADD, EREM, EWRITE, EREAD, ECOPY, SVEC, ADDDAT, REMDAT, TGET, TUSE, TREST, NEWSUB, REPL, TCYCLE, OK_N };
static const char *kn[] = {"add", "remove", "cell move", "write selecting property", "write other property",
                           "add scratch property", "remove scratch property", "write scratch", "read scratch",
                           "copy scratch", "property vector", "add property", "remove property", "get temporary group",
                           "use temporary group", "restore temporary group", "new sub group", "replace property",
                           "temporary group after property changes"};
static const int wt[OK_N] = {4, 3, 3, 5, 4, 18, 8, 16, 12, 12, 16, 8, 6, 6, 6, 4, 4, 14, 9};
struct Op {
  int k, n, s;
  u64 salt;
};
static MeshSpec ms;
static std::vector<Op> ops;
void choose_knobs() {
  choose_big(3);
  if (sim::K.nranks > 2)
    sim::K.nranks = 1 + (i64)sim::rnd_below(sim::S_CFG, 2);
}
void plan() {
  seed_plan();
  Rng r = rng(1);
  ms = random_mesh(rng(2), 30);
  world_reset(ms);
  int tot = 0;
  for (int k = 0; k < OK_N; k++)
    tot += wt[k];
  ops.clear();
  if (r.pct(90))
    ops.push_back({ADD, first_add(r, 60), 0, r.next()});
  for (int s = 0; s < 2; s++)
    ops.push_back({NEWSUB, 0, s, r.next()});
  int n = (int)r.range(6, 20);
  for (int i = 0; i < n; i++) {
    int x = (int)r.below(tot), k = 0;
    while (k < OK_N - 1 && x >= wt[k])
      x -= wt[k], k++;
    ops.push_back({k, (int)r.range(0, 30), (int)r.below(3), r.next()});
  }
}
struct Eph {
  int ncomp;
  bool real, written = false;
  std::map<i64, std::vector<i64>> v;
};
struct Sub {
  ParticleSubGroupSharedPtr g;
  int kind = 0; // 0 by SEL, 1 whole group, 2 static by SEL, 3 child of kind 0
  i64 m = 2;
  ParticleSubGroupSharedPtr parent;
  std::set<i64> frozen;
  std::map<std::string, Eph> e; // those that must exist
};
struct Tmp {
  ParticleGroupSharedPtr g;
  LocalModel M;
  std::vector<DatSpec> spec;
};
static const char *enames[] = {"E0", "E1", "E2"};
void rank_main(int) {
  Store S(ms, {{"SEL", 1, false}, {"N", 3, false}, {"V", 3, true}, {"W", 3, true}, {"O", 3, false}});
  auto A = S.A;
  auto target = S.target;
  const int ncell = S.ncell;
  std::map<int, Sub> subs;
  std::vector<Tmp> tmps;
  auto pgt = std::make_shared<ParticleGroupTemporary>();
  auto sel = [&](const Sub &s, i64 id) {
    i64 x = S.M.parts.at(id).second.at("SEL")[0];
    i64 mm = ((x % s.m) + s.m) % s.m;
    switch (s.kind) {
    case 0:
      return mm == 0;
    case 1:
      return true;
    case 2:
      return s.frozen.count(id) > 0;
    default:
      return mm == 0 && id % 2 == 0;
    }
  };
  auto pred = [=](i64 m) {
    return [=](auto X) { return ((X.at(0) % m) + m) % m == 0; };
  };
  auto make = [&](Sub &s, u64 salt) {
    s.kind = (int)(salt % 4);
    s.m = 2 + (i64)(salt / 4 % 2);
    s.e.clear();
    const i64 m = s.m;
    if (s.kind == 1)
      s.g = particle_sub_group(A);
    else if (s.kind == 2) {
      s.g = static_particle_sub_group(A, pred(m), Access::read(Sym<INT>("SEL")));
      s.frozen.clear();
      for (auto &kv : S.M.parts)
        if (((kv.second.second["SEL"][0] % m) + m) % m == 0)
          s.frozen.insert(kv.first);
    } else {
      auto p = particle_sub_group(A, pred(m), Access::read(Sym<INT>("SEL")));
      if (s.kind == 0)
        s.g = p;
      else {
        s.parent = p;
        s.g = particle_sub_group(p, [=](auto ID) { return ID.at(0) % 2 == 0; }, Access::read(Sym<INT>("ID")));
      }
    }
  };
  // scratch properties that must be gone now
  std::map<int, std::set<std::string>> gone;
  auto structural = [&](bool changed, u64 salt) {
    for (auto &q : subs) {
      Sub &s = q.second;
      if (changed) {
        for (auto &e : s.e)
          gone[q.first].insert(e.first);
        s.e.clear();
      } else
        for (auto it = s.e.begin(); it != s.e.end();) {
          bool there = it->second.real ? s.g->contains_ephemeral_dat(Sym<REAL>(it->first))
                                       : s.g->contains_ephemeral_dat(Sym<INT>(it->first));
          it = there ? std::next(it) : s.e.erase(it);
        }
      if (s.kind == 2) { // a static sub group is invalid now
        gone.erase(q.first);
        make(s, salt * 4 + 2);
      }
    }
  };
  auto verify_gone = [&](int i) {
    for (auto &q : gone)
      for (auto &n : q.second) {
        auto &s = subs.at(q.first);
        if (s.e.count(n))
          continue;
        if (s.g->contains_ephemeral_dat(Sym<REAL>(n)) || s.g->contains_ephemeral_dat(Sym<INT>(n)))
          sim::violation("op %d (%s): scratch property %s still exists although the sub group changed", i, kn[ops[i].k],
                         n.c_str());
      }
    gone.clear();
  };
  auto exists = [&](Sub &s, const std::string &n, bool real) {
    return real ? s.g->contains_ephemeral_dat(Sym<REAL>(n)) : s.g->contains_ephemeral_dat(Sym<INT>(n));
  };
  std::map<std::string, std::pair<int, bool>> extra; // properties of the group that come and go
  auto drop_scratch = [&]() { // the sub groups may or may not have been rebuilt
    for (auto &q : subs)
      for (auto it = q.second.e.begin(); it != q.second.e.end();)
        it = exists(q.second, it->first, it->second.real) ? std::next(it) : q.second.e.erase(it);
  };
  auto add_extra = [&](u64 salt) {
    const bool real = salt % 2;
    const std::string n = (real ? "XR" : "XI") + std::to_string(salt / 2 % 3);
    if (extra.count(n))
      return;
    const int xc = 1 + (int)(salt / 6 % 2);
    if (real)
      A->add_particle_dat(ParticleDat(target, ParticleProp(Sym<REAL>(n), xc), ncell));
    else
      A->add_particle_dat(ParticleDat(target, ParticleProp(Sym<INT>(n), xc), ncell));
    extra[n] = {xc, real};
    S.spec.push_back({n, xc, real});
    // the contents of a new property are not specified until it is written
    auto ker = [=](auto ID, auto X) { for (int c = 0; c < xc; c++) X.at(c) = ID.at(0) + 7 * c; };
    if (real)
      particle_loop(A, ker, Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>(n)))->execute();
    else
      particle_loop(A, ker, Access::read(Sym<INT>("ID")), Access::write(Sym<INT>(n)))->execute();
    for (auto &kv : S.M.parts) {
      auto &v = kv.second.second[n];
      v.clear();
      for (int c = 0; c < xc; c++)
        v.push_back(real ? bits((double)(kv.first + 7 * c)) : kv.first + 7 * c);
    }
    drop_scratch();
  };
  auto rem_extra = [&](u64 salt) {
    if (extra.empty())
      return;
    auto x = std::next(extra.begin(), (long)(salt % extra.size()));
    const std::string n = x->first;
    if (x->second.second)
      A->remove_particle_dat(Sym<REAL>(n));
    else
      A->remove_particle_dat(Sym<INT>(n));
    extra.erase(x);
    for (size_t k = 0; k < S.spec.size(); k++)
      if (S.spec[k].name == n) {
        S.spec.erase(S.spec.begin() + (long)k);
        break;
      }
    for (auto &kv : S.M.parts)
      kv.second.second.erase(n);
    drop_scratch();
  };
  auto tget = [&](int i, const char *what) {
    Tmp t;
    t.g = pgt->get(A);
    t.spec = S.spec;
    if (t.g == A)
      sim::violation("op %d (%s): the temporary group is the group itself", i, what);
    for (auto &x : tmps)
      if (x.g == t.g)
        sim::violation("op %d (%s): the same temporary group was handed out twice", i, what);
    if (t.g->get_npart_local() != 0)
      sim::violation("op %d (%s): the temporary group holds %d particles", i, what, (int)t.g->get_npart_local());
    for (auto &d : S.spec)
      if (d.real ? !t.g->contains_dat(Sym<REAL>(d.name)) || t.g->get_dat(Sym<REAL>(d.name))->ncomp != d.ncomp
                 : !t.g->contains_dat(Sym<INT>(d.name)) || t.g->get_dat(Sym<INT>(d.name))->ncomp != d.ncomp)
        sim::violation("op %d (%s): property %s of the group is missing or has another size", i, what, d.name.c_str());
    for (auto &p : t.g->get_particle_spec().properties_real)
      if (!A->contains_dat(p.sym))
        sim::violation("op %d (%s): the temporary group has REAL property %s which the group lacks", i, what,
                       p.sym.name.c_str());
    for (auto &p : t.g->get_particle_spec().properties_int)
      if (!A->contains_dat(p.sym))
        sim::violation("op %d (%s): the temporary group has INT property %s which the group lacks", i, what,
                       p.sym.name.c_str());
    for (const char *n : {"XI0", "XI1", "XI2", "TX", "XR0", "XR1", "XR2"})
      if (!extra.count(n) && (t.g->contains_dat(Sym<INT>(n)) || t.g->contains_dat(Sym<REAL>(n))))
        sim::violation("op %d (%s): the temporary group has property %s which the group lacks", i, what, n);
    tmps.push_back(t);
  };
  for (int i = 0; i < (int)ops.size(); i++) {
    const Op &o = ops[i];
    if (!sim::op_enabled(i))
      continue;
    sim::op_begin(i, kn[o.k]);
    Rng g = rng(o.salt, (u64)S.r, 3);
    if (o.k != NEWSUB && o.k >= EADD && o.k <= SVEC && !subs.count(o.s))
      continue;
    Sub *s = subs.count(o.s) ? &subs[o.s] : nullptr;
    // pick an existing scratch property
    std::string en;
    if (s && !s->e.empty()) {
      auto it = s->e.begin();
      std::advance(it, o.salt % s->e.size());
      en = it->first;
    }
    switch (o.k) {
    case ADD: {
      int n = (int)g.range(0, o.n);
      S.add(n, o.salt);
      structural(n > 0, o.salt);
      break;
    }
    case REM:
      structural(S.remove([&](i64 id) { return chosen(o.salt, id); }, o.salt) > 0, o.salt);
      break;
    case MOVE:
      S.move([&](i64 id) { return chosen(o.salt, id); }, o.salt);
      structural(false, o.salt);
      break;
    case WSEL: {
      const i64 k = (i64)(o.salt % 5);
      particle_loop(A, [=](auto X) { X.at(0) += k; }, Access::write(Sym<INT>("SEL")))->execute();
      for (auto &kv : S.M.parts)
        kv.second.second["SEL"][0] += k;
      for (auto &q : subs)
        if (S.M.parts.empty()) { // nothing was written
          for (auto it = q.second.e.begin(); it != q.second.e.end();)
            it = exists(q.second, it->first, it->second.real) ? std::next(it) : q.second.e.erase(it);
        } else if (q.second.kind == 0 || q.second.kind == 3) {
          for (auto &e : q.second.e)
            gone[q.first].insert(e.first);
          q.second.e.clear();
        }
      break;
    }
    case WOTHER:
      particle_loop(A, [=](auto X) { X.at(1) += 3; }, Access::write(Sym<INT>("N")))->execute();
      for (auto &kv : S.M.parts)
        kv.second.second["N"][1] += 3;
      break;
    case NEWSUB:
      verify_gone(i);
      make(subs[o.s], o.salt);
      break;
    case EADD: {
      verify_gone(i);
      std::string n = enames[o.salt / 8 % 3];
      bool real = o.salt / 24 % 2;
      int nc = (int)(o.salt / 48 % 2) ? 3 : 2;
      if (s->e.count(n)) {
        if (s->e[n].real == real && s->e[n].ncomp == nc) { // adding it again changes nothing
          real ? s->g->add_ephemeral_dat(Sym<REAL>(n), nc) : s->g->add_ephemeral_dat(Sym<INT>(n), nc);
        }
        break;
      }
      real ? s->g->add_ephemeral_dat(Sym<REAL>(n), nc) : s->g->add_ephemeral_dat(Sym<INT>(n), nc);
      s->e[n] = Eph{nc, real};
      break;
    }
    case EREM: {
      if (en.empty())
        break;
      auto e = s->e[en];
      e.real ? s->g->remove_ephemeral_dat(Sym<REAL>(en)) : s->g->remove_ephemeral_dat(Sym<INT>(en));
      s->e.erase(en);
      if (exists(*s, en, e.real))
        sim::violation("op %d (%s): %s still exists", i, kn[o.k], en.c_str());
      if (o.salt % 2) { // and comes back with other contents
        e.real ? s->g->add_ephemeral_dat(Sym<REAL>(en), e.ncomp) : s->g->add_ephemeral_dat(Sym<INT>(en), e.ncomp);
        s->e[en] = Eph{e.ncomp, e.real};
      }
      break;
    }
    case EWRITE: {
      if (en.empty())
        break;
      auto &e = s->e[en];
      const int nc = e.ncomp;
      const i64 k = (i64)(o.salt % 97);
      if (e.real)
        particle_loop(
            s->g,
            [=](auto ID, auto E, auto V) {
              for (int c = 0; c < nc; c++)
                E.at_ephemeral(c) = V.at(c) + (double)(ID.at(0) + k + c);
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>(en)), Access::read(Sym<REAL>("V")))
            ->execute();
      else
        particle_loop(
            s->g,
            [=](auto ID, auto E) {
              for (int c = 0; c < nc; c++)
                E.at_ephemeral(c) = ID.at(0) * 3 + k + c;
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>(en)))
            ->execute();
      e.written = true;
      e.v.clear();
      for (auto &kv : S.M.parts)
        if (sel(*s, kv.first))
          for (int c = 0; c < nc; c++)
            e.v[kv.first].push_back(e.real ? bits(dbl(kv.second.second["V"][c]) + (double)(kv.first + k + c))
                                           : kv.first * 3 + k + c);
      break;
    }
    case EREAD: {
      if (en.empty() || !s->e[en].written)
        break;
      auto &e = s->e[en];
      const int nc = e.ncomp;
      if (o.salt / 11 % 2) { // rows of the storage itself
        size_t rows = 0;
        std::multiset<std::vector<i64>> got, want;
        for (int c = 0; c < ncell; c++) {
          if (e.real) {
            auto D = s->g->get_ephemeral_dat(Sym<REAL>(en))->cell_dat.get_cell(c);
            for (int l = 0; l < D->nrow; l++, rows++) {
              std::vector<i64> v{c};
              for (int k = 0; k < nc; k++)
                v.push_back(bits(D->at(l, k)));
              got.insert(v);
            }
          } else {
            auto D = s->g->get_ephemeral_dat(Sym<INT>(en))->cell_dat.get_cell(c);
            for (int l = 0; l < D->nrow; l++, rows++) {
              std::vector<i64> v{c};
              for (int k = 0; k < nc; k++)
                v.push_back(D->at(l, k));
              got.insert(v);
            }
          }
        }
        for (auto &kv : e.v) {
          std::vector<i64> v{S.M.parts.at(kv.first).first};
          v.insert(v.end(), kv.second.begin(), kv.second.end());
          want.insert(v);
        }
        if (got != want)
          sim::violation("op %d (%s): scratch property %s does not hold the %zu rows that were written (%zu rows)", i,
                         kn[o.k], en.c_str(), want.size(), rows);
      }
      if (e.real) {
        particle_loop(
            s->g,
            [=](auto E, auto W) {
              for (int c = 0; c < nc; c++)
                W.at(c) = E.at_ephemeral(c);
            },
            Access::read(Sym<REAL>(en)), Access::write(Sym<REAL>("W")))
            ->execute();
        for (auto &kv : e.v)
          for (int c = 0; c < nc; c++)
            S.f(kv.first, "W", c) = kv.second[c];
      } else {
        particle_loop(
            s->g,
            [=](auto E, auto W) {
              for (int c = 0; c < nc; c++)
                W.at(c) = E.at_ephemeral(c);
            },
            Access::read(Sym<INT>(en)), Access::write(Sym<INT>("O")))
            ->execute();
        for (auto &kv : e.v)
          for (int c = 0; c < nc; c++)
            S.f(kv.first, "O", c) = kv.second[c];
      }
      break;
    }
    case ECOPY: {
      if (en.empty() || s->e[en].ncomp != 3)
        break;
      auto &e = s->e[en];
      if (o.salt / 5 % 2 || !e.written) {
        e.real ? copy_particle_dat_to_ephemeral_dat(s->g, Sym<REAL>("V"), Sym<REAL>(en))
               : copy_particle_dat_to_ephemeral_dat(s->g, Sym<INT>("N"), Sym<INT>(en));
        e.v.clear();
        for (auto &kv : S.M.parts)
          if (sel(*s, kv.first))
            e.v[kv.first] = kv.second.second[e.real ? "V" : "N"];
        e.written = true;
      } else {
        e.real ? copy_ephemeral_dat_to_particle_dat(s->g, Sym<REAL>(en), Sym<REAL>("W"))
               : copy_ephemeral_dat_to_particle_dat(s->g, Sym<INT>(en), Sym<INT>("O"));
        for (auto &kv : e.v)
          S.M.parts.at(kv.first).second[e.real ? "W" : "O"] = kv.second;
      }
      break;
    }
    case SVEC: {
      // vectors of properties, scratch properties among them
      std::string er, xr;
      for (auto &e : s->e)
        if (e.second.real)
          er = e.first;
      for (auto &x : extra)
        if (!x.second.second)
          xr = x.first;
      const i64 k = (i64)(o.salt % 89);
      if (!er.empty() && o.salt / 13 % 3) {
        auto &e = s->e[er];
        const int nc = e.ncomp;
        std::vector<Sym<REAL>> v{Sym<REAL>(er), Sym<REAL>("V"), Sym<REAL>("W")};
        auto SV = o.salt / 39 % 2 ? sym_vector<REAL>(s->g, v) : sym_vector<REAL>(A, v);
        const bool ix = o.salt / 78 % 2;
        particle_loop(
            s->g,
            [=](auto IX, auto D) {
              for (int c = 0; c < nc; c++)
                if (ix)
                  D.at_ephemeral(0, IX, c) = D.at(1, IX, c) + (double)k;
                else
                  D.at_ephemeral(0, c) = D.at(1, c) + (double)k;
            },
            Access::read(ParticleLoopIndex{}), Access::write(SV))
            ->execute();
        e.v.clear();
        e.written = true;
        for (auto &kv : S.M.parts)
          if (sel(*s, kv.first))
            for (int c = 0; c < nc; c++)
              e.v[kv.first].push_back(bits(dbl(kv.second.second["V"][c]) + (double)k));
        if (o.salt / 156 % 2) {
          auto SR = sym_vector<REAL>(s->g, v);
          particle_loop(
              s->g,
              [=](auto D, auto W) {
                for (int c = 0; c < nc; c++)
                  W.at(c) = D.at_ephemeral(0, c) - D.at(1, c);
              },
              Access::read(SR), Access::write(Sym<REAL>("W")))
              ->execute();
          for (auto &kv : e.v)
            for (int c = 0; c < nc; c++)
              S.f(kv.first, "W", c) = bits(dbl(kv.second[c]) - dbl(S.f(kv.first, "V", c)));
        }
      } else if (!xr.empty()) {
        // properties that were added and removed before
        std::vector<Sym<INT>> v{Sym<INT>("N"), Sym<INT>(xr)};
        auto SV = sym_vector<INT>(A, v);
        const bool grp = o.salt / 7 % 2;
        auto ker = [=](auto D) { D.at(1, 0) = D.at(0, 0) + k; };
        if (grp)
          particle_loop(A, ker, Access::write(SV))->execute();
        else
          particle_loop(s->g, ker, Access::write(SV))->execute();
        for (auto &kv : S.M.parts)
          if (grp || sel(*s, kv.first))
            kv.second.second[xr][0] = kv.second.second["N"][0] + k;
      }
      break;
    }
    case ADDDAT:
      add_extra(o.salt);
      break;
    case REMDAT:
      rem_extra(o.salt);
      break;
    case REPL: {
      // a property is used through a vector, removed, added again and used through the same vector
      if (!s)
        break;
      const bool eph = o.salt / 3 % 2, real = o.salt / 6 % 2, wr = o.salt / 12 % 2, onsub = eph || o.salt / 24 % 2;
      const std::string n = eph ? "ER" : "XR", src = real ? "V" : "N", dst = real ? "W" : "O";
      const i64 k = (i64)(o.salt / 48 % 61);
      auto go = [&](auto sym, auto tag) {
        using T = decltype(tag);
        auto add = [&]() {
          if (eph)
            s->g->add_ephemeral_dat(Sym<T>(n), 2);
          else
            A->add_particle_dat(ParticleDat(target, ParticleProp(Sym<T>(n), 2), ncell));
        };
        auto rem = [&]() {
          if (eph)
            s->g->remove_ephemeral_dat(Sym<T>(n));
          else
            A->remove_particle_dat(Sym<T>(n));
        };
        auto loop = [&](auto ker, auto... a) {
          if (onsub)
            particle_loop(s->g, ker, a...)->execute();
          else
            particle_loop(A, ker, a...)->execute();
        };
        std::vector<Sym<T>> v{Sym<T>(src), Sym<T>(n)};
        for (int round = 0; round < 3; round++) {
          if (round)
            rem();
          add();
          const T kk = (T)(k + round * 100);
          if (wr) {
            auto SV = sym_vector<T>(A, v);
            loop(
                [=](auto D) {
                  for (int c = 0; c < 2; c++)
                    if (eph)
                      D.at_ephemeral(1, c) = D.at(0, c) + kk;
                    else
                      D.at(1, c) = D.at(0, c) + kk;
                },
                Access::write(SV));
          } else
            loop(
                [=](auto S_, auto X) {
                  for (int c = 0; c < 2; c++)
                    if (eph)
                      X.at_ephemeral(c) = S_.at(c) + kk;
                    else
                      X.at(c) = S_.at(c) + kk;
                },
                Access::read(Sym<T>(src)), Access::write(Sym<T>(n)));
          if (o.salt / 3000 % 4 == 0 && round == 1)
            continue; // not used in between
          if (wr)
            loop(
                [=](auto X, auto O) {
                  for (int c = 0; c < 2; c++)
                    O.at(c) = eph ? X.at_ephemeral(c) : X.at(c);
                },
                Access::read(Sym<T>(n)), Access::write(Sym<T>(dst)));
          else {
            auto SV = sym_vector<T>(A, v);
            loop(
                [=](auto D, auto O) {
                  for (int c = 0; c < 2; c++)
                    O.at(c) = eph ? D.at_ephemeral(1, c) : D.at(1, c);
                },
                Access::read(SV), Access::write(Sym<T>(dst)));
          }
          for (auto &kv : S.M.parts)
            if (!onsub || sel(*s, kv.first))
              for (int c = 0; c < 2; c++) {
                i64 x = kv.second.second[src][c];
                kv.second.second[dst][c] = real ? bits(dbl(x) + (double)kk) : x + (i64)kk;
              }
          S.check(kn[o.k], i);
        }
        rem();
        (void)sym;
      };
      if (real)
        go(0, (REAL)0);
      else
        go(0, (INT)0);
      for (auto &q : subs)
        for (auto it = q.second.e.begin(); it != q.second.e.end();)
          it = exists(q.second, it->first, it->second.real) ? std::next(it) : q.second.e.erase(it);
      break;
    }
    case TGET: {
      if (tmps.size() >= 3)
        break;
      tget(i, kn[o.k]);
      break;
    }
    case TCYCLE: {
      // the properties of the group change between two uses of one temporary group
      if (tmps.empty())
        tget(i, kn[o.k]);
      pgt->restore(A, tmps.back().g);
      tmps.pop_back();
      Rng g{o.salt | 1};
      const int nch = 1 + (int)g.below(4);
      for (int c = 0; c < nch; c++)
        if (g.below(2))
          add_extra(g.next());
        else
          rem_extra(g.next());
      tget(i, kn[o.k]);
      break;
    }
    case TUSE: {
      if (tmps.empty())
        break;
      auto &t = tmps[o.salt % tmps.size()];
      auto copy_in = [&](i64 id, const std::pair<int, Fields> &q) {
        std::pair<int, Fields> w{q.first, {}};
        for (auto &d : t.spec) {
          auto it = q.second.find(d.name);
          w.second[d.name] = it == q.second.end() || it->second.size() != (size_t)d.ncomp
                                 ? std::vector<i64>((size_t)d.ncomp, 0)
                                 : it->second;
        }
        t.M.parts[id] = w;
      };
      // sizes of properties can have changed since the group was handed out
      bool same = true;
      for (auto &d : t.spec)
        for (auto &e : S.spec)
          if (d.name == e.name && d.ncomp != e.ncomp)
            same = false;
      if (t.M.parts.empty() && same && s && o.salt / 3 % 2) {
        t.g->add_particles_local(s->g);
        for (auto &kv : S.M.parts)
          if (sel(*s, kv.first))
            copy_in(kv.first, kv.second);
      } else if (t.M.parts.empty() && same) {
        t.g->add_particles_local(A);
        for (auto &kv : S.M.parts)
          copy_in(kv.first, kv.second);
      } else {
        particle_loop(t.g, [=](auto N) { N.at(2) = 77; }, Access::write(Sym<INT>("N")))->execute();
        for (auto &kv : t.M.parts)
          kv.second.second["N"][2] = 77;
        if (o.salt / 3 % 2 && !t.g->contains_dat(Sym<INT>("TX"))) {
          t.g->add_particle_dat(ParticleDat(target, ParticleProp(Sym<INT>("TX"), 2), ncell));
          t.spec.push_back({"TX", 2, false});
          particle_loop(t.g, [=](auto X) { X.at(0) = 0; X.at(1) = 0; }, Access::write(Sym<INT>("TX")))->execute();
          for (auto &kv : t.M.parts)
            kv.second.second["TX"] = {0, 0};
        }
      }
      break;
    }
    case TREST: {
      if (tmps.empty())
        break;
      size_t k = o.salt % tmps.size();
      auto gp = tmps[k].g;
      tmps[k].g.reset();
      pgt->restore(A, gp);
      if (gp != nullptr)
        sim::violation("op %d (%s): the handle of a restored group is still usable", i, kn[o.k]);
      tmps.erase(tmps.begin() + (long)k);
      break;
    }
    }
    if (o.salt / 17 % 3 == 0)
      verify_gone(i);
    if (o.salt / 19 % 2)
      for (auto &q : subs)
        for (auto &e : q.second.e)
          if (!exists(q.second, e.first, e.second.real))
            sim::violation("op %d (%s): scratch property %s vanished although its sub group did not change", i, kn[o.k],
                           e.first.c_str());
    S.check(kn[o.k], i);
    for (auto &t : tmps) {
      auto sn = read_group(t.g, t.spec, S.r, ncell);
      hash_snap(sn);
      sim::CoreGuard cg;
      compare_local(t.M, sn, t.spec, "temporary group", i);
    }
    sim::state_hash((u64)o.k * 1000003 + S.M.parts.size() * 31 + tmps.size() * 7 + (s ? s->e.size() : 9));
  }
  for (auto &t : tmps)
    pgt->restore(A, t.g);
  tmps.clear();
  pgt.reset();
  subs.clear();
  A.reset();
  target.reset();
  S.free();
}
void finish() {}
const char *judge_abort(const char *) { return "the library stopped on a valid input"; }
} // namespace simwl
