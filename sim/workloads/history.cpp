// P02: the particles of a group are exactly what its add/remove/move history says.
#include "wl.hpp"
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
enum OpK { ADD, ADDPART, ADDGROUP, ADDSUB, REMVEC, REMUSM, REMSUB, CELLMOVE, WRITE, CLEAR, ADDDAT, REMDAT, GETP, SETCELL, REMOVER, OK_N };
static const char *kn[] = {"add set", "add partial set", "add group", "add sub group", "remove list", "remove device list",
                           "remove sub group", "cell move", "write loop", "clear", "add dat", "remove dat",
                           "get particles", "set cell", "remover"};
struct Op {
  int k, n;
  u64 salt;
};
static MeshSpec ms;
static std::vector<Op> ops;
static int hint;
void choose_knobs() {
  choose_big(3);
  if (sim::chance(sim::S_CFG, 60))
    sim::K.nranks = 1;
  else if (sim::K.nranks > 3)
    sim::K.nranks = 2;
}
void plan() {
  seed_plan();
  Rng r = rng(1);
  ms = random_mesh(rng(2), 48);
  world_reset(ms);
  hint = r.pct(20) ? (int)r.range(1, 20) : 0;
  if (hint)
    setenv("NESO_PARTICLES_NPART_CELL_HINT", std::to_string(hint).c_str(), 1);
  int n = (int)r.range(4, 14);
  ops.clear();
  ops.push_back({ADD, first_add(r, 60), r.next()});
  for (int i = 0; i < n; i++) {
    static const int w[OK_N] = {14, 5, 6, 7, 12, 6, 9, 12, 8, 2, 5, 3, 6, 3, 5};
    int x = (int)r.below(103), k = 0;
    while (k < OK_N - 1 && x >= w[k])
      x -= w[k], k++;
    ops.push_back({k, (int)(r.pct(15) ? r.range(30, 120) : r.range(0, 30)), r.next()});
  }
}
static i64 val(i64 id, u64 salt, int c, bool real) {
  Rng g = rng(salt, (u64)id, c + 1);
  return real ? bits((g.unit() - 0.5) * 1e3) : (i64)g.next();
}
static Fields make_fields(const std::vector<DatSpec> &spec, i64 id, u64 salt, int r, int cell) {
  Fields f;
  for (auto &d : spec) {
    auto &v = f[d.name];
    if (d.name == "ID")
      v = {id};
    else if (d.name == "CELL_ID")
      v = {cell};
    else if (d.name == "P") {
      Rng g = rng(salt, (u64)id, 4242);
      double p[3];
      pos_in_cell(g, r, cell, p);
      for (int c = 0; c < d.ncomp; c++)
        v.push_back(bits(p[c]));
    } else
      for (int c = 0; c < d.ncomp; c++)
        v.push_back(val(id, salt + std::hash<std::string>()(d.name), c, d.real));
  }
  return f;
}
static void fill_set(ParticleSet &ps, int j, const std::vector<DatSpec> &spec, Fields &f) {
  for (auto &d : spec)
    for (int c = 0; c < d.ncomp; c++)
      if (d.real)
        ps.at(Sym<REAL>(d.name), j, c) = dbl(f[d.name][c]);
      else
        ps.at(Sym<INT>(d.name), j, c) = f[d.name][c];
}
// choose a set of existing particles
static bool chosen(const Op &o, i64 id) {
  Rng g = rng(o.salt, (u64)id, 7);
  int p = (int)(o.salt % 5);
  return p == 0 ? true : g.pct(p == 1 ? 5 : p == 2 ? 90 : 40);
}
void rank_main(int) {
  std::vector<DatSpec> spec = {{"P", ms.ndim, true}, {"V", 2, true},   {"CELL_ID", 1, false},
                               {"ID", 1, false},     {"Q", 3, false}, {"SEL", 1, false}};
  const int r0 = sim::rank();
  Fix F = make_fix(ms, spec);
  auto A = F.A;
  const int r = F.r, ncell = F.ncell;
  (void)r0;
  // a second group with another set of properties on the same domain
  std::vector<DatSpec> bspec = {{"P", ms.ndim, true}, {"CELL_ID", 1, false}, {"ID", 1, false}, {"Q", 3, false},
                                {"SEL", 1, false}, {"ONLYB", 1, true}};
  auto bps = to_spec(bspec);
  auto B = std::make_shared<ParticleGroup>(F.domain, bps, F.target);
  LocalModel M;
  std::map<std::string, std::pair<int, bool>> extra;
  i64 next_id = 1 + (i64)r * 1000000;
  auto cur_spec = [&]() {
    auto s = spec;
    for (auto &e : extra)
      s.push_back({e.first, e.second.first, e.second.second});
    return s;
  };
  auto pick_cell = [&](Rng &g, const Op &o) { return o.salt % 3 == 0 ? (int)(o.salt % (u64)ncell) : (int)g.below(ncell); };
  for (int i = 0; i < (int)ops.size(); i++) {
    const Op &o = ops[i];
    if (!sim::op_enabled(i))
      continue;
    sim::op_begin(i, kn[o.k]);
    Rng g = rng(o.salt, r, 1);
    auto cs = cur_spec();
    // rows of every particle as the library stores them now
    auto locate = [&](auto pred, std::vector<INT> &cells, std::vector<INT> &layers, std::vector<i64> &ids) {
      for (int c = 0; c < ncell; c++) {
        auto ID = A->get_cell(Sym<INT>("ID"), c);
        for (int l = 0; l < ID->nrow; l++)
          if (pred(ID->at(l, 0))) {
            cells.push_back(c);
            layers.push_back(l);
            ids.push_back(ID->at(l, 0));
          }
      }
      // any order is allowed
      for (size_t k = ids.size(); k > 1; k--) {
        size_t j = (size_t)g.below((i64)k);
        std::swap(cells[k - 1], cells[j]);
        std::swap(layers[k - 1], layers[j]);
        std::swap(ids[k - 1], ids[j]);
      }
    };
    switch (o.k) {
    case ADD:
    case ADDPART: {
      auto s = cs;
      if (o.k == ADDPART) { // some properties are not supplied: they become zero
        std::vector<DatSpec> s2;
        for (auto &d : s)
          if (d.name == "ID" || d.name == "CELL_ID" || d.name == "P" || g.pct(50))
            s2.push_back(d);
        s = s2;
      }
      int n = (int)g.range(0, o.n);
      auto ps = std::make_shared<ParticleSet>(n, to_spec(s));
      for (int j = 0; j < n; j++) {
        i64 id = next_id++;
        int cell = pick_cell(g, o);
        Fields f = make_fields(s, id, o.salt, r, cell);
        fill_set(*ps, j, s, f);
        for (auto &d : cs)
          if (!f.count(d.name))
            f[d.name] = std::vector<i64>((size_t)d.ncomp, 0);
        M.parts[id] = {cell, f};
      }
      if (((o.salt >> 9) & 7) < 3) { // through another set: by column, by set, with more or fewer properties
        auto s2 = s;
        if (o.salt & 4096)
          s2.push_back({"MORE", 2, (o.salt & 8192) != 0});
        auto q = std::make_shared<ParticleSet>(n, to_spec(s2));
        q->set(*ps);
        for (auto &d : s)
          if (g.pct(30))
            for (int c = 0; c < d.ncomp; c++) {
              if (d.real) {
                std::vector<REAL> v;
                for (int j = 0; j < n; j++)
                  v.push_back(ps->at(Sym<REAL>(d.name), j, c));
                for (int j = 0; j < n; j++)
                  q->at(Sym<REAL>(d.name), j, c) = -1.0;
                q->set(Sym<REAL>(d.name), c, v);
              } else {
                std::vector<INT> v;
                for (int j = 0; j < n; j++)
                  v.push_back(ps->at(Sym<INT>(d.name), j, c));
                for (int j = 0; j < n; j++)
                  q->at(Sym<INT>(d.name), j, c) = -1;
                q->set(Sym<INT>(d.name), c, v);
              }
            }
        if (o.salt & 4096) { // and back, only what both have is copied
          auto b = std::make_shared<ParticleSet>(n, to_spec(s));
          b->set(q);
          q = b;
        }
        ps = q;
        sim::counter("add set made from another set");
      }
      if (o.salt & 64)
        A->add_particles_local(ps);
      else
        A->add_particles_local(*ps);
      break;
    }
    case ADDGROUP:
    case ADDSUB: {
      B->clear();
      int n = (int)g.range(0, o.n);
      ParticleSet ps(n, to_spec(bspec));
      std::vector<std::pair<i64, Fields>> add;
      for (int j = 0; j < n; j++) {
        i64 id = next_id++;
        int cell = pick_cell(g, o);
        Fields f = make_fields(bspec, id, o.salt, r, cell);
        f["SEL"] = {(i64)g.below(2)};
        fill_set(ps, j, bspec, f);
        if (o.k == ADDGROUP || f["SEL"][0] == 1) {
          Fields h;
          for (auto &d : cs)
            h[d.name] = f.count(d.name) ? f[d.name] : std::vector<i64>((size_t)d.ncomp, 0);
          M.parts[id] = {cell, h};
        }
      }
      B->add_particles_local(ps);
      if (o.k == ADDGROUP)
        A->add_particles_local(B);
      else {
        auto sg = particle_sub_group(B, [=](auto S) { return S.at(0) == 1; }, Access::read(Sym<INT>("SEL")));
        A->add_particles_local(sg);
      }
      break;
    }
    case REMVEC:
    case REMUSM: {
      std::vector<INT> cells, layers;
      std::vector<i64> ids;
      locate([&](i64 id) { return chosen(o, id); }, cells, layers, ids);
      if (o.k == REMVEC)
        A->remove_particles((int)ids.size(), cells, layers);
      else {
        BufferDevice<INT> dc(F.target, cells), dl(F.target, layers);
        A->remove_particles((int)ids.size(), dc.ptr, dl.ptr);
      }
      for (auto id : ids)
        M.parts.erase(id);
      break;
    }
    case REMSUB: {
      const int mod = 1 + (int)(o.salt % 4), rem = (int)((o.salt >> 8) % 4);
      auto sg = particle_sub_group(A, [=](auto ID) { return ID.at(0) % mod == rem % mod; }, Access::read(Sym<INT>("ID")));
      A->remove_particles(sg);
      for (auto it = M.parts.begin(); it != M.parts.end();)
        it = it->first % mod == rem % mod ? M.parts.erase(it) : std::next(it);
      break;
    }
    case REMOVER: {
      const i64 key = (i64)(o.salt % 3);
      // mark then remove through the removal helper
      for (auto &kv : M.parts)
        kv.second.second["SEL"] = {kv.first % 3};
      particle_loop(A, [=](auto ID, auto S) { S.at(0) = ID.at(0) % 3; }, Access::read(Sym<INT>("ID")),
                    Access::write(Sym<INT>("SEL")))->execute();
      ParticleRemover rem(F.target);
      rem.remove(A, A->get_dat(Sym<INT>("SEL")), key);
      for (auto it = M.parts.begin(); it != M.parts.end();)
        it = it->first % 3 == key ? M.parts.erase(it) : std::next(it);
      break;
    }
    case CELLMOVE: {
      // new positions; the cell must follow
      const int nd = ms.ndim;
      std::map<i64, std::vector<i64>> np;
      for (auto &kv : M.parts)
        if (chosen(o, kv.first)) {
          Rng h = rng(o.salt, (u64)kv.first, 99);
          int cell = pick_cell(h, o);
          double p[3];
          pos_in_cell(h, r, cell, p);
          std::vector<i64> v;
          for (int d = 0; d < nd; d++)
            v.push_back(bits(p[d]));
          kv.second.first = cell;
          kv.second.second["P"] = v;
          np[kv.first] = v;
        }
      for (int c = 0; c < ncell; c++) {
        auto ID = A->get_cell(Sym<INT>("ID"), c);
        auto P = A->get_cell(Sym<REAL>("P"), c);
        bool any = false;
        for (int l = 0; l < ID->nrow; l++) {
          auto it = np.find(ID->at(l, 0));
          if (it != np.end()) {
            any = true;
            for (int d = 0; d < nd; d++)
              P->at(l, d) = dbl(it->second[d]);
          }
        }
        if (any)
          A->get_dat(Sym<REAL>("P"))->cell_dat.set_cell(c, P);
      }
      A->cell_move();
      for (auto &kv : M.parts)
        kv.second.second["CELL_ID"] = {kv.second.first};
      break;
    }
    case WRITE: {
      const i64 k = (i64)(o.salt % 1000);
      particle_loop(
          A,
          [=](auto Q, auto V, auto ID) {
            Q.at(1) = ID.at(0) * k;
            V.at(0) = (REAL)(ID.at(0) + k);
          },
          Access::write(Sym<INT>("Q")), Access::write(Sym<REAL>("V")), Access::read(Sym<INT>("ID")))
          ->execute();
      for (auto &kv : M.parts) {
        kv.second.second["Q"][1] = kv.first * k;
        kv.second.second["V"][0] = bits((double)(kv.first + k));
      }
      break;
    }
    case CLEAR:
      A->clear();
      M.parts.clear();
      break;
    case ADDDAT: {
      std::string nm = "X" + std::to_string(o.salt % 4);
      if (extra.count(nm))
        break;
      int nc = 1 + (int)((o.salt >> 8) % 3);
      bool real = (o.salt >> 16) & 1;
      extra[nm] = {nc, real};
      const i64 k = (i64)(o.salt % 777);
      if (real) {
        A->add_particle_dat(Sym<REAL>(nm), nc);
        particle_loop(A, [=](auto ID, auto X) { for (int c = 0; c < nc; c++) X.at(c) = (REAL)(ID.at(0) + c * k); },
                      Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>(nm)))->execute();
      } else {
        A->add_particle_dat(ParticleDat(F.target, ParticleProp(Sym<INT>(nm), nc), ncell));
        particle_loop(A, [=](auto ID, auto X) { for (int c = 0; c < nc; c++) X.at(c) = ID.at(0) + c * k; },
                      Access::read(Sym<INT>("ID")), Access::write(Sym<INT>(nm)))->execute();
      }
      for (auto &kv : M.parts) {
        auto &v = kv.second.second[nm];
        v.clear();
        for (int c = 0; c < nc; c++)
          v.push_back(real ? bits((double)(kv.first + c * k)) : kv.first + c * k);
      }
      break;
    }
    case REMDAT: {
      std::string nm = "X" + std::to_string(o.salt % 4);
      if (!extra.count(nm))
        break;
      if (extra[nm].second)
        A->remove_particle_dat(Sym<REAL>(nm));
      else
        A->remove_particle_dat(Sym<INT>(nm));
      extra.erase(nm);
      for (auto &kv : M.parts)
        kv.second.second.erase(nm);
      break;
    }
    case GETP: {
      if (o.salt >> 62 == 0) { // the printed table
        std::ostringstream ss;
        std::ostream &os = ss;
        A->print(os, Sym<INT>("ID"), Sym<INT>("Q"));
        auto rows = parse_print(ss.str());
        std::set<i64> seen;
        for (auto &w : rows) {
          auto it = w.second.size() ? M.parts.find(w.second[0]) : M.parts.end();
          if (it == M.parts.end() || it->second.first != w.first || !seen.insert(it->first).second ||
              !std::equal(w.second.begin() + 1, w.second.end(), it->second.second["Q"].begin(),
                          it->second.second["Q"].end()))
            sim::violation("op %d (print): a printed row of cell %d is not a particle of that cell (id %lld)", i, w.first,
                           (long long)(w.second.size() ? w.second[0] : -1));
        }
        if (rows.size() != M.parts.size())
          sim::violation("op %d (print): %zu rows printed, expected %zu", i, rows.size(), M.parts.size());
        break;
      }
      std::vector<INT> cells, layers;
      std::vector<i64> ids;
      locate([&](i64 id) { return chosen(o, id); }, cells, layers, ids);
      auto ps = A->get_particles(cells, layers);
      if (ps->npart != (int)ids.size())
        sim::violation("op %d (get particles): %d particles returned, %zu requested", i, ps->npart, ids.size());
      for (size_t j = 0; j < ids.size(); j++)
        for (auto &d : cs)
          for (int c = 0; c < d.ncomp; c++) {
            i64 x = d.real ? bits(ps->at(Sym<REAL>(d.name), (int)j, c)) : ps->at(Sym<INT>(d.name), (int)j, c);
            if (x != M.parts[ids[j]].second[d.name][c])
              sim::violation("op %d (get particles): particle id %lld dat %s component %d is %lld, expected %lld", i,
                             (long long)ids[j], d.name.c_str(), c, (long long)x,
                             (long long)M.parts[ids[j]].second[d.name][c]);
          }
      break;
    }
    case SETCELL: {
      int c = (int)g.below(ncell);
      auto ID = A->get_cell(Sym<INT>("ID"), c);
      auto Q = A->get_cell(Sym<INT>("Q"), c);
      for (int l = 0; l < ID->nrow; l++) {
        Q->at(l, 2) = (i64)(o.salt >> 3) + ID->at(l, 0);
        M.parts[ID->at(l, 0)].second["Q"][2] = (i64)(o.salt >> 3) + ID->at(l, 0);
      }
      A->get_dat(Sym<INT>("Q"))->cell_dat.set_cell(c, Q);
      break;
    }
    }
    cs = cur_spec();
    // bookkeeping seen by the user
    auto want = M.counts(ncell);
    i64 tot = 0;
    u64 st = (u64)o.k;
    for (int c = 0; c < ncell; c++) {
      if (A->get_npart_cell(c) != want[c])
        sim::violation("after op %d (%s): cell %d holds %lld particles according to the group, expected %d", i,
                       kn[o.k], c, (long long)A->get_npart_cell(c), want[c]);
      tot += want[c];
      st = st * 1000003 + (u64)want[c];
    }
    if (A->get_npart_local() != tot)
      sim::violation("after op %d (%s): local particle count %lld, expected %lld", i, kn[o.k],
                     (long long)A->get_npart_local(), (long long)tot);
    for (auto &d : cs) {
      int *h = d.real ? A->get_dat(Sym<REAL>(d.name))->h_npart_cell : A->get_dat(Sym<INT>(d.name))->h_npart_cell;
      for (int c = 0; c < ncell; c++)
        if (h[c] != want[c])
          sim::violation("after op %d (%s): dat %s holds %d rows in cell %d, expected %d", i, kn[o.k], d.name.c_str(),
                         h[c], c, want[c]);
    }
    auto snap = read_group(A, cs, r, ncell);
    hash_snap(snap);
    sim::state_hash(st);
    sim::counter(kn[o.k]);
    sim::CoreGuard cg;
    compare_local(M, snap, cs, kn[o.k], i);
  }
  // what a particle loop on the device visits agrees with the rows
  {
    auto la = std::make_shared<LocalArray<INT>>(F.target, 2, 0);
    particle_loop(
        A,
        [=](auto ID, auto L) {
          L.fetch_add(0, 1);
          L.fetch_add(1, ID.at(0));
        },
        Access::read(Sym<INT>("ID")), Access::add(la))
        ->execute();
    auto v = la->get();
    i64 s = 0;
    for (auto &kv : M.parts)
      s += kv.first;
    if (v[0] != (i64)M.parts.size() || v[1] != s)
      sim::violation("a loop over the group visits %lld particles (id sum %lld), expected %zu (%lld)", (long long)v[0],
                     (long long)v[1], M.parts.size(), (long long)s);
  }
  B.reset();
  A.reset();
  free_fix(F);
}
void finish() {}
const char *judge_abort(const char *) { return "the library stopped on a valid input"; }
} // namespace simwl
