// A particle group on one rank together with its sequential reference model.
#pragma once
#include "wl.hpp"
namespace wl {
inline i64 val_of(i64 id, u64 salt, int c, bool real) {
  Rng g = rng(salt, (u64)id, (u64)c + 1);
  return real ? bits((double)g.range(-4096, 4096) / 16.0) : (i64)g.range(-1000000, 1000000);
}
struct Store {
  Fix F;
  std::vector<DatSpec> spec;
  LocalModel M;
  bool one_way = false; // only add particle sets (adding by a group is collective)
  i64 next_id = 1;
  int r = 0, ncell = 0;
  ParticleGroupSharedPtr A;
  SYCLTargetSharedPtr target;
  Store(const MeshSpec &ms, const std::vector<DatSpec> &extra, bool wide = true) {
    // positions may have more components than the mesh has dimensions
    spec = {{"P", wide && rng(0x9057).pct(10) ? 3 : ms.ndim, true}, {"CELL_ID", 1, false}, {"ID", 1, false}};
    for (auto &e : extra)
      spec.push_back(e);
    F = make_fix(ms, spec);
    A = F.A;
    target = F.target;
    r = F.r;
    ncell = F.ncell;
    next_id = 1 + (i64)r * 1000000;
  }
  // a second particle group on the same domain and device
  Store(Store &o, bool) {
    spec = o.spec;
    F = o.F;
    ParticleSpec ps = to_spec(spec);
    F.A = std::make_shared<ParticleGroup>(F.domain, ps, F.target);
    A = F.A;
    target = F.target;
    r = F.r;
    ncell = F.ncell;
    next_id = 500001 + (i64)r * 1000000;
  }
  void free_group() {
    A.reset();
    F.A->free();
    F.A.reset();
    F = Fix{};
    target.reset();
  }
  // skew: 0 uniform over cells, 1 one cell, 2 few cells, 3 leave many cells empty
  int pick(Rng &g, int skew, u64 salt) {
    if (skew == 1)
      return (int)(salt % (u64)ncell);
    if (skew == 2)
      return (int)((salt + (u64)g.below(3)) % (u64)ncell);
    if (skew == 3) {
      int c = (int)g.below(ncell);
      return c - c % 3;
    }
    return (int)g.below(ncell);
  }
  Fields fields(i64 id, u64 salt, int cell) {
    Fields f;
    for (auto &d : spec) {
      auto &v = f[d.name];
      if (d.name == "ID")
        v = {id};
      else if (d.name == "CELL_ID")
        v = {cell};
      else if (d.name == "P") {
        Rng g = rng(salt, (u64)id, 4242);
        double p[3];
        pos_in_cell(g, r, cell, p);
        for (int c = F.ms.ndim; c < 3; c++)
          p[c] = g.unit() * 50 - 25;
        for (int c = 0; c < d.ncomp; c++)
          v.push_back(bits(p[c]));
      } else {
        u64 h = salt;
        for (char ch : d.name)
          h = h * 131 + (u64)ch;
        for (int c = 0; c < d.ncomp; c++)
          v.push_back(val_of(id, h, c, d.real));
      }
    }
    return f;
  }
  void add(int n, u64 salt) {
    Rng g = rng(salt, (u64)r, 1);
    int skew = (int)(salt % 5);
    ParticleSet ps(n, to_spec(spec));
    for (int j = 0; j < n; j++) {
      i64 id = next_id++;
      int cell = pick(g, skew, salt >> 4);
      Fields f = fields(id, salt, cell);
      for (auto &d : spec)
        for (int c = 0; c < d.ncomp; c++)
          if (d.real)
            ps.at(Sym<REAL>(d.name), j, c) = dbl(f[d.name][c]);
          else
            ps.at(Sym<INT>(d.name), j, c) = f[d.name][c];
      M.parts[id] = {cell, f};
    }
    // the same particles by one of the ways of adding local particles
    const int way = (int)((salt >> 9) % 16);
    if (way > 2 || one_way) {
      A->add_particles_local(ps);
      return;
    }
    ParticleSpec bs = to_spec(spec);
    auto B = std::make_shared<ParticleGroup>(F.domain, bs, target);
    B->add_particles_local(ps);
    if (way == 0) {
      A->add_particles_local(B);
    } else if (way == 1) {
      A->add_particles_local(particle_sub_group(B, [=](auto I) { return I.at(0) > 0; }, Access::read(Sym<INT>("ID"))));
    } else {
      auto pspec = product_matrix_spec(bs);
      auto Q = product_matrix(target, pspec);
      Q->reset(n);
      for (auto &d : spec) {
        const int k = d.real ? pspec->get_sym_index(Sym<REAL>(d.name)) : pspec->get_sym_index(Sym<INT>(d.name));
        const int nc = d.ncomp;
        if (d.real)
          particle_loop(
              B,
              [=](auto IX, auto X, auto R) {
                for (int c = 0; c < nc; c++)
                  R.at_real((int)IX.get_loop_linear_index(), k, c) = X.at(c);
              },
              Access::read(ParticleLoopIndex{}), Access::read(Sym<REAL>(d.name)), Access::write(Q))
              ->execute();
        else
          particle_loop(
              B,
              [=](auto IX, auto X, auto R) {
                for (int c = 0; c < nc; c++)
                  R.at_int((int)IX.get_loop_linear_index(), k, c) = X.at(c);
              },
              Access::read(ParticleLoopIndex{}), Access::read(Sym<INT>(d.name)), Access::write(Q))
              ->execute();
      }
      A->add_particles_local(Q);
    }
    B->free();
  }
  template <class P> int remove(P pred, u64 salt = 0) {
    if (salt % 12 == 5) { // all of them
      const int n = (int)M.parts.size();
      if (n) {
        M.parts.clear();
        A->clear();
      }
      return n;
    }
    std::vector<INT> cells, layers;
    for (int c = 0; c < ncell; c++) {
      auto ID = A->get_cell(Sym<INT>("ID"), c);
      for (int l = 0; l < ID->nrow; l++)
        if (pred(ID->at(l, 0))) {
          cells.push_back(c);
          layers.push_back(l);
          M.parts.erase(ID->at(l, 0));
        }
    }
    if (cells.size() && cells.size() % 4 == 0) { // the indices in device memory
      BufferDevice<INT> dc(target, cells), dl(target, layers);
      A->remove_particles((int)cells.size(), dc.ptr, dl.ptr);
    } else
      A->remove_particles((int)cells.size(), cells, layers);
    return (int)cells.size();
  }
  // move the chosen particles to other cells of this rank
  template <class P> void move(P pred, u64 salt) {
    const int nd = F.ms.ndim;
    for (int c = 0; c < ncell; c++) {
      auto ID = A->get_cell(Sym<INT>("ID"), c);
      auto P_ = A->get_cell(Sym<REAL>("P"), c);
      bool any = false;
      for (int l = 0; l < ID->nrow; l++) {
        i64 id = ID->at(l, 0);
        if (!pred(id))
          continue;
        any = true;
        Rng h = rng(salt, (u64)id, 99);
        int cell = pick(h, (int)(salt % 5), salt >> 4);
        double p[3];
        pos_in_cell(h, r, cell, p);
        auto &q = M.parts[id];
        q.first = cell;
        q.second["CELL_ID"] = {cell};
        for (int d = 0; d < nd; d++) {
          P_->at(l, d) = p[d];
          q.second["P"][d] = bits(p[d]);
        }
      }
      if (any)
        A->get_dat(Sym<REAL>("P"))->cell_dat.set_cell(c, P_);
    }
    A->cell_move();
  }
  Snap snap() { return read_group(A, spec, r, ncell); }
  void check(const char *what, int op) {
    auto s = snap();
    auto want = M.counts(ncell);
    for (int c = 0; c < ncell; c++)
      if (A->get_npart_cell(c) != want[c])
        sim::violation("after op %d (%s): cell %d holds %lld particles according to the group, expected %d", op, what,
                       c, (long long)A->get_npart_cell(c), want[c]);
    hash_snap(s);
    sim::CoreGuard cg;
    compare_local(M, s, spec, what, op);
  }
  i64 &f(i64 id, const char *dat, int c = 0) { return M.parts.at(id).second.at(dat)[(size_t)c]; }
  double fr(i64 id, const char *dat, int c = 0) { return dbl(f(id, dat, c)); }
  void free() {
    A.reset();
    target.reset();
    free_fix(F);
  }
};
inline bool chosen(u64 salt, i64 id) {
  Rng g = rng(salt, (u64)id, 7);
  int p = (int)(salt % 5);
  return p == 0 ? true : g.pct(p == 1 ? 5 : p == 2 ? 90 : 40);
}
} // namespace wl
