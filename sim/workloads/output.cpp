// P13 trajectory files, P14 storage faults, P23 VTK files.
#include "store.hpp"
#include <neso_particles/external_interfaces/vtk/vtk.hpp>
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
enum OpK { ADD, REMOVE, MOVE, OPEN, WRITE, CLOSE, READ, VTKW, OK_N };
static const char *kn[] = {"add", "remove", "cell move", "create file", "write step", "close file", "read step", "vtk file"};
#if defined(SIM_P23)
static const int wt[OK_N] = {4, 2, 2, 2, 4, 3, 2, 60};
#elif defined(SIM_P14)
static const int wt[OK_N] = {14, 7, 7, 8, 30, 12, 18, 14};
#else
static const int wt[OK_N] = {14, 7, 7, 8, 36, 14, 26, 0};
#endif
struct Op {
  int k, w, step;
  u64 salt;
};
static std::vector<Op> ops;
static MeshSpec ms;
static const int NW = 2;
typedef std::vector<i64> Row; // P, then the properties in the fixed order V Q ID
struct StepRec {
  std::vector<Row> rows;
};
struct FileRec {
  std::map<int, StepRec> steps;
  int closed = 0; // ranks that returned from the last close
  bool open = false, exists = false;
  int syms = 0; // bit 0 P, 1 V, 2 Q (ID is always written)
  bool sub = false;
};
struct VtkRec {
  int done = 0;
  bool begun = false;
  std::set<std::string> ck, pk;                           // cell and point values
  std::map<int, std::vector<VTK::UnstructuredCell>> cells; // given by each rank
};
static std::map<std::string, FileRec> *files; // survives a simulated crash
static std::map<int, VtkRec> *vtks;
typedef std::array<int, 3> Corner;
static Rendezvous<std::vector<std::vector<Corner>>> rface;
void choose_knobs() {
  auto any = [](i64 n) { return 1 + (i64)sim::rnd_below(sim::S_CFG, (u64)n); };
  if (sim::K.nranks > 4)
    sim::K.nranks = 3;
#if defined(SIM_P14)
  int x = (int)sim::rnd_below(sim::S_CFG, 10);
  if (x < 7)
    sim::K.io_fail = any(x < 3 ? 30 : 250);
  else if (x < 9)
    sim::K.io_short = any(120);
#else
  if (sim::chance(sim::S_CFG, 40))
    sim::K.crash_io = any(sim::chance(sim::S_CFG, 30) ? 300 : 2500);
#endif
}
static std::string fname(int w, u64 gen) { return "/sim/out" + std::to_string(w) + "_" + std::to_string(gen) + ".h5part"; }
void plan() {
  seed_plan();
  Rng r = rng(1);
  ms = random_mesh(rng(2), 24);
  world_reset(ms);
  {
    sim::CoreGuard g;
    files = new std::map<std::string, FileRec>();
    vtks = new std::map<int, VtkRec>();
  }
  rface = {};
  int tot = 0;
  for (int k = 0; k < OK_N; k++)
    tot += wt[k];
  ops.clear();
  if (r.pct(85))
    ops.push_back({ADD, 0, 0, r.next()});
  // the plan only holds legal sequences
  struct W {
    bool made = false, open = false;
    int next = 0;
    std::set<int> steps;
  } w[NW];
  int n = (int)r.range(5, 16);
  for (int i = 0; i < n; i++) {
    int x = (int)r.below(tot), k = 0;
    while (k < OK_N - 1 && x >= wt[k])
      x -= wt[k], k++;
    Op o{k, (int)r.below(NW), -1, r.next()};
    W &f = w[o.w];
    if (k == WRITE && !f.made)
      o.k = OPEN;
    if (o.k == OPEN) {
      if (f.open)
        ops.push_back({CLOSE, o.w, 0, r.next()});
      f = W();
      f.made = f.open = true;
    } else if (o.k == WRITE) {
      int s = f.next;
      if (r.pct(35) || f.steps.count(s)) {
        do
          s = r.pct(50) ? (int)r.range(0, 12) : (int)r.range(0, 2000000000);
        while (f.steps.count(s));
        o.step = s;
      }
      f.steps.insert(s);
      f.next = s + 1;
      f.open = true;
    } else if (o.k == CLOSE) {
      if (!f.made)
        continue;
      f.open = false;
    } else if (o.k == READ) {
      if (!f.made || f.steps.empty())
        continue;
      if (f.open)
        ops.push_back({CLOSE, o.w, 0, r.next()});
      f.open = false;
      auto it = f.steps.begin();
      std::advance(it, r.below((i64)f.steps.size()));
      o.step = *it;
    }
    ops.push_back(o);
  }
  for (int k = 0; k < NW; k++)
    if (w[k].open)
      ops.push_back({CLOSE, k, 0, r.next()});
  for (int k = 0; k < NW; k++)
    if (w[k].made)
      for (int s : w[k].steps)
        ops.push_back({READ, k, s, r.next()});
}
static std::string show(const Row &r) {
  std::string s;
  for (auto x : r)
    s += (s.empty() ? "" : " ") + std::to_string(x);
  return s;
}
static std::vector<std::pair<std::string, bool>> columns(const FileRec &f) {
  std::vector<std::pair<std::string, bool>> c;
  static const char *xyz[3] = {"x", "y", "z"};
  for (int d = 0; d < ms.ndim; d++)
    c.push_back({xyz[d], true});
  if (f.syms & 1)
    for (int d = 0; d < ms.ndim; d++)
      c.push_back({"P_" + std::to_string(d), true});
  if (f.syms & 2)
    for (int d = 0; d < 2; d++)
      c.push_back({"V_" + std::to_string(d), true});
  if (f.syms & 4)
    for (int d = 0; d < 3; d++)
      c.push_back({"Q_" + std::to_string(d), false});
  c.push_back({"ID_0", false});
  return c;
}
static Row row_of(const FileRec &f, const Fields &v) {
  Row r = v.at("P");
  auto app = [&](const char *n) {
    auto &x = v.at(n);
    r.insert(r.end(), x.begin(), x.end());
  };
  if (f.syms & 1)
    app("P");
  if (f.syms & 2)
    app("V");
  if (f.syms & 4)
    app("Q");
  app("ID");
  return r;
}
// compare a step in storage with what was written (oracle view of the file)
static void check_stored(const std::string &nm, const FileRec &f, int step, const char *when) {
  const StepRec &S = f.steps.at(step);
  std::multiset<Row> want(S.rows.begin(), S.rows.end());
  const std::string g = "Step#" + std::to_string(step);
  auto cols = columns(f);
  auto names = sim::h5_list(nm, "");
  if (std::find(names.begin(), names.end(), g) == names.end())
    sim::violation("%s: %s has no group for step %d which was written", when, nm.c_str(), step);
  std::vector<Row> rows(want.size());
  for (auto &c : cols) {
    sim::H5Data D;
    if (!sim::h5_get(nm, g + "/" + c.first, D)) {
      if (want.empty())
        continue; // an empty step has no columns
      sim::violation("%s: step %d of %s has no column %s", when, step, nm.c_str(), c.first.c_str());
    }
    size_t n = D.is_float ? D.d.size() : D.i.size();
    if (n != want.size() || D.dims.size() != 1)
      sim::violation("%s: column %s of step %d of %s holds %zu rows, %zu particles were written", when, c.first.c_str(),
                     step, nm.c_str(), n, want.size());
    if (D.is_float != c.second)
      sim::violation("%s: column %s of step %d of %s has the wrong type", when, c.first.c_str(), step, nm.c_str());
    for (size_t k = 0; k < n; k++) {
      if (D.written[k] != 1)
        sim::violation("%s: row %zu of column %s of step %d of %s was written %d times", when, k, c.first.c_str(), step,
                       nm.c_str(), (int)D.written[k]);
      rows[k].push_back(D.is_float ? bits(D.d[k]) : D.i[k]);
    }
  }
  if (want.empty())
    return;
  std::multiset<Row> got(rows.begin(), rows.end());
  for (auto &x : got)
    if (!want.count(x))
      sim::violation("%s: step %d of %s holds a row (%s) that is no particle of the group when it was written", when,
                     step, nm.c_str(), show(x).c_str());
  if (got != want)
    sim::violation("%s: step %d of %s repeats or misses particles", when, step, nm.c_str());
}
struct Got {
  std::vector<Row> rows;
};
static Rendezvous<Got> rv;
static std::map<std::string, std::pair<int, std::vector<Row>>> *readback;
// collective over the world: the first `readers` ranks read the step
static void read_step(const std::string &nm, int step, u64 salt, int i) {
  int wr;
  MPI_Comm_rank(sim::users_comm(), &wr);
  const FileRec &f = files->at(nm);
  Rng g = rng(salt, 5, 6);
  const int readers = g.pct(60) ? nranks() : (int)g.range(1, nranks());
  MPI_Comm comm;
  MPI_Comm_split(sim::users_comm(), wr < readers, wr, &comm);
  const bool xyz = !(f.syms & 1) || g.pct(50);
  const bool rp = g.pct(80), rvv = (f.syms & 2) && g.pct(70), rq = (f.syms & 4) && g.pct(70);
  if (wr < readers) {
    auto T = std::make_shared<SYCLTarget>(0, comm);
    {
      H5Part in(nm, T);
      ParticleSpec ps;
      if (rp)
        ps.push(ParticleProp<REAL>(Sym<REAL>("P"), ms.ndim, true));
      if (rvv)
        ps.push(ParticleProp<REAL>(Sym<REAL>("V"), 2));
      if (rq)
        ps.push(ParticleProp<INT>(Sym<INT>("Q"), 3));
      ps.push(ParticleProp<INT>(Sym<INT>("ID"), 1));
      int times = g.pct(20) ? 2 : 1;
      for (int t = 0; t < times; t++) {
        auto set = in.read(ps, step, xyz);
        if (t)
          continue;
        std::vector<Row> rows;
        {
          sim::CoreGuard cg;
          for (int j = 0; j < set->npart; j++) {
            Row r;
            if (rp)
              for (int d = 0; d < ms.ndim; d++)
                r.push_back(bits(set->at(Sym<REAL>("P"), j, d)));
            if (rvv)
              for (int d = 0; d < 2; d++)
                r.push_back(bits(set->at(Sym<REAL>("V"), j, d)));
            if (rq)
              for (int d = 0; d < 3; d++)
                r.push_back(set->at(Sym<INT>("Q"), j, d));
            r.push_back(set->at(Sym<INT>("ID"), j, 0));
            rows.push_back(r);
            sim::note_hash((u64)r.back());
          }
          auto &acc = (*readback)[nm + "#" + std::to_string(i)];
          acc.first++;
          acc.second.insert(acc.second.end(), rows.begin(), rows.end());
          if (acc.first == readers) {
            std::multiset<Row> want, got(acc.second.begin(), acc.second.end());
            for (auto &w : f.steps.at(step).rows) {
              Row r;
              size_t o = ms.ndim;
              if (rp)
                r.insert(r.end(), w.begin(), w.begin() + ms.ndim);
              if (f.syms & 1)
                o += ms.ndim;
              if (f.syms & 2) {
                if (rvv)
                  r.insert(r.end(), w.begin() + o, w.begin() + o + 2);
                o += 2;
              }
              if (f.syms & 4) {
                if (rq)
                  r.insert(r.end(), w.begin() + o, w.begin() + o + 3);
                o += 3;
              }
              r.push_back(w[o]);
              want.insert(r);
            }
            if (got.size() != want.size())
              sim::violation("op %d (read step %d of %s on %d ranks): %zu particles read, %zu were written", i, step,
                             nm.c_str(), readers, got.size(), want.size());
            for (auto &x : got)
              if (!want.count(x))
                sim::violation("op %d (read step %d of %s on %d ranks): a particle (%s) was read that was not written",
                               i, step, nm.c_str(), readers, show(x).c_str());
            if (got != want)
              sim::violation("op %d (read step %d of %s): particles repeated or missing", i, step, nm.c_str());
            sim::counter("particles read back", got.size());
          }
        }
      }
      in.close();
      in.close();
    }
    T->free();
  }
  MPI_Comm_free(&comm);
}
// ------------------------------------------------------------------- VTK ---
static std::vector<VTK::UnstructuredCell> vtk_cells(u64 salt, int wr, int *keys) {
  Rng q = rng(salt, 11, 12);
  *keys = (int)q.below(4);
  bool all_have = q.pct(40);
  Rng g = rng(salt, (u64)wr, 13);
  std::vector<VTK::UnstructuredCell> v;
  int n = all_have ? (int)g.range(1, 6) : (int)g.range(0, 4);
  static const VTK::CellType ty[] = {VTK::point, VTK::line, VTK::triangle, VTK::quadrilateral, VTK::tetrahedron,
                                     VTK::pyramid, VTK::wedge, VTK::hex};
  static const int np[] = {1, 2, 3, 4, 4, 5, 6, 8};
  for (int i = 0; i < n; i++) {
    VTK::UnstructuredCell c;
    int k = (int)g.below(8);
    c.cell_type = ty[k];
    c.num_points = np[k];
    for (int j = 0; j < 3 * np[k]; j++)
      c.points.push_back(g.unit());
    if (*keys & 1) {
      c.cell_data["u"] = g.unit();
      c.cell_data["w"] = g.unit();
    }
    if (*keys & 2)
      for (int j = 0; j < np[k]; j++)
        c.point_data["pd"].push_back(g.unit());
    v.push_back(c);
  }
  return v;
}
// corners as integer multiples of the cell width; polygons list neighbours in turn
static Corner corner_of(const VTK::UnstructuredCell &c, int k) {
  Corner x{0, 0, 0};
  for (int d = 0; d < 3; d++) {
    const double q = c.points.at((size_t)(3 * k + d)) / ms.width();
    x[d] = (int)std::lround(q);
    if (std::fabs(q - x[d]) > 1e-9)
      sim::violation("vtk: a mesh cell has a corner coordinate %g which is not on a cell edge", q * ms.width());
  }
  return x;
}
static int differ(const Corner &a, const Corner &b) {
  int n = 0;
  for (int d = 0; d < 3; d++)
    n += std::abs(a[d] - b[d]);
  return n;
}
static std::vector<Corner> corners(const VTK::UnstructuredCell &c, VTK::CellType type, int np) {
  if (c.cell_type != type || c.num_points != np || (int)c.points.size() != 3 * np)
    sim::violation("vtk: a mesh cell has the wrong type or number of points");
  std::vector<Corner> v;
  for (int k = 0; k < np; k++)
    v.push_back(corner_of(c, k));
  const int poly = np == 8 ? 4 : np;
  for (int b = 0; b < np; b += poly)
    for (int k = 0; k < poly; k++)
      if (differ(v[(size_t)(b + k)], v[(size_t)(b + (k + 1) % poly)]) != 1)
        sim::violation("vtk: the corners of a mesh cell are not listed around it");
  if (np == 8)
    for (int k = 0; k < 4; k++)
      if (differ(v[(size_t)k], v[(size_t)(k + 4)]) != 1)
        sim::violation("vtk: the corners of a hexahedron do not match between its two sides");
  std::sort(v.begin(), v.end());
  return v;
}
static std::vector<Corner> box(const Corner &lo, const Corner &n) {
  std::vector<Corner> v;
  for (int a = 0; a <= n[0]; a++)
    for (int b = 0; b <= n[1]; b++)
      for (int c = 0; c <= n[2]; c++)
        v.push_back({lo[0] + a, lo[1] + b, lo[2] + c});
  std::sort(v.begin(), v.end());
  return v;
}
static void check_mesh_cells(Store &S, const std::vector<VTK::UnstructuredCell> &cells) {
  if ((int)cells.size() != S.ncell)
    sim::violation("vtk: %zu cells are described, the mesh has %d on this rank", cells.size(), S.ncell);
  for (int lc = 0; lc < S.ncell; lc++) {
    auto t = W.cell_of_local(S.r, lc);
    Corner lo{t[0], t[1], ms.ndim > 2 ? t[2] : 0}, n{1, 1, ms.ndim > 2 ? 1 : 0};
    if (corners(cells[(size_t)lc], ms.ndim == 2 ? VTK::quadrilateral : VTK::hex, ms.ndim == 2 ? 4 : 8) != box(lo, n))
      sim::violation("vtk: the description of cell %d is another cell", lc);
  }
}
static void check_mesh_faces(Store &S, int i, std::map<INT, VTK::UnstructuredCell> &faces) {
  std::vector<std::vector<Corner>> mine;
  for (auto &f : faces)
    mine.push_back(corners(f.second, ms.ndim == 2 ? VTK::line : VTK::quadrilateral, ms.ndim == 2 ? 2 : 4));
  std::vector<std::vector<std::vector<Corner>>> all;
  if (!rface.deposit(i, S.r, mine, all))
    return;
  sim::CoreGuard g;
  std::map<std::vector<Corner>, int> got;
  for (auto &a : all)
    for (auto &f : a)
      got[f]++;
  size_t want = 0;
  Corner x;
  for (int d = 0; d < ms.ndim; d++)
    for (int side = 0; side < 2; side++) {
      Corner hi{1, 1, 1};
      for (int e = 0; e < ms.ndim; e++)
        hi[e] = e == d ? 1 : ms.fine(e);
      for (x[0] = 0; x[0] < hi[0]; x[0]++)
        for (x[1] = 0; x[1] < hi[1]; x[1]++)
          for (x[2] = 0; x[2] < hi[2]; x[2]++) {
            Corner lo = x, n{1, 1, ms.ndim > 2 ? 1 : 0};
            lo[d] = side ? ms.fine(d) : 0;
            n[d] = 0;
            want++;
            auto it = got.find(box(lo, n));
            if (it == got.end() || it->second != 1)
              sim::violation("vtk: a boundary face is described %d times", it == got.end() ? 0 : it->second);
          }
    }
  if (want != got.size())
    sim::violation("vtk: %zu faces are described, the mesh has %zu", got.size(), want);
}
static std::string vname(int i) { return "/sim/v" + std::to_string(i) + ".vtkhdf"; }
static void check_vtk(int i, VtkRec &rec, const char *when) {
  const std::string nm = vname(i);
  if (!sim::h5_readable(nm))
    sim::violation("%s: %s was closed and can not be opened", when, nm.c_str());
  std::vector<double> P;
  std::map<std::string, std::vector<double>> cd, pd;
  std::vector<i64> np, nc, ni, ty, con, off;
  for (int r = 0; r < nranks(); r++) {
    i64 pts = 0, cells = 0;
    off.push_back(0);
    for (auto &c : rec.cells[r]) {
      P.insert(P.end(), c.points.begin(), c.points.end());
      for (int k = 0; k < c.num_points; k++)
        con.push_back(pts + k);
      pts += c.num_points;
      off.push_back(pts);
      ty.push_back((i64)c.cell_type);
      cells++;
      for (auto &k : rec.ck)
        cd[k].push_back(c.cell_data[k]);
      for (auto &k : rec.pk)
        pd[k].insert(pd[k].end(), c.point_data[k].begin(), c.point_data[k].end());
    }
    np.push_back(pts);
    ni.push_back(pts);
    nc.push_back(cells);
  }
  auto get = [&](const char *n, sim::H5Data &D) {
    if (!sim::h5_get(nm, std::string("VTKHDF/") + n, D))
      sim::violation("%s: %s has no dataset %s", when, nm.c_str(), n);
    for (size_t k = 0; k < D.written.size(); k++)
      if (D.written[k] != 1)
        sim::violation("%s: element %zu of %s in %s was written %d times", when, k, n, nm.c_str(), (int)D.written[k]);
  };
  auto ints = [&](const char *n, const std::vector<i64> &want) {
    sim::H5Data D;
    get(n, D);
    if (D.is_float || D.i != want)
      sim::violation("%s: dataset %s of %s does not describe the cells given by the %d ranks", when, n, nm.c_str(),
                     nranks());
  };
  auto reals = [&](const char *n, const std::vector<double> &want) {
    sim::H5Data D;
    get(n, D);
    if (!D.is_float || D.d != want)
      sim::violation("%s: dataset %s of %s does not hold the values given by the %d ranks", when, n, nm.c_str(),
                     nranks());
  };
  sim::H5Data D;
  get("Points", D);
  if (D.dims.size() != 2 || D.dims[1] != 3)
    sim::violation("%s: Points of %s are not three dimensional", when, nm.c_str());
  reals("Points", P);
  ints("NumberOfPoints", np);
  ints("NumberOfCells", nc);
  ints("NumberOfConnectivityIds", ni);
  ints("Types", ty);
  ints("Connectivity", con);
  ints("Offsets", off);
  for (auto &k : rec.ck)
    reals(("CellData/" + k).c_str(), cd[k]);
  for (auto &k : rec.pk)
    reals(("PointData/" + k).c_str(), pd[k]);
  std::string str;
  sim::H5Data A;
  if (!sim::h5_get_attr(nm, "VTKHDF/Version", A, str) || A.i != std::vector<i64>{2, 0})
    sim::violation("%s: %s has no valid Version", when, nm.c_str());
  if (!sim::h5_get_attr(nm, "VTKHDF/Type", A, str) || str != "UnstructuredGrid")
    sim::violation("%s: %s has no valid Type", when, nm.c_str());
}
void rank_main(int) {
  if (sim::phase() > 0) { // after the crash: every file that was closed is complete
    int i = 100000;
    std::vector<std::string> durable;
    {
      sim::CoreGuard g;
      for (auto &kv : *files)
        if (kv.second.exists && !kv.second.open && kv.second.closed == nranks())
          durable.push_back(kv.first);
    }
    for (auto &nm : durable) {
      if (!sim::h5_readable(nm))
        sim::violation("after a crash: %s had been closed and can not be opened", nm.c_str());
      std::vector<int> steps;
      for (auto &s : files->at(nm).steps)
        steps.push_back(s.first);
      for (int s : steps) {
        {
          sim::CoreGuard g;
          check_stored(nm, files->at(nm), s, "after a crash");
        }
        read_step(nm, s, g_seed + (u64)s, i++);
        sim::counter("steps read after a crash");
      }
    }
    for (auto &kv : *vtks)
      if (kv.second.done == nranks()) {
        sim::CoreGuard g;
        check_vtk(kv.first, kv.second, "after a crash");
        sim::counter("vtk files checked after a crash");
      }
    return;
  }
  {
    sim::CoreGuard g;
    if (!readback)
      readback = new std::map<std::string, std::pair<int, std::vector<Row>>>();
  }
  Store S(ms, {{"V", 2, true}, {"Q", 3, false}}, false);
  int wr;
  MPI_Comm_rank(sim::users_comm(), &wr);
  struct Wr {
    std::shared_ptr<H5Part> h;
    std::string nm;
    int next = 0;
    int mod = 1;
    bool open = false;
    std::set<int> steps;
  } w[NW];
  for (int i = 0; i < (int)ops.size(); i++) {
    const Op &o = ops[i];
    if (!sim::op_enabled(i))
      continue;
    Wr &W_ = w[o.w];
    sim::op_begin(i, kn[o.k]);
    switch (o.k) {
    case ADD: {
      Rng g = rng(o.salt, (u64)wr, 21);
      S.add(g.pct(25) ? 0 : (int)g.range(0, 24), o.salt);
      break;
    }
    case REMOVE:
      S.remove([&](i64 id) { return chosen(o.salt, id); }, o.salt);
      break;
    case MOVE:
      S.move([&](i64 id) { return chosen(o.salt, id); }, o.salt);
      break;
    case OPEN: {
      if (W_.h) {
        W_.h->close();
        W_.h.reset();
        sim::CoreGuard g;
        if (W_.open && ++files->at(W_.nm).closed == nranks())
          files->at(W_.nm).open = false;
      }
      MPI_Barrier(sim::users_comm());
      // sometimes an existing file is truncated
      W_.nm = fname(o.w, o.salt % 2);
      W_.next = 0;
      W_.open = true;
      W_.steps.clear();
      W_.mod = (o.salt >> 8) % 3 == 0 ? 2 + (int)((o.salt >> 12) % 2) : 1;
      int syms = (int)((o.salt >> 16) % 8);
      {
        sim::CoreGuard g;
        auto &f = (*files)[W_.nm];
        if (!f.open) {
          f = FileRec();
          f.open = f.exists = true;
          f.syms = syms;
          f.sub = W_.mod > 1;
        }
      }
      std::vector<Sym<REAL>> sr;
      std::vector<Sym<INT>> si;
      if (syms & 1)
        sr.push_back(Sym<REAL>("P"));
      if (syms & 2)
        sr.push_back(Sym<REAL>("V"));
      if (syms & 4)
        si.push_back(Sym<INT>("Q"));
      si.push_back(Sym<INT>("ID"));
      if (W_.mod > 1) {
        const int m = W_.mod;
        auto sg = particle_sub_group(S.A, [=](auto ID) { return ID.at(0) % m == 1; }, Access::read(Sym<INT>("ID")));
        W_.h = std::make_shared<H5Part>(W_.nm, sg, sr, si);
      } else
        W_.h = std::make_shared<H5Part>(W_.nm, S.A, sr, si);
      break;
    }
    case WRITE: {
      if (!W_.h)
        break;
      int step = o.step >= 0 ? o.step : W_.next;
      if (!W_.steps.insert(step).second)
        break; // only after the minimiser dropped operations
      W_.open = true;
      {
        sim::CoreGuard g;
        auto &f = files->at(W_.nm);
        f.open = true;
        f.closed = 0;
        auto &st = f.steps[step];
        for (auto &kv : S.M.parts)
          if (W_.mod == 1 || kv.first % W_.mod == 1)
            st.rows.push_back(row_of(f, kv.second.second));
      }
      W_.next = step + 1;
      W_.h->write(o.step);
      sim::counter("rows written", files->at(W_.nm).steps[step].rows.size());
      break;
    }
    case CLOSE: {
      if (!W_.h)
        break;
      W_.h->close();
      bool last = false;
      if (W_.open) {
        W_.open = false;
        sim::CoreGuard g;
        auto &f = files->at(W_.nm);
        if (++f.closed == nranks()) {
          f.open = false;
          last = true;
        }
        if (last) {
          if (!sim::h5_readable(W_.nm))
            sim::violation("op %d (close file): every rank closed %s and it is still open", i, W_.nm.c_str());
          for (auto &s : f.steps)
            check_stored(W_.nm, f, s.first, "after close");
        }
      }
      MPI_Barrier(sim::users_comm());
      break;
    }
    case READ: {
      if (!W_.h || !W_.steps.count(o.step) || W_.open)
        break;
      MPI_Barrier(sim::users_comm());
      read_step(W_.nm, o.step, o.salt, i);
      break;
    }
    case VTKW: {
      const int kind = (int)(o.salt / 64 % 5); // 3 mesh cells, 4 boundary function, else any cells
      VtkRec rec;
      int fr = wr; // which part of the file holds this rank's cells
      Rng g = rng(o.salt, (u64)wr, 15);
      CartesianHMeshFunctionSharedPtr fn;
      std::vector<VTK::UnstructuredCell> cells;
      if (kind == 3) {
        cells = S.F.mesh->get_vtk_cell_data();
        check_mesh_cells(S, cells);
        for (auto &c : cells)
          c.cell_data["u"] = g.unit();
        rec.ck = {"u"};
      } else if (kind == 4) {
        auto faces = S.F.mesh->get_vtk_face_cell_data();
        check_mesh_faces(S, i, faces);
        std::vector<INT> ids;
        std::vector<REAL> dofs;
        for (auto f : S.F.mesh->get_owned_face_cells())
          if (g.pct(70)) {
            if (!faces.count(f))
              sim::violation("vtk: owned face %lld is not described", (long long)f);
            ids.push_back(f);
            dofs.push_back(g.unit());
            cells.push_back(faces.at(f));
            cells.back().cell_data["u"] = dofs.back();
          }
        fn = std::make_shared<CartesianHMeshFunction>(S.F.mesh, S.target, ms.ndim - 1, ids, "DG", 0, 0);
        fn->set_dofs(dofs);
        rec.ck = {"u"};
        fr = S.r;
      } else {
        int keys;
        cells = vtk_cells(o.salt, wr, &keys);
        if (keys & 1)
          rec.ck = {"u", "w"};
        if (keys & 2)
          rec.pk = {"pd"};
      }
      {
        sim::CoreGuard g2;
        auto &v = (*vtks)[i];
        v.begun = true;
        v.ck = rec.ck;
        v.pk = rec.pk;
        v.cells[fr] = cells;
      }
      if (fn)
        fn->write_vtkhdf(vname(i));
      else {
        VTK::VTKHDF V(vname(i), sim::users_comm());
        V.write(cells, rec.pk, rec.ck);
        V.close();
      }
      sim::counter(kind == 4 ? "boundary functions written" : kind == 3 ? "mesh cells written" : "cell sets written");
      sim::CoreGuard g2;
      auto &v = (*vtks)[i];
      if (++v.done == nranks())
        check_vtk(i, v, "after close");
      break;
    }
    }
    sim::counter(kn[o.k]);
    sim::state_hash((u64)o.k * 31 + S.M.parts.size() * 1000003 + (u64)wr * 7);
  }
  for (auto &x : w)
    if (x.h) {
      x.h->close();
      x.h.reset();
    }
  S.check("end", (int)ops.size());
  MPI_Barrier(sim::users_comm());
  if (sim::h5_open_handles())
    sim::counter("handles left open", sim::h5_open_handles());
  S.free();
}
void finish() {
  if (sim::h5_open_handles() && sim::phase() == 0)
    sim::violation("%llu storage handles are left open after every file was closed",
                   (unsigned long long)sim::h5_open_handles());
}
const char *judge_abort(const char *) {
#if defined(SIM_P14)
  if ((sim::K.io_fail && (i64)sim::io_ops() >= sim::K.io_fail) || (sim::K.io_short && (i64)sim::io_ops() >= sim::K.io_short))
    return nullptr; // a storage error is reported by stopping the job
#endif
  return "the library stopped on a valid input";
}
} // namespace simwl
