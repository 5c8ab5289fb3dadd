// Stand-in for PETSc's DMPlex: enough of it for the library's unstructured-mesh interface.
// It communicates only through the simulated MPI; ownership of shared points and the cell
// partition are decided by the plan.
#include "petsc_mock.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <memory>
#include <set>
typedef std::vector<PetscInt> VI;
static std::map<std::string, long> g_live;
static simpetsc::Partition g_part;

struct _p_PetscObject {
  MPI_Comm comm = MPI_COMM_SELF;
  const char *kind;
  int ref = 1;
  explicit _p_PetscObject(const char *k) : kind(k) { g_live[k]++; }
  ~_p_PetscObject() { g_live[kind]--; }
};
struct _p_Vec : _p_PetscObject {
  std::vector<double> v;
  _p_Vec() : _p_PetscObject("Vec") {}
};
struct _p_IS : _p_PetscObject {
  VI v;
  _p_IS() : _p_PetscObject("IS") {}
};
struct _p_Mat : _p_PetscObject {
  int n = 0;
  double *a = nullptr;
  std::vector<int> piv;
  std::vector<double> lu;
  _p_Mat() : _p_PetscObject("Mat") {}
};
struct _p_PetscSF : _p_PetscObject {
  int nroots = 0;
  std::vector<PetscSFNode> remote;
  _p_PetscSF() : _p_PetscObject("SF") {}
};
struct _p_PetscViewer : _p_PetscObject {
  _p_PetscViewer() : _p_PetscObject("Viewer") {}
};
struct _p_DMLabel {
  std::map<int, int> v;
};
struct _p_PetscSection {
  std::map<int, int> dof;
};
struct Global : std::enable_shared_from_this<Global> {
  int dim, npt, start[5]; // strata: cells, vertices, (3D: faces), edges
  int nstr;
  std::vector<VI> cone, orient;
  std::vector<std::array<double, 3>> x;
  std::vector<VI> verts; // per cell
  std::map<std::string, std::map<int, int>> labels;
  std::vector<VI> cellpts, ptcells;
  int ncell() const { return start[1]; }
  int stratum(int p) const {
    int s = 0;
    while (p >= start[s + 1])
      s++;
    return s;
  }
};
struct _p_DM : _p_PetscObject {
  int dim = 0, cdim = 0, pS = 0, pE = 0, maxd = -1;
  std::vector<VI> cone, orient, supp;
  VI depth;
  std::vector<std::array<int, 2>> strata; // by depth
  Vec coords = nullptr;
  _p_PetscSection section;
  std::map<std::string, _p_DMLabel> labels;
  std::shared_ptr<Global> G;
  VI gpt, number; // signed numbering, empty: everything is owned
  std::map<int, int> g2l;
  IS vnum = nullptr;
  _p_DM() : _p_PetscObject("DM") {}
  ~_p_DM() {
    VecDestroy(&coords);
    ISDestroy(&vnum);
  }
};

namespace simpetsc {
void reset() {
  g_live.clear();
  g_part = Partition();
}
void set_partition(const Partition &p) { g_part = p; }
long live(const char *k) { return g_live[k]; }
int global_point(DM d, PetscInt p) { return d->gpt.empty() ? p : d->gpt.at(p - d->pS); }
int cell_of_global(DM d, int c) {
  if (d->gpt.empty())
    return c;
  auto i = d->g2l.find(c);
  return i == d->g2l.end() ? -1 : i->second;
}
} // namespace simpetsc
using simpetsc::Mesh;

static std::shared_ptr<Global> interpolate(const Mesh &m) {
  auto G = std::make_shared<Global>();
  G->dim = m.dim;
  G->x = m.x;
  G->verts.assign(m.cells.begin(), m.cells.end());
  int nc = (int)m.cells.size(), nv = (int)m.x.size();
  std::map<std::vector<int>, int> fid, eid; // sorted vertices -> index
  std::vector<std::vector<int>> faces, edges;
  std::vector<std::vector<std::pair<int, int>>> cellc(nc), facec;
  auto edge = [&](int a, int b) {
    std::vector<int> k{std::min(a, b), std::max(a, b)};
    auto it = eid.find(k);
    if (it == eid.end()) {
      it = eid.emplace(k, (int)edges.size()).first;
      edges.push_back({a, b});
    }
    return std::make_pair(it->second, edges[it->second][0] == a ? 0 : -1);
  };
  auto face = [&](std::vector<int> v) {
    std::vector<int> k = v;
    std::sort(k.begin(), k.end());
    auto it = fid.find(k);
    if (it == fid.end()) {
      it = fid.emplace(k, (int)faces.size()).first;
      faces.push_back(v);
      std::vector<std::pair<int, int>> c;
      for (size_t i = 0; i < v.size(); i++)
        c.push_back(edge(v[i], v[(i + 1) % v.size()]));
      facec.push_back(c);
      return std::make_pair(it->second, 0);
    }
    return std::make_pair(it->second, -1);
  };
  for (int c = 0; c < nc; c++) {
    auto &v = m.cells[c];
    if (m.dim == 2) {
      for (size_t i = 0; i < v.size(); i++)
        cellc[c].push_back(edge(v[i], v[(i + 1) % v.size()]));
    } else if (v.size() == 4) {
      static const int f[4][3] = {{0, 1, 2}, {0, 3, 1}, {0, 2, 3}, {2, 1, 3}};
      for (auto &q : f)
        cellc[c].push_back(face({v[q[0]], v[q[1]], v[q[2]]}));
    } else {
      static const int f[6][4] = {{0, 1, 2, 3}, {4, 5, 6, 7}, {0, 3, 5, 4}, {2, 1, 7, 6}, {3, 2, 6, 5}, {0, 4, 7, 1}};
      for (auto &q : f)
        cellc[c].push_back(face({v[q[0]], v[q[1]], v[q[2]], v[q[3]]}));
    }
  }
  int nf = (int)faces.size(), ne = (int)edges.size();
  G->nstr = m.dim == 2 ? 3 : 4;
  int off[4] = {nc, nv, m.dim == 2 ? ne : nf, m.dim == 2 ? 0 : ne}, s = 0;
  for (int k = 0; k < 4; k++)
    G->start[k] = s, s += off[k];
  G->start[4] = s;
  for (int k = G->nstr; k < 4; k++)
    G->start[k] = s + 1; // stratum() stops before
  G->npt = s;
  G->cone.resize(s);
  G->orient.resize(s);
  int e0 = nc + nv + (m.dim == 2 ? 0 : nf), f0 = m.dim == 2 ? e0 : nc + nv;
  auto put = [&](int p, const std::vector<std::pair<int, int>> &c, int base) {
    for (auto &q : c)
      G->cone[p].push_back(base + q.first), G->orient[p].push_back(q.second);
  };
  for (int c = 0; c < nc; c++)
    put(c, cellc[c], f0);
  if (m.dim == 3)
    for (int f = 0; f < nf; f++)
      put(nc + nv + f, facec[f], e0);
  for (int e = 0; e < ne; e++)
    put(e0 + e, {{edges[e][0], 0}, {edges[e][1], 0}}, nc);
  G->cellpts.resize(nc);
  G->ptcells.resize(s);
  for (int c = 0; c < nc; c++) {
    std::set<int> st{c};
    std::vector<int> todo{c};
    while (!todo.empty()) {
      int p = todo.back();
      todo.pop_back();
      for (int q : G->cone[p])
        if (st.insert(q).second)
          todo.push_back(q);
    }
    G->cellpts[c].assign(st.begin(), st.end());
    for (int p : st)
      G->ptcells[p].push_back(c);
  }
  return G;
}
static void symmetrize(DM d) {
  d->supp.assign(d->pE - d->pS, {});
  for (int p = d->pS; p < d->pE; p++)
    for (int q : d->cone[p - d->pS])
      d->supp[q - d->pS].push_back(p);
}
static int depth_of(DM d, int p) {
  int &x = d->depth[p - d->pS];
  if (x < 0)
    x = d->cone[p - d->pS].empty() ? 0 : 1 + depth_of(d, d->cone[p - d->pS][0]);
  return x;
}
static int stratify(DM d) {
  d->depth.assign(d->pE - d->pS, -1);
  d->maxd = -1;
  d->strata.clear();
  for (int p = d->pS; p < d->pE; p++) {
    int k = depth_of(d, p);
    d->maxd = std::max(d->maxd, k);
  }
  d->strata.assign(d->maxd + 1, {d->pE, d->pS});
  for (int p = d->pS; p < d->pE; p++) {
    auto &s = d->strata[d->depth[p - d->pS]];
    s[0] = std::min(s[0], p);
    s[1] = std::max(s[1], p + 1);
  }
  for (int p = d->pS; p < d->pE; p++) // strata must be contiguous
    for (int k = 0; k <= d->maxd; k++)
      if (k != d->depth[p - d->pS] && p >= d->strata[k][0] && p < d->strata[k][1])
        return 73;
  return 0;
}
// Fill a DM with the given points of the global mesh (already in local order).
static void fill(DM d, std::shared_ptr<Global> G, const VI &pts) {
  d->G = G;
  d->dim = d->cdim = G->dim;
  d->pS = 0;
  d->pE = (int)pts.size();
  d->gpt = pts;
  for (int i = 0; i < (int)pts.size(); i++)
    d->g2l[pts[i]] = i;
  d->cone.assign(pts.size(), {});
  d->orient.assign(pts.size(), {});
  int nv = 0;
  for (int p : pts)
    nv += G->stratum(p) == 1;
  VecCreate(MPI_COMM_SELF, &d->coords);
  d->coords->v.assign((size_t)nv * G->dim, 0.0);
  int v0 = -1;
  for (int i = 0; i < (int)pts.size(); i++) {
    int p = pts[i];
    d->orient[i] = G->orient[p];
    for (int q : G->cone[p])
      d->cone[i].push_back(d->g2l.at(q));
    if (G->stratum(p) == 1) {
      if (v0 < 0)
        v0 = i;
      for (int k = 0; k < G->dim; k++)
        d->coords->v[(size_t)(i - v0) * G->dim + k] = G->x[p - G->start[1]][k];
    }
  }
  for (auto &l : G->labels) {
    auto &L = d->labels[l.first];
    for (auto &e : l.second) {
      auto it = d->g2l.find(e.first);
      if (it != d->g2l.end())
        L.v[it->second] = e.second;
    }
  }
  symmetrize(d);
  stratify(d);
}
DM simpetsc::create(MPI_Comm comm, const Mesh &m) {
  int r;
  MPI_Comm_rank(comm, &r);
  DM d = new _p_DM;
  d->comm = comm;
  d->dim = d->cdim = m.dim;
  if (r == 0) {
    auto G = interpolate(m);
    VI all(G->npt);
    for (int i = 0; i < G->npt; i++)
      all[i] = i;
    fill(d, G, all);
  }
  return d;
}
static uint64_t mix(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static int owner_of(const Global &G, const VI &own, int p) {
  if (p < G.ncell())
    return own[p];
  std::set<int> s;
  for (int c : G.ptcells[p])
    s.insert(own[c]);
  std::vector<int> v(s.begin(), s.end());
  switch (g_part.salt % 3) {
  case 0: return v.front();
  case 1: return v.back();
  }
  return v[mix(g_part.salt + (uint64_t)p) % v.size()];
}
// Points of rank q, per stratum: those of its own cells first, then the overlap.
static std::vector<VI> local_points(const Global &G, const VI &own, int q, int overlap) {
  std::set<int> cells, all;
  for (int c = 0; c < G.ncell(); c++)
    if (own[c] == q)
      cells.insert(c);
  all = cells;
  for (int l = 0; l < overlap; l++) {
    std::set<int> nx = all;
    for (int c : all)
      for (int p : G.cellpts[c])
        if (G.stratum(p) == 1)
          nx.insert(G.ptcells[p].begin(), G.ptcells[p].end());
    all = nx;
  }
  std::set<int> p1, p2;
  for (int c : cells)
    p1.insert(G.cellpts[c].begin(), G.cellpts[c].end());
  for (int c : all)
    for (int p : G.cellpts[c])
      if (!p1.count(p))
        p2.insert(p);
  std::vector<VI> r(G.nstr);
  for (int p : p1)
    r[G.stratum(p)].push_back(p);
  for (int p : p2)
    r[G.stratum(p)].push_back(p);
  return r;
}
extern "C++" {
PetscErrorCode PetscInitializeNoArguments(void) { return 0; }
PetscErrorCode PetscFinalize(void) { return 0; }
PetscErrorCode PetscErrorMessage(int, const char **t, char **s) {
  static char e[] = "stand-in";
  *t = "error from the PETSc stand-in";
  if (s)
    *s = e;
  return 0;
}
PetscErrorCode PetscObjectGetComm(PetscObject o, MPI_Comm *c) {
  *c = o->comm;
  return 0;
}
PetscErrorCode PetscObjectSetName(PetscObject, const char *) { return 0; }
PetscErrorCode DMCreate(MPI_Comm c, DM *d) {
  *d = new _p_DM;
  (*d)->comm = c;
  return 0;
}
PetscErrorCode DMDestroy(DM *d) {
  if (*d && --(*d)->ref == 0)
    delete *d;
  *d = nullptr;
  return 0;
}
PetscErrorCode DMSetType(DM, const char *) { return 0; }
PetscErrorCode DMSetUp(DM) { return 0; }
PetscErrorCode DMView(DM, PetscViewer) { return 0; }
PetscErrorCode DMGetDimension(DM d, PetscInt *n) { return *n = d->dim, 0; }
PetscErrorCode DMSetDimension(DM d, PetscInt n) { return d->dim = n, 0; }
PetscErrorCode DMGetCoordinateDim(DM d, PetscInt *n) { return *n = d->cdim, 0; }
PetscErrorCode DMSetCoordinateDim(DM d, PetscInt n) { return d->cdim = n, 0; }
PetscErrorCode DMGetCoordinateSection(DM d, PetscSection *s) { return *s = &d->section, 0; }
PetscErrorCode DMSetCoordinatesLocal(DM d, Vec v) {
  v->ref++;
  VecDestroy(&d->coords);
  d->coords = v;
  return 0;
}
PetscErrorCode DMGetBoundingBox(DM d, PetscReal lo[], PetscReal hi[]) {
  double a[3] = {1e300, 1e300, 1e300}, b[3] = {-1e300, -1e300, -1e300};
  if (d->coords)
    for (size_t i = 0; i < d->coords->v.size(); i++) {
      int k = (int)i % d->cdim;
      a[k] = std::min(a[k], d->coords->v[i]);
      b[k] = std::max(b[k], d->coords->v[i]);
    }
  double ga[3], gb[3];
  MPI_Allreduce(a, ga, 3, MPI_DOUBLE, MPI_MIN, d->comm);
  MPI_Allreduce(b, gb, 3, MPI_DOUBLE, MPI_MAX, d->comm);
  for (int k = 0; k < d->cdim; k++) {
    if (lo)
      lo[k] = ga[k];
    if (hi)
      hi[k] = gb[k];
  }
  return 0;
}
static bool bad(DM d, int p) { return p < d->pS || p >= d->pE; }
// Vertices of a point, cyclic order in 2D.
static VI vertices(DM d, int p) {
  auto &c = d->cone[p - d->pS];
  int k = d->depth[p - d->pS];
  if (k == 0)
    return {p};
  if (k == 1)
    return c;
  VI v;
  if (k == 2) {
    for (size_t i = 0; i < c.size(); i++) {
      auto &e = d->cone[c[i] - d->pS];
      v.push_back(d->orient[p - d->pS][i] >= 0 ? e[0] : e[1]);
    }
    return v;
  }
  std::set<int> s;
  for (int f : c)
    for (int q : vertices(d, f))
      if (s.insert(q).second)
        v.push_back(q);
  return v;
}
static const double *xyz(DM d, int v) { return &d->coords->v[(size_t)(v - d->strata[0][0]) * d->cdim]; }
static double tet(const double *a, const double *b, const double *c, const double *e) {
  double u[3], v[3], w[3];
  for (int k = 0; k < 3; k++)
    u[k] = b[k] - a[k], v[k] = c[k] - a[k], w[k] = e[k] - a[k];
  return (u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0])) / 6.0;
}
static bool inside(DM d, int cell, const double *x) {
  VI v = vertices(d, cell);
  if (d->cdim == 2) {
    double sgn = 0;
    int n = (int)v.size();
    for (int i = 0; i < n; i++) {
      const double *a = xyz(d, v[i]), *b = xyz(d, v[(i + 1) % n]);
      sgn += a[0] * b[1] - a[1] * b[0];
    }
    for (int i = 0; i < n; i++) {
      const double *a = xyz(d, v[i]), *b = xyz(d, v[(i + 1) % n]);
      double s = (b[0] - a[0]) * (x[1] - a[1]) - (b[1] - a[1]) * (x[0] - a[0]);
      if (s * sgn < 0 && std::fabs(s) > 1e-14 * std::fabs(sgn))
        return false;
    }
    return true;
  }
  if (v.size() == 4) {
    const double *a = xyz(d, v[0]), *b = xyz(d, v[1]), *c = xyz(d, v[2]), *e = xyz(d, v[3]);
    double T = tet(a, b, c, e), w[4] = {tet(x, b, c, e), tet(a, x, c, e), tet(a, b, x, e), tet(a, b, c, x)};
    for (double q : w)
      if (q / T < -1e-12)
        return false;
    return true;
  }
  for (int k = 0; k < d->cdim; k++) {
    double lo = 1e300, hi = -1e300;
    for (int q : v)
      lo = std::min(lo, xyz(d, q)[k]), hi = std::max(hi, xyz(d, q)[k]);
    if (x[k] < lo || x[k] > hi)
      return false;
  }
  return true;
}
PetscErrorCode DMLocatePoints(DM d, Vec v, DMPointLocationType, PetscSF *sf) {
  if (!*sf)
    *sf = new _p_PetscSF;
  size_t n = v->v.size() / (size_t)d->cdim;
  (*sf)->remote.assign(n + 1, {0, -367});
  for (size_t i = 0; i < n; i++)
    for (int c = d->strata.at(d->maxd)[0]; c < d->strata[d->maxd][1]; c++)
      if ((d->number.empty() || d->number[c - d->pS] >= 0) && inside(d, c, &v->v[i * d->cdim])) { // not the overlap
        (*sf)->remote[i].index = c;
        break;
      }
  (*sf)->remote.resize(std::max<size_t>(n, 1), {0, -367});
  return 0;
}
PetscErrorCode DMCreateLabel(DM d, const char n[]) { return (void)d->labels[n], 0; }
PetscErrorCode DMHasLabel(DM d, const char n[], PetscBool *b) {
  *b = d->labels.count(n) ? PETSC_TRUE : PETSC_FALSE;
  return 0;
}
PetscErrorCode DMGetLabel(DM d, const char n[], DMLabel *l) {
  auto i = d->labels.find(n);
  *l = i == d->labels.end() ? nullptr : &i->second;
  return 0;
}
PetscErrorCode DMGetNumLabels(DM d, PetscInt *n) { return *n = (int)d->labels.size(), 0; }
PetscErrorCode DMGetLabelName(DM d, PetscInt i, const char **n) {
  if (i < 0 || i >= (int)d->labels.size())
    return 63;
  *n = std::next(d->labels.begin(), i)->first.c_str();
  return 0;
}
PetscErrorCode DMSetLabelValue(DM d, const char n[], PetscInt p, PetscInt v) {
  if (bad(d, p))
    return 63;
  d->labels[n].v[p] = v;
  return 0;
}
PetscErrorCode DMLabelGetValue(DMLabel l, PetscInt p, PetscInt *v) {
  if (!l)
    return 85;
  auto i = l->v.find(p);
  *v = i == l->v.end() ? -1 : i->second;
  return 0;
}
PetscErrorCode DMPlexCreateBoxMesh(MPI_Comm comm, PetscInt dim, PetscBool simplex, const PetscInt f[],
                                   const PetscReal lo[], const PetscReal hi[], const DMBoundaryType[], PetscBool, DM *out) {
  Mesh m;
  m.dim = dim;
  int n[3] = {f[0], f[1], dim > 2 ? f[2] : 0};
  auto id = [&](int i, int j, int k) { return (k * (n[1] + 1) + j) * (n[0] + 1) + i; };
  for (int k = 0; k <= n[2]; k++)
    for (int j = 0; j <= n[1]; j++)
      for (int i = 0; i <= n[0]; i++)
        m.x.push_back({lo[0] + (hi[0] - lo[0]) * i / n[0], lo[1] + (hi[1] - lo[1]) * j / n[1],
                       dim > 2 ? lo[2] + (hi[2] - lo[2]) * k / n[2] : 0.0});
  for (int k = 0; k < std::max(1, n[2]); k++)
    for (int j = 0; j < n[1]; j++)
      for (int i = 0; i < n[0]; i++) {
        if (dim == 3)
          m.cells.push_back({id(i, j, k), id(i, j + 1, k), id(i + 1, j + 1, k), id(i + 1, j, k), id(i, j, k + 1),
                             id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)});
        else if (simplex) {
          m.cells.push_back({id(i, j, 0), id(i + 1, j, 0), id(i + 1, j + 1, 0)});
          m.cells.push_back({id(i, j, 0), id(i + 1, j + 1, 0), id(i, j + 1, 0)});
        } else
          m.cells.push_back({id(i, j, 0), id(i + 1, j, 0), id(i + 1, j + 1, 0), id(i, j + 1, 0)});
      }
  *out = simpetsc::create(comm, m);
  return 0;
}
PetscErrorCode DMPlexDistribute(DM d, PetscInt overlap, PetscSF *sf, DM *out) {
  int r, n;
  MPI_Comm_rank(d->comm, &r);
  MPI_Comm_size(d->comm, &n);
  *out = nullptr;
  if (r == 0) { // labels travel with their points
    d->G->labels.clear();
    for (auto &l : d->labels) {
      auto &L = d->G->labels[l.first];
      for (auto &e : l.second.v)
        L[d->gpt.at(e.first)] = e.second;
    }
  }
  int64_t addr = (int64_t)(intptr_t)d->G.get();
  MPI_Bcast(&addr, 1, MPI_INT64_T, 0, d->comm);
  auto G = ((Global *)(intptr_t)addr)->shared_from_this();
  MPI_Barrier(d->comm);
  VI own(g_part.owner.begin(), g_part.owner.end());
  if ((int)own.size() != G->ncell()) {
    own.resize(G->ncell());
    for (int c = 0; c < G->ncell(); c++)
      own[c] = (int)((int64_t)c * n / G->ncell());
  }
  std::vector<std::vector<VI>> lp(n);
  VI powner(G->npt), pnum(G->npt);
  for (int p = 0; p < G->npt; p++)
    powner[p] = owner_of(*G, own, p);
  int next = 0;
  for (int q = 0; q < n; q++)
    lp[q] = local_points(*G, own, q, overlap);
  for (int s = 0; s < G->nstr; s++)
    for (int q = 0; q < n; q++)
      for (int p : lp[q][s])
        if (powner[p] == q)
          pnum[p] = next++;
  VI mine;
  for (auto &s : lp[r])
    mine.insert(mine.end(), s.begin(), s.end());
  DM o = new _p_DM;
  o->comm = d->comm;
  fill(o, G, mine);
  o->dim = o->cdim = G->dim;
  for (int p : mine)
    o->number.push_back(powner[p] == r ? pnum[p] : -(pnum[p] + 1));
  if (sf) {
    *sf = new _p_PetscSF;
    (*sf)->nroots = d->pE;
    for (int p : mine)
      (*sf)->remote.push_back({0, p});
  }
  *out = o;
  return 0;
}
PetscErrorCode DMPlexGetChart(DM d, PetscInt *s, PetscInt *e) {
  if (s)
    *s = d->pS;
  if (e)
    *e = d->pE;
  return 0;
}
PetscErrorCode DMPlexSetChart(DM d, PetscInt s, PetscInt e) {
  d->pS = s;
  d->pE = e;
  d->cone.assign(e - s, {});
  d->orient.assign(e - s, {});
  return 0;
}
PetscErrorCode DMPlexGetDepth(DM d, PetscInt *k) { return *k = d->maxd, 0; }
PetscErrorCode DMPlexGetPointDepth(DM d, PetscInt p, PetscInt *k) {
  if (bad(d, p))
    return 63;
  return *k = d->depth.at(p - d->pS), 0;
}
PetscErrorCode DMPlexGetPointHeight(DM d, PetscInt p, PetscInt *k) {
  if (bad(d, p))
    return 63;
  return *k = d->maxd - d->depth.at(p - d->pS), 0;
}
PetscErrorCode DMPlexGetDepthStratum(DM d, PetscInt k, PetscInt *s, PetscInt *e) {
  bool ok = k >= 0 && k <= d->maxd;
  if (s)
    *s = ok ? d->strata[k][0] : 0;
  if (e)
    *e = ok ? d->strata[k][1] : 0;
  return 0;
}
PetscErrorCode DMPlexGetHeightStratum(DM d, PetscInt h, PetscInt *s, PetscInt *e) {
  return DMPlexGetDepthStratum(d, d->maxd - h, s, e);
}
PetscErrorCode DMPlexGetConeSize(DM d, PetscInt p, PetscInt *n) {
  if (bad(d, p))
    return 63;
  return *n = (int)d->cone[p - d->pS].size(), 0;
}
PetscErrorCode DMPlexSetConeSize(DM d, PetscInt p, PetscInt n) {
  if (bad(d, p))
    return 63;
  d->cone[p - d->pS].assign(n, -1);
  d->orient[p - d->pS].assign(n, 0);
  return 0;
}
PetscErrorCode DMPlexGetCone(DM d, PetscInt p, const PetscInt **c) {
  if (bad(d, p))
    return 63;
  return *c = d->cone[p - d->pS].data(), 0;
}
PetscErrorCode DMPlexSetCone(DM d, PetscInt p, const PetscInt c[]) {
  if (bad(d, p))
    return 63;
  for (size_t i = 0; i < d->cone[p - d->pS].size(); i++) {
    if (bad(d, c[i]))
      return 63;
    d->cone[p - d->pS][i] = c[i];
  }
  return 0;
}
PetscErrorCode DMPlexSetConeOrientation(DM d, PetscInt p, const PetscInt o[]) {
  if (bad(d, p))
    return 63;
  std::copy(o, o + d->orient[p - d->pS].size(), d->orient[p - d->pS].begin());
  return 0;
}
PetscErrorCode DMPlexGetOrientedCone(DM d, PetscInt p, const PetscInt **c, const PetscInt **o) {
  if (bad(d, p))
    return 63;
  if (c)
    *c = d->cone[p - d->pS].data();
  if (o)
    *o = d->orient[p - d->pS].data();
  return 0;
}
PetscErrorCode DMPlexRestoreOrientedCone(DM, PetscInt, const PetscInt **c, const PetscInt **o) {
  if (c)
    *c = nullptr;
  if (o)
    *o = nullptr;
  return 0;
}
PetscErrorCode DMPlexGetSupportSize(DM d, PetscInt p, PetscInt *n) {
  if (bad(d, p))
    return 63;
  return *n = (int)d->supp.at(p - d->pS).size(), 0;
}
PetscErrorCode DMPlexGetSupport(DM d, PetscInt p, const PetscInt **s) {
  if (bad(d, p))
    return 63;
  return *s = d->supp.at(p - d->pS).data(), 0;
}
PetscErrorCode DMPlexSymmetrize(DM d) {
  for (auto &c : d->cone)
    for (int q : c)
      if (q < 0)
        return 73;
  symmetrize(d);
  return 0;
}
PetscErrorCode DMPlexStratify(DM d) { return stratify(d); }
PetscErrorCode DMPlexGetCellType(DM d, PetscInt p, DMPolytopeType *t) {
  if (bad(d, p))
    return 63;
  int k = d->depth[p - d->pS], n = (int)d->cone[p - d->pS].size();
  *t = k == 0 ? DM_POLYTOPE_POINT
       : k == 1 ? DM_POLYTOPE_SEGMENT
       : k == 2 ? (n == 3 ? DM_POLYTOPE_TRIANGLE : DM_POLYTOPE_QUADRILATERAL)
                : (n == 4 ? DM_POLYTOPE_TETRAHEDRON : DM_POLYTOPE_HEXAHEDRON);
  return 0;
}
PetscErrorCode DMPlexIsInterpolated(DM, DMPlexInterpolatedFlag *f) { return *f = DMPLEX_INTERPOLATED_FULL, 0; }
PetscErrorCode DMPlexCheckFaces(DM d, PetscInt) {
  if (d->dim != 2 || d->maxd < 2)
    return 0;
  for (int p = d->strata[2][0]; p < d->strata[2][1]; p++) {
    auto &c = d->cone[p - d->pS];
    auto &o = d->orient[p - d->pS];
    for (size_t i = 0; i < c.size(); i++) {
      size_t j = (i + 1) % c.size();
      auto &a = d->cone[c[i] - d->pS], &b = d->cone[c[j] - d->pS];
      if ((o[i] >= 0 ? a[1] : a[0]) != (o[j] >= 0 ? b[0] : b[1]))
        return 73;
    }
  }
  return 0;
}
PetscErrorCode DMPlexCreatePointNumbering(DM d, IS *is) {
  *is = new _p_IS;
  (*is)->comm = d->comm;
  if (!d->number.empty()) {
    (*is)->v = d->number;
    return 0;
  }
  for (int p = d->pS; p < d->pE; p++)
    (*is)->v.push_back(p - d->pS);
  return 0;
}
PetscErrorCode DMPlexGetVertexNumbering(DM d, IS *is) {
  if (!d->vnum) {
    d->vnum = new _p_IS;
    int nc = d->G ? d->G->ncell() : 0;
    for (int p = d->strata.empty() ? 0 : d->strata[0][0]; p < (d->strata.empty() ? 0 : d->strata[0][1]); p++) {
      if (d->number.empty())
        d->vnum->v.push_back(p - d->strata[0][0]);
      else {
        int g = d->number[p - d->pS];
        d->vnum->v.push_back(g >= 0 ? g - nc : g + nc);
      }
    }
  }
  *is = d->vnum;
  return 0;
}
PetscErrorCode DMPlexGetCellCoordinates(DM d, PetscInt p, PetscBool *dg, PetscInt *n, const PetscScalar *a[], PetscScalar *c[]) {
  if (bad(d, p))
    return 63;
  VI v = vertices(d, p);
  *dg = PETSC_FALSE;
  *n = (int)v.size() * d->cdim;
  double *o = new double[*n];
  g_live["Array"]++;
  for (size_t i = 0; i < v.size(); i++)
    std::copy(xyz(d, v[i]), xyz(d, v[i]) + d->cdim, o + i * d->cdim);
  *a = o;
  *c = o;
  return 0;
}
PetscErrorCode DMPlexRestoreCellCoordinates(DM, PetscInt, PetscBool *, PetscInt *, const PetscScalar *a[], PetscScalar *c[]) {
  delete[] *c;
  g_live["Array"]--;
  *c = nullptr;
  *a = nullptr;
  return 0;
}
PetscErrorCode DMPlexComputeCellGeometryFVM(DM d, PetscInt p, PetscReal *vol, PetscReal cen[], PetscReal nrm[]) {
  if (bad(d, p))
    return 63;
  VI v = vertices(d, p);
  int n = (int)v.size();
  if (cen)
    for (int k = 0; k < d->cdim; k++) {
      cen[k] = 0;
      for (int q : v)
        cen[k] += xyz(d, q)[k] / n;
    }
  double w = 0;
  if (d->cdim == 2) {
    for (int i = 0; i < n; i++) {
      const double *a = xyz(d, v[i]), *b = xyz(d, v[(i + 1) % n]);
      w += a[0] * b[1] - a[1] * b[0];
    }
    w = std::fabs(w) / 2;
  } else if (n == 4) {
    w = std::fabs(tet(xyz(d, v[0]), xyz(d, v[1]), xyz(d, v[2]), xyz(d, v[3])));
  } else {
    w = 1;
    for (int k = 0; k < d->cdim; k++) {
      double lo = 1e300, hi = -1e300;
      for (int q : v)
        lo = std::min(lo, xyz(d, q)[k]), hi = std::max(hi, xyz(d, q)[k]);
      w *= hi - lo;
    }
  }
  if (vol)
    *vol = w;
  (void)nrm;
  return 0;
}
PetscErrorCode DMPlexMarkBoundaryFaces(DM d, PetscInt v, DMLabel l) {
  if (d->maxd < 1)
    return 0;
  for (int f = d->strata[d->maxd - 1][0]; f < d->strata[d->maxd - 1][1]; f++) {
    int cells = d->G ? (int)d->G->ptcells[simpetsc::global_point(d, f)].size() : (int)d->supp[f - d->pS].size();
    if (cells == 1)
      l->v[f] = v;
  }
  return 0;
}
PetscErrorCode DMPlexLabelComplete(DM d, DMLabel l) {
  auto v = l->v;
  for (auto &e : v) {
    std::vector<int> todo{e.first};
    while (!todo.empty()) {
      int p = todo.back();
      todo.pop_back();
      for (int q : d->cone[p - d->pS]) {
        l->v[q] = e.second;
        todo.push_back(q);
      }
    }
  }
  return 0;
}
PetscErrorCode PetscSFGetGraph(PetscSF s, PetscInt *nr, PetscInt *nl, const PetscInt **il, const PetscSFNode **ir) {
  if (nr)
    *nr = s->nroots;
  if (nl)
    *nl = (int)s->remote.size();
  if (il)
    *il = nullptr;
  if (ir)
    *ir = s->remote.data();
  return 0;
}
PetscErrorCode PetscSFDestroy(PetscSF *s) {
  delete *s;
  *s = nullptr;
  return 0;
}
PetscErrorCode PetscSectionSetNumFields(PetscSection, PetscInt) { return 0; }
PetscErrorCode PetscSectionSetFieldComponents(PetscSection, PetscInt, PetscInt) { return 0; }
PetscErrorCode PetscSectionSetChart(PetscSection s, PetscInt, PetscInt) { return s->dof.clear(), 0; }
PetscErrorCode PetscSectionSetDof(PetscSection s, PetscInt p, PetscInt n) { return s->dof[p] = n, 0; }
PetscErrorCode PetscSectionSetFieldDof(PetscSection, PetscInt, PetscInt, PetscInt) { return 0; }
PetscErrorCode PetscSectionSetUp(PetscSection) { return 0; }
PetscErrorCode PetscSectionGetStorageSize(PetscSection s, PetscInt *n) {
  *n = 0;
  for (auto &e : s->dof)
    *n += e.second;
  return 0;
}
PetscErrorCode ISGetIndices(IS s, const PetscInt **p) { return *p = s->v.data(), 0; }
PetscErrorCode ISRestoreIndices(IS, const PetscInt **p) { return *p = nullptr, 0; }
PetscErrorCode ISDestroy(IS *s) {
  delete *s;
  *s = nullptr;
  return 0;
}
PetscErrorCode VecCreate(MPI_Comm c, Vec *v) {
  *v = new _p_Vec;
  (*v)->comm = c;
  return 0;
}
PetscErrorCode VecSetSizes(Vec v, PetscInt n, PetscInt) { return v->v.assign(n, 0.0), 0; }
PetscErrorCode VecSetBlockSize(Vec, PetscInt) { return 0; }
PetscErrorCode VecSetType(Vec, const char *) { return 0; }
PetscErrorCode VecSetFromOptions(Vec) { return 0; }
PetscErrorCode VecGetArray(Vec v, PetscScalar **p) { return *p = v->v.data(), 0; }
PetscErrorCode VecRestoreArray(Vec, PetscScalar **p) { return *p = nullptr, 0; }
PetscErrorCode VecGetArrayWrite(Vec v, PetscScalar **p) { return *p = v->v.data(), 0; }
PetscErrorCode VecRestoreArrayWrite(Vec, PetscScalar **p) { return *p = nullptr, 0; }
PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar **p) { return *p = v->v.data(), 0; }
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar **p) { return *p = nullptr, 0; }
PetscErrorCode VecDestroy(Vec *v) {
  if (*v && --(*v)->ref == 0)
    delete *v;
  *v = nullptr;
  return 0;
}
PetscErrorCode MatCreateSeqDense(MPI_Comm, PetscInt n, PetscInt m, PetscScalar a[], Mat *A) {
  if (n != m || !a)
    return 60;
  *A = new _p_Mat;
  (*A)->n = n;
  (*A)->a = a;
  return 0;
}
PetscErrorCode MatLUFactor(Mat A, IS, IS, const void *) {
  int n = A->n;
  A->lu.assign(A->a, A->a + n * n);
  A->piv.resize(n);
  auto at = [&](int r, int c) -> double & { return A->lu[(size_t)c * n + r]; };
  for (int k = 0; k < n; k++) {
    int b = k;
    for (int r = k + 1; r < n; r++)
      if (std::fabs(at(r, k)) > std::fabs(at(b, k)))
        b = r;
    if (at(b, k) == 0.0)
      return 71;
    A->piv[k] = b;
    for (int c = 0; c < n; c++)
      std::swap(at(k, c), at(b, c));
    for (int r = k + 1; r < n; r++) {
      at(r, k) /= at(k, k);
      for (int c = k + 1; c < n; c++)
        at(r, c) -= at(r, k) * at(k, c);
    }
  }
  return 0;
}
PetscErrorCode MatMatSolve(Mat A, Mat B, Mat X) {
  int n = A->n;
  if (A->lu.empty())
    return 73;
  auto at = [&](int r, int c) { return A->lu[(size_t)c * n + r]; };
  for (int j = 0; j < n; j++) {
    double *x = X->a + (size_t)j * n;
    std::copy(B->a + (size_t)j * n, B->a + (size_t)(j + 1) * n, x);
    for (int k = 0; k < n; k++)
      std::swap(x[k], x[A->piv[k]]);
    for (int r = 0; r < n; r++)
      for (int c = 0; c < r; c++)
        x[r] -= at(r, c) * x[c];
    for (int r = n - 1; r >= 0; r--) {
      for (int c = r + 1; c < n; c++)
        x[r] -= at(r, c) * x[c];
      x[r] /= at(r, r);
    }
  }
  return 0;
}
PetscErrorCode MatGetValue(Mat A, PetscInt r, PetscInt c, PetscScalar *v) {
  return *v = A->a[(size_t)c * A->n + r], 0;
}
PetscErrorCode MatDestroy(Mat *A) {
  delete *A;
  *A = nullptr;
  return 0;
}
PetscErrorCode PetscViewerCreate(MPI_Comm, PetscViewer *v) { return *v = new _p_PetscViewer, 0; }
PetscErrorCode PetscViewerSetType(PetscViewer, const char *) { return 0; }
PetscErrorCode PetscViewerFileSetMode(PetscViewer, PetscFileMode) { return 0; }
PetscErrorCode PetscViewerFileSetName(PetscViewer, const char[]) { return 0; }
PetscErrorCode PetscViewerDestroy(PetscViewer *v) {
  delete *v;
  *v = nullptr;
  return 0;
}
}
