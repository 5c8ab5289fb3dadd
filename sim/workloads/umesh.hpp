// Random unstructured meshes, distributed by the PETSc stand-in, with reference geometry.
#pragma once
#include "wl.hpp"
#include "petsc_mock.h"
#include <neso_particles/external_interfaces/petsc/petsc_interface.hpp>
namespace wl {
namespace pi = NESO::Particles::PetscInterface;
typedef std::array<double, 3> V3;
struct UMesh {
  simpetsc::Mesh m;
  simpetsc::Partition part;
  int overlap = 0, offset = 0;
  bool exact = false;                           // axis aligned
  std::vector<std::vector<int>> edge_cells;     // per edge (2D): its cells
  std::vector<std::array<int, 2>> edges;        // vertices, as in the first cell
  std::vector<bool> bvert;                      // vertex on the boundary
  std::vector<int> owned(int r) const {
    std::vector<int> c;
    for (size_t i = 0; i < part.owner.size(); i++)
      if (part.owner[i] == r)
        c.push_back((int)i);
    return c;
  }
  int nc() const { return (int)m.cells.size(); }
  const V3 &v(int c, int k) const { return m.x[m.cells[c][k]]; }
  double area(int c) const {
    double a = 0;
    auto &q = m.cells[c];
    for (size_t i = 0; i < q.size(); i++) {
      auto &p = m.x[q[i]], &n = m.x[q[(i + 1) % q.size()]];
      a += p[0] * n[1] - n[0] * p[1];
    }
    return std::fabs(0.5 * a);
  }
  static double tet6(const V3 &a, const V3 &b, const V3 &c, const V3 &d) {
    double u[3], w[3], s[3];
    for (int k = 0; k < 3; k++)
      u[k] = b[k] - a[k], w[k] = c[k] - a[k], s[k] = d[k] - a[k];
    return u[0] * (w[1] * s[2] - w[2] * s[1]) - u[1] * (w[0] * s[2] - w[2] * s[0]) + u[2] * (w[0] * s[1] - w[1] * s[0]);
  }
  void box(int c, double *lo, double *hi) const {
    for (int d = 0; d < 3; d++) {
      lo[d] = 1e300, hi[d] = -1e300;
      for (int i : m.cells[c])
        lo[d] = std::min(lo[d], m.x[i][d]), hi[d] = std::max(hi[d], m.x[i][d]);
    }
  }
  double volume(int c) const {
    if (m.dim == 2)
      return area(c);
    if (m.cells[c].size() == 4)
      return std::fabs(tet6(v(c, 0), v(c, 1), v(c, 2), v(c, 3))) / 6.0;
    double lo[3], hi[3];
    box(c, lo, hi);
    return (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]);
  }
  // signed distance-like measure: >= 0 inside, relative to the size of the cell
  double inside(int c, const double *p) const {
    double lo[3], hi[3], s = 1e300, len = 0;
    box(c, lo, hi);
    for (int d = 0; d < m.dim; d++)
      len = std::max(len, hi[d] - lo[d]);
    auto &q = m.cells[c];
    if (m.dim == 2) {
      double sgn = 0;
      for (size_t i = 0; i < q.size(); i++) {
        auto &a = m.x[q[i]], &b = m.x[q[(i + 1) % q.size()]];
        sgn += a[0] * b[1] - b[0] * a[1];
      }
      sgn = sgn > 0 ? 1 : -1;
      for (size_t i = 0; i < q.size(); i++) {
        auto &a = m.x[q[i]], &b = m.x[q[(i + 1) % q.size()]];
        double n = std::hypot(b[0] - a[0], b[1] - a[1]);
        s = std::min(s, sgn * ((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])) / n);
      }
      return s / len;
    }
    if (q.size() == 4) {
      V3 x{p[0], p[1], p[2]};
      double V = tet6(v(c, 0), v(c, 1), v(c, 2), v(c, 3));
      for (int k = 0; k < 4; k++) {
        V3 t[4] = {v(c, 0), v(c, 1), v(c, 2), v(c, 3)};
        t[k] = x;
        s = std::min(s, tet6(t[0], t[1], t[2], t[3]) / V);
      }
      return s;
    }
    for (int d = 0; d < 3; d++)
      s = std::min(s, std::min(p[d] - lo[d], hi[d] - p[d]));
    return s / len;
  }
  // a point strictly inside cell c
  void point_in(Rng &g, int c, double *p) const {
    auto &q = m.cells[c];
    double w[8], t = 0;
    size_t a = 0, n = q.size();
    std::vector<int> id(q.begin(), q.end());
    if (m.dim == 2 && n == 4) { // the corners of a convex quadrilateral
      a = (size_t)g.below(2);
      n = 3;
      if (a == 0)
        id = {q[0], q[1], q[2]};
      else
        id = {q[0], q[2], q[3]};
    }
    for (size_t i = 0; i < n; i++)
      t += w[i] = 0.01 + g.unit() * (g.pct(20) ? 0.02 : 1.0);
    for (int d = 0; d < 3; d++)
      p[d] = 0;
    for (size_t i = 0; i < n; i++)
      for (int d = 0; d < m.dim; d++)
        p[d] += w[i] / t * m.x[id[i]][d];
    if (m.dim == 3 && n == 8) {
      double lo[3], hi[3];
      box(c, lo, hi);
      for (int d = 0; d < 3; d++)
        p[d] = lo[d] + (hi[d] - lo[d]) * (0.001 + 0.998 * g.unit());
    }
  }
};
inline UMesh random_umesh(Rng r, int P, int dim) {
  UMesh U;
  auto &m = U.m;
  m.dim = dim;
  int n[3] = {1, 1, 1};
  int tri = (int)r.below(3); // none, some, all split
  for (;;) {
    int cells = 1;
    for (int d = 0; d < dim; d++) {
      n[d] = (int)r.range(1, dim == 2 ? 6 : tri == 2 ? 2 : 3);
      cells *= n[d];
    }
    if ((cells >= P || (dim == 3 && tri == 2)) && cells >= 2)
      break;
  }
  std::vector<double> ax[3];
  int shape = (int)r.below(10);
  for (int d = 0; d < 3; d++) {
    double o = 0, h = 1;
    switch (shape) {
    case 0: // unit spacing
      break;
    case 1: // a multiple of the other extent, up to rounding
      o = 0.1;
      h = d ? 0.2 / n[d] : 0.6 / n[d];
      break;
    case 2: // long and thin
      h = d ? 0.1 : 1.0;
      break;
    case 3: // a little more than a multiple of the other extent
      h = d ? 1.0 / n[d] : (2.0 + std::ldexp(1.0, -(int)r.range(8, 30))) / n[d];
      break;
    default:
      o = (double)r.range(-300, 300) / 64.0 + (shape > 6 ? r.unit() : 0.0);
      h = 0.25 + (shape > 6 ? r.unit() : (double)r.range(0, 48) / 64.0);
    }
    double x = o;
    for (int i = 0; i <= n[d]; i++) {
      ax[d].push_back(x);
      x = shape == 1 ? (i + 1 == n[d] ? (d ? 0.3 : 0.7) : o + (i + 1) * h)
                     : x + h * (shape > 3 && r.pct(40) ? 0.5 + r.unit() : 1.0);
    }
  }
  bool moved = dim == 2 && shape > 3 && r.pct(75);
  U.exact = !moved;
  auto id = [&](int i, int j, int k) { return (k * (n[1] + 1) + j) * (n[0] + 1) + i; };
  for (int k = 0; k <= (dim == 3 ? n[2] : 0); k++)
    for (int j = 0; j <= n[1]; j++)
      for (int i = 0; i <= n[0]; i++) {
        V3 p{ax[0][i], ax[1][j], dim == 3 ? ax[2][k] : 0.0};
        if (moved) {
          auto jig = [&](std::vector<double> &a, int q) {
            double lo = q ? a[q] - a[q - 1] : a[q + 1] - a[q], hi = q + 1 < (int)a.size() ? a[q + 1] - a[q] : lo;
            return std::min(lo, hi) * 0.22 * (2.0 * r.unit() - 1.0);
          };
          p[0] += jig(ax[0], i);
          p[1] += jig(ax[1], j);
        }
        m.x.push_back(p);
      }
  if (dim == 2) {
    for (int j = 0; j < n[1]; j++)
      for (int i = 0; i < n[0]; i++) {
        std::vector<int> q{id(i, j, 0), id(i + 1, j, 0), id(i + 1, j + 1, 0), id(i, j + 1, 0)};
        std::rotate(q.begin(), q.begin() + r.below(4), q.end());
        if (tri == 2 || (tri == 1 && r.pct(50))) {
          m.cells.push_back({q[0], q[1], q[2]});
          m.cells.push_back({q[2], q[3], q[0]});
        } else
          m.cells.push_back(q);
      }
    // sometimes the domain is not a rectangle
    if (r.pct(30) && (int)m.cells.size() > P + 3) {
      m.cells.erase(m.cells.begin() + r.below((i64)m.cells.size()));
      if (r.pct(50))
        m.cells.pop_back();
    }
  } else {
    for (int k = 0; k < n[2]; k++)
      for (int j = 0; j < n[1]; j++)
        for (int i = 0; i < n[0]; i++) {
          int v[8];
          for (int b = 0; b < 8; b++)
            v[b] = id(i + (b & 1), j + (b >> 1 & 1), k + (b >> 2));
          if (tri < 2) {
            m.cells.push_back({v[0], v[2], v[3], v[1], v[4], v[5], v[7], v[6]});
          } else { // Kuhn: conforming
            static const int pm[6][3] = {{1, 2, 4}, {1, 4, 2}, {2, 1, 4}, {2, 4, 1}, {4, 1, 2}, {4, 2, 1}};
            for (auto &p : pm) {
              int a = v[p[0]], b = v[p[0] + p[1]];
              m.cells.push_back({v[0], a, b, v[7]});
            }
          }
        }
  }
  // drop unused vertices
  std::vector<int> use(m.x.size(), -1);
  std::vector<V3> nx;
  for (auto &c : m.cells)
    for (int &q : c) {
      if (use[q] < 0)
        use[q] = (int)nx.size(), nx.push_back(m.x[q]);
      q = use[q];
    }
  m.x = nx;
  int NC = U.nc();
  if (r.pct(50)) // cells in a random order
    for (int i = NC - 1; i > 0; i--)
      std::swap(m.cells[i], m.cells[(size_t)r.below(i + 1)]);
  // partition
  auto &own = U.part.owner;
  own.assign(NC, 0);
  int how = (int)r.below(3);
  for (int c = 0; c < NC; c++) {
    double lo[3], hi[3];
    U.box(c, lo, hi);
    if (how == 0)
      own[c] = (int)r.below(P);
    else if (how == 1)
      own[c] = (int)((i64)c * P / NC);
    else
      own[c] = std::min(P - 1, (int)((lo[0] - ax[0][0]) / (ax[0].back() - ax[0][0] + 1e-9) * P * 1.0001));
    own[c] = std::max(0, std::min(P - 1, own[c]));
  }
  std::vector<int> perm(NC);
  for (int i = 0; i < NC; i++)
    perm[i] = i;
  for (int q = 0; q < P; q++) // nobody is left without a cell
    for (;;) {
      int have = 0;
      for (int o : own)
        have += o == q;
      if (have)
        break;
      int c = (int)r.below(NC), cnt = 0;
      for (int o : own)
        cnt += o == own[c];
      if (cnt > 1)
        own[c] = q;
    }
  U.part.salt = r.next();
  U.overlap = r.pct(70) ? 0 : 1;
  U.offset = (int)r.range(-1, dim == 2 ? 1 : 0);
  // edges
  U.bvert.assign(m.x.size(), false);
  if (dim == 2) {
    std::map<std::array<int, 2>, int> e;
    for (int c = 0; c < NC; c++)
      for (size_t i = 0; i < m.cells[c].size(); i++) {
        int a = m.cells[c][i], b = m.cells[c][(i + 1) % m.cells[c].size()];
        std::array<int, 2> k{std::min(a, b), std::max(a, b)};
        auto it = e.find(k);
        if (it == e.end()) {
          it = e.emplace(k, (int)U.edges.size()).first;
          U.edges.push_back({a, b});
          U.edge_cells.push_back({});
        }
        U.edge_cells[it->second].push_back(c);
      }
    for (size_t i = 0; i < U.edges.size(); i++)
      if (U.edge_cells[i].size() == 1)
        U.bvert[U.edges[i][0]] = U.bvert[U.edges[i][1]] = true;
  }
  return U;
}
// The distributed mesh and a particle group on it.
struct UFix {
  DM dm = nullptr;
  PetscSF sf = nullptr;
  std::shared_ptr<pi::DMPlexInterface> mesh;
  SYCLTargetSharedPtr target;
  DomainSharedPtr domain;
  ParticleGroupSharedPtr A;
  std::vector<DatSpec> spec;
  int ncell = 0, r = 0;
  std::vector<int> glob;      // local cell -> cell of the whole mesh
  std::map<int, int> loc;
};
typedef std::function<void(DM)> DmHook;
inline UFix make_ufix(const UMesh &U, const std::vector<DatSpec> &spec, bool group = true, DmHook before = {}, DmHook after = {}) {
  UFix f;
  f.spec = spec;
  f.dm = simpetsc::create(sim::users_comm(), U.m);
  if (before)
    before(f.dm);
  pi::generic_distribute(&f.dm, sim::users_comm(), U.overlap, &f.sf);
  if (after)
    after(f.dm);
  f.mesh = std::make_shared<pi::DMPlexInterface>(f.dm, U.offset, sim::users_comm());
  f.target = make_target(f.mesh->get_comm());
  auto mapper = std::make_shared<pi::DMPlexLocalMapper>(f.target, f.mesh);
  f.domain = std::make_shared<Domain>(f.mesh, mapper);
  if (group) {
    ParticleSpec ps = to_spec(spec);
    f.A = std::make_shared<ParticleGroup>(f.domain, ps, f.target);
  }
  f.ncell = f.mesh->get_cell_count();
  f.r = f.target->comm_pair.rank_parent;
  for (int c = 0; c < f.ncell; c++) {
    int g = simpetsc::global_point(f.dm, f.mesh->dmh->get_dmplex_cell_index(c));
    f.glob.push_back(g);
    f.loc[g] = c;
  }
  return f;
}
inline void free_ufix(UFix &f) {
  if (f.A)
    f.A->free();
  f.A.reset();
  f.domain.reset();
  f.target->free();
  f.mesh->free();
  f.mesh.reset();
  if (f.sf)
    PetscSFDestroy(&f.sf);
  DMDestroy(&f.dm);
}
} // namespace wl
