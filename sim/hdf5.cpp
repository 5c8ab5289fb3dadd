// Simulated parallel HDF5 over an in-memory file system. Contents are durable
// once every rank closed the file; a crash while a file is open for writing
// leaves it in an unspecified state.
#include "core_internal.hpp"
#include "include/hdf5.h"
#include "include/simh5.hpp"
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <set>

namespace sim {
// provided by mpi.cpp
int mpi_internal_dup(int comm);
void mpi_internal_free(int comm);
void mpi_internal_point(int comm, const char *kind, bool sync);
void mpi_internal_enter(const char *what);
int mpi_internal_size(int comm);

namespace {
struct Node {
  bool group = true;
  std::map<std::string, std::shared_ptr<Node>> kids, attrs;
  int type = 0; // file type
  size_t strn = 0;
  std::vector<uint64_t> dims;
  std::vector<char> data, written;
  std::map<std::string, std::set<int>> made; // creators of each child
};
struct File {
  std::shared_ptr<Node> root;
  int open = 0;
  bool rdwr = false, damaged = false;
};
struct Obj {
  char kind; // P F G D S A T
  int owner = -1;
  int cls = 0;
  int comm = 0;
  bool collective = false, rdwr = false;
  std::string name; // file name
  std::shared_ptr<Node> node;
  hid_t file = 0;
  std::vector<uint64_t> dims, off, cnt;
  bool sel = false, none = false;
  size_t strn = 0;
};
std::map<std::string, File> *fs = nullptr;
std::map<hid_t, Obj> *objs = nullptr;
hid_t next_id = 1000;
uint64_t nops_io = 0;

size_t esize(int t, size_t strn) {
  switch (t) {
  case 201: return 4;
  case 206: return 1;
  case 300: return strn;
  default: return 8;
  }
}
int tcode(hid_t t, size_t *strn) {
  *strn = 0;
  if (t >= 201 && t <= 206)
    return (int)t;
  auto it = objs->find(t);
  if (it == objs->end() || it->second.kind != 'T')
    return -1;
  *strn = it->second.strn;
  return 300;
}
bool is_f(int t) { return t == 203 || t == 205; }
void convert(char *dst, int dt, const char *src, int st, size_t strn) {
  if (dt == 300 || st == 300) {
    memcpy(dst, src, strn);
    return;
  }
  double d = 0;
  int64_t i = 0;
  if (is_f(st))
    memcpy(&d, src, 8), i = (int64_t)d;
  else {
    if (st == 201) {
      int x;
      memcpy(&x, src, 4);
      i = x;
    } else if (st == 206)
      i = *(const unsigned char *)src;
    else
      memcpy(&i, src, 8);
    d = (double)i;
  }
  if (is_f(dt))
    memcpy(dst, &d, 8);
  else if (dt == 201) {
    int x = i > INT32_MAX ? INT32_MAX : i < INT32_MIN ? INT32_MIN : (int)i;
    memcpy(dst, &x, 4);
  } else if (dt == 206) {
    *(unsigned char *)dst = i < 0 ? 0 : i > 255 ? 255 : (unsigned char)i;
  } else
    memcpy(dst, &i, 8);
}
Obj *get(hid_t h, const char *kinds) {
  auto it = objs->find(h);
  if (it == objs->end() || !strchr(kinds, it->second.kind) || it->second.owner != rank())
    return nullptr;
  return &it->second;
}
hid_t add(Obj &&o) {
  o.owner = rank();
  hid_t id = next_id++;
  objs->emplace(id, std::move(o));
  return id;
}
// common entry of every call touching storage: returns true when it must fail
bool io_op(const char *what) {
  mpi_internal_enter(what);
  nops_io++;
  if (K.io_fail && (int64_t)nops_io == K.io_fail) {
    fault(F_IO_ERROR);
    trace("I/O operation %llu (%s) fails", (unsigned long long)nops_io, what);
    return true;
  }
  return false;
}
int file_comm(hid_t f) { return (*objs)[f].comm; }
bool sel_size(const Obj &s, uint64_t *n) {
  uint64_t x = 1;
  if (s.none)
    x = 0;
  else if (s.sel)
    for (auto c : s.cnt)
      x *= c;
  else
    for (auto c : s.dims)
      x *= c;
  *n = x;
  return true;
}
// enumerate the linear element indices selected by s
void sel_list(const Obj &s, std::vector<uint64_t> &out) {
  uint64_t n;
  sel_size(s, &n);
  out.clear();
  out.reserve(n);
  if (!n)
    return;
  if (!s.sel) {
    for (uint64_t i = 0; i < n; i++)
      out.push_back(i);
    return;
  }
  const size_t nd = s.dims.size();
  std::vector<uint64_t> ix(nd, 0);
  for (uint64_t k = 0; k < n; k++) {
    uint64_t lin = 0;
    for (size_t d = 0; d < nd; d++)
      lin = lin * s.dims[d] + s.off[d] + ix[d];
    out.push_back(lin);
    for (size_t d = nd; d-- > 0;) {
      if (++ix[d] < s.cnt[d])
        break;
      ix[d] = 0;
    }
  }
}
std::shared_ptr<Node> *loc_node(hid_t loc, hid_t *file) {
  Obj *o = get(loc, "FG");
  if (!o)
    return nullptr;
  *file = o->kind == 'F' ? loc : o->file;
  if (!get(*file, "F"))
    return nullptr;
  return &o->node;
}
} // namespace

static uint64_t crash_ticks = 0;
void crash_tick() {
  if (K.crash_io && phase() == 0 && (int64_t)++crash_ticks == K.crash_io)
    crash_all();
}
void io_setup() {
  if (!fs) {
    fs = new std::map<std::string, File>();
    objs = new std::map<hid_t, Obj>();
  }
}
bool next_phase(int ph) {
  // called after an incarnation ended; volatile handles vanish
  objs->clear();
  for (auto &f : *fs)
    if (f.second.open > 0) {
      if (f.second.rdwr)
        f.second.damaged = true;
      f.second.open = 0;
      f.second.rdwr = false;
    }
  return ph == 1 && R->faults[F_CRASH] > 0;
}
bool h5_exists(const std::string &f) { CoreGuard g; return fs->count(f) > 0; }
bool h5_is_open(const std::string &f) {
  CoreGuard g;
  auto it = fs->find(f);
  return it != fs->end() && it->second.open > 0;
}
bool h5_readable(const std::string &f) {
  CoreGuard g;
  auto it = fs->find(f);
  return it != fs->end() && it->second.open == 0 && !it->second.damaged;
}
static Node *walk(const std::string &f, const std::string &path) {
  auto it = fs->find(f);
  if (it == fs->end())
    return nullptr;
  Node *n = it->second.root.get();
  size_t p = 0;
  while (p < path.size()) {
    size_t q = path.find('/', p);
    if (q == std::string::npos)
      q = path.size();
    std::string k = path.substr(p, q - p);
    p = q + 1;
    if (k.empty())
      continue;
    auto j = n->kids.find(k);
    if (j == n->kids.end())
      return nullptr;
    n = j->second.get();
  }
  return n;
}
static void export_node(Node *n, H5Data &o) {
  o.dims = n->dims;
  o.is_float = is_f(n->type);
  o.elem_bytes = (int)esize(n->type, n->strn);
  uint64_t c = 1;
  for (auto d : n->dims)
    c *= d;
  o.written.assign(n->written.begin(), n->written.end());
  o.d.clear();
  o.i.clear();
  if (n->type == 300)
    return;
  for (uint64_t k = 0; k < c; k++) {
    const char *s = n->data.data() + k * o.elem_bytes;
    if (o.is_float) {
      double x;
      convert((char *)&x, 203, s, n->type, 0);
      o.d.push_back(x);
    } else {
      int64_t x;
      convert((char *)&x, 202, s, n->type, 0);
      o.i.push_back(x);
    }
  }
}
bool h5_get(const std::string &f, const std::string &path, H5Data &out) {
  CoreGuard g;
  Node *n = walk(f, path);
  if (!n || n->group)
    return false;
  export_node(n, out);
  return true;
}
bool h5_get_attr(const std::string &f, const std::string &path, H5Data &out, std::string &str) {
  CoreGuard g;
  size_t q = path.rfind('/');
  Node *n = walk(f, q == std::string::npos ? "" : path.substr(0, q));
  if (!n)
    return false;
  auto j = n->attrs.find(q == std::string::npos ? path : path.substr(q + 1));
  if (j == n->attrs.end())
    return false;
  export_node(j->second.get(), out);
  if (j->second->type == 300)
    str.assign(j->second->data.begin(), j->second->data.end());
  return true;
}
std::vector<std::string> h5_list(const std::string &f, const std::string &grp) {
  CoreGuard g;
  std::vector<std::string> r;
  Node *n = walk(f, grp);
  if (n)
    for (auto &k : n->kids)
      r.push_back(k.first);
  return r;
}
int64_t h5_usage() {
  int64_t n = 0;
  for (auto &x : *objs)
    n += x.second.owner == rank();
  return n;
}
uint64_t h5_open_handles() { return objs->size(); }
uint64_t io_ops() { return nops_io; }
} // namespace sim

using namespace sim;
extern "C" {
hid_t H5Pcreate(hid_t cls) {
  CoreGuard g;
  Obj o{};
  o.kind = 'P';
  o.cls = (int)cls;
  return add(std::move(o));
}
static herr_t close_kind(hid_t h, const char *k) {
  CoreGuard g;
  Obj *o = get(h, k);
  if (!o)
    return -1;
  objs->erase(h);
  return 0;
}
herr_t H5Pclose(hid_t h) { return close_kind(h, "P"); }
herr_t H5Sclose(hid_t h) { return close_kind(h, "S"); }
herr_t H5Tclose(hid_t h) { return close_kind(h, "T"); }
herr_t H5Gclose(hid_t h) { return close_kind(h, "G"); }
herr_t H5Dclose(hid_t h) { return close_kind(h, "D"); }
herr_t H5Aclose(hid_t h) { return close_kind(h, "A"); }
herr_t H5Pset_fapl_mpio(hid_t h, MPI_Comm c, MPI_Info) {
  CoreGuard g;
  Obj *o = get(h, "P");
  if (!o || o->cls != 101)
    return -1;
  o->comm = c;
  return 0;
}
herr_t H5Pset_dxpl_mpio(hid_t h, H5FD_mpio_xfer_t t) {
  CoreGuard g;
  Obj *o = get(h, "P");
  if (!o || o->cls != 102)
    return -1;
  o->collective = t == H5FD_MPIO_COLLECTIVE;
  return 0;
}
static hid_t open_file(const char *name, unsigned flags, hid_t fapl, bool create) {
  std::string nm = name;
  if (io_op(create ? "H5Fcreate" : "H5Fopen"))
    return -1;
  Obj *p = get(fapl, "P");
  if (!p || !p->comm)
    violation("hdf5: file %s opened by several ranks without a communicator", name);
  const int comm = mpi_internal_dup(p->comm);
  std::string k = std::string(create ? "H5Fcreate " : "H5Fopen ") + nm + std::to_string(flags);
  mpi_internal_point(comm, k.c_str(), true);
  // first rank through performs the action
  File &f = (*fs)[nm];
  if (create) {
    if (f.open > 0 && !(f.root && f.open < mpi_internal_size(comm) && f.rdwr)) {
      violation("hdf5: H5Fcreate truncates file %s which is open", name);
    }
    if (f.open == 0) {
      f.root = std::make_shared<Node>();
      f.damaged = false;
    }
    f.rdwr = true;
  } else {
    if (!f.root) {
      if (f.open == 0)
        fs->erase(nm);
      return -1;
    }
    if (f.damaged)
      return -1;
    if (flags & H5F_ACC_RDWR)
      f.rdwr = true;
  }
  f.open++;
  Obj o{};
  o.kind = 'F';
  o.comm = comm;
  o.name = nm;
  o.rdwr = create || (flags & H5F_ACC_RDWR);
  o.node = f.root;
  hid_t id = add(std::move(o));
  mpi_internal_point(comm, "H5Fopen done", true);
  return id;
}
hid_t H5Fcreate(const char *n, unsigned fl, hid_t, hid_t fapl) {
  CoreGuard g;
  return open_file(n, fl, fapl, true);
}
hid_t H5Fopen(const char *n, unsigned fl, hid_t fapl) {
  CoreGuard g;
  return open_file(n, fl, fapl, false);
}
herr_t H5Fflush(hid_t h, int) {
  CoreGuard g;
  if (io_op("H5Fflush"))
    return -1;
  Obj *o = get(h, "FGD");
  return o ? 0 : -1;
}
herr_t H5Fclose(hid_t h) {
  CoreGuard g;
  if (io_op("H5Fclose"))
    return -1;
  Obj *o = get(h, "F");
  if (!o)
    return -1;
  // MPI-IO files use the SEMI close degree: open objects make it fail
  for (auto &x : *objs)
    if (x.second.owner == rank() && strchr("GDA", x.second.kind) && x.second.file == h)
      return -1;
  const int comm = o->comm;
  std::string nm = o->name;
  mpi_internal_point(comm, "H5Fclose", true);
  File &f = (*fs)[nm];
  f.open--;
  if (f.open == 0)
    f.rdwr = false;
  objs->erase(h);
  mpi_internal_point(comm, "H5Fclose done", chance(S_NET, 50));
  mpi_internal_free(comm);
  return 0;
}
static hid_t make_node(hid_t loc, const char *name, bool group, bool attr, int type, size_t strn, const std::vector<uint64_t> &dims, const char *what) {
  if (io_op(what))
    return -1;
  hid_t fid;
  auto *pn = loc_node(loc, &fid);
  if (!pn)
    return -1;
  auto parent = *pn;
  if (!(*objs)[fid].rdwr)
    return -1;
  std::string k = std::string(what) + " " + name + " t" + std::to_string(type);
  for (auto d : dims)
    k += "," + std::to_string(d);
  mpi_internal_point(file_comm(fid), k.c_str(), chance(S_NET, 30));
  auto &tab = attr ? parent->attrs : parent->kids;
  std::shared_ptr<Node> n;
  auto it = tab.find(name);
  // ranks create collectively: the first makes it, the others attach; a second
  // creation by the same rank is an error
  auto &who = parent->made[std::string(attr ? "@" : "") + name];
  if (it != tab.end()) {
    if (who.count(rank()) || phase() > 0)
      return -1;
    n = it->second;
  } else {
    n = std::make_shared<Node>();
    n->group = group;
    n->type = type;
    n->strn = strn;
    n->dims = dims;
    if (!group) {
      uint64_t c = 1;
      for (auto d : dims)
        c *= d;
      n->data.assign(c * esize(type, strn), 0);
      n->written.assign(c, 0);
    }
    tab[name] = n;
  }
  who.insert(rank());
  Obj o{};
  o.kind = attr ? 'A' : group ? 'G' : 'D';
  o.node = n;
  o.file = fid;
  return add(std::move(o));
}
hid_t H5Gcreate2(hid_t loc, const char *n, hid_t, hid_t, hid_t) {
  CoreGuard g;
  return make_node(loc, n, true, false, 0, 0, {}, "H5Gcreate");
}
static hid_t open_node(hid_t loc, const char *name, bool group, const char *what) {
  if (io_op(what))
    return -1;
  hid_t fid;
  auto *pn = loc_node(loc, &fid);
  if (!pn)
    return -1;
  auto it = (*pn)->kids.find(name);
  if (it == (*pn)->kids.end() || it->second->group != group)
    return -1;
  Obj o{};
  o.kind = group ? 'G' : 'D';
  o.node = it->second;
  o.file = fid;
  return add(std::move(o));
}
hid_t H5Gopen2(hid_t loc, const char *n, hid_t) {
  CoreGuard g;
  return open_node(loc, n, true, "H5Gopen");
}
int H5Lexists(hid_t loc, const char *n, hid_t) {
  CoreGuard g;
  hid_t fid;
  auto *pn = loc_node(loc, &fid);
  if (!pn)
    return -1;
  return (*pn)->kids.count(n) > 0;
}
hid_t H5Dcreate2(hid_t loc, const char *n, hid_t t, hid_t sp, hid_t, hid_t, hid_t) {
  CoreGuard g;
  size_t strn;
  int tc = tcode(t, &strn);
  Obj *s = get(sp, "S");
  if (tc < 0 || !s)
    return -1;
  return make_node(loc, n, false, false, tc, strn, s->dims, "H5Dcreate");
}
hid_t H5Acreate2(hid_t loc, const char *n, hid_t t, hid_t sp, hid_t, hid_t) {
  CoreGuard g;
  size_t strn;
  int tc = tcode(t, &strn);
  Obj *s = get(sp, "S");
  if (tc < 0 || !s)
    return -1;
  return make_node(loc, n, false, true, tc, strn, s->dims, "H5Acreate");
}
hid_t H5Dopen2(hid_t loc, const char *n, hid_t) {
  CoreGuard g;
  return open_node(loc, n, false, "H5Dopen");
}
hid_t H5Dget_space(hid_t d) {
  CoreGuard g;
  Obj *o = get(d, "D");
  if (!o)
    return -1;
  Obj s{};
  s.kind = 'S';
  s.dims = o->node->dims;
  return add(std::move(s));
}
static herr_t xfer(hid_t d, hid_t mt, hid_t ms, hid_t fsp, hid_t dxpl, void *rbuf, const void *wbuf) {
  if (io_op(wbuf || !rbuf ? "H5Dwrite" : "H5Dread"))
    return -1;
  Obj *o = get(d, "D");
  size_t strn;
  const int mtc = tcode(mt, &strn);
  if (!o || mtc < 0)
    return -1;
  const bool wr = rbuf == nullptr;
  auto node = o->node;
  const hid_t fid = o->file;
  if (!get(fid, "F"))
    return -1;
  if (wr && !(*objs)[fid].rdwr)
    return -1;
  bool coll = false;
  if (dxpl != H5P_DEFAULT) {
    Obj *p = get(dxpl, "P");
    if (!p || p->cls != 102)
      return -1;
    coll = p->collective;
  }
  Obj fdef{}, mdef{};
  fdef.kind = mdef.kind = 'S';
  fdef.dims = node->dims;
  Obj *f = &fdef, *m = &mdef;
  if (fsp != H5S_ALL && !(f = get(fsp, "S")))
    return -1;
  if (ms == H5S_ALL)
    m = f;
  else if (!(m = get(ms, "S")))
    return -1;
  if (f->dims != node->dims)
    return -1;
  std::vector<uint64_t> fi, mi;
  sel_list(*f, fi);
  sel_list(*m, mi);
  if (fi.size() != mi.size())
    return -1;
  uint64_t tot = 1;
  for (auto x : node->dims)
    tot *= x;
  for (auto x : fi)
    if (x >= tot)
      return -1;
  const size_t fe = esize(node->type, node->strn), me = esize(mtc, strn);
  uint64_t mmax = 0;
  for (auto x : mi)
    mmax = std::max(mmax, x + 1);
  if (mmax)
    check_range(wr ? wbuf : rbuf, mmax * me, !wr, true, wr ? "H5Dwrite buffer" : "H5Dread buffer");
  if (coll) {
    std::string k = std::string(wr ? "H5Dwrite " : "H5Dread ") + std::to_string((uintptr_t)0);
    mpi_internal_point(file_comm(fid), k.c_str(), chance(S_NET, 30));
  }
  size_t lim = fi.size();
  bool shrt = false;
  if (wr && K.io_short && fi.size() > 1 && (int64_t)nops_io >= K.io_short && !R->faults[F_IO_SHORT]) {
    lim = fi.size() / 2;
    shrt = true;
    fault(F_IO_SHORT);
    trace("short write");
  }
  for (size_t k = 0; k < lim; k++) {
    if (wr) {
      if (node->written[fi[k]] == 1 && !coll)
        ;
      convert(node->data.data() + fi[k] * fe, node->type, (const char *)wbuf + mi[k] * me, mtc, node->strn);
      node->written[fi[k]]++;
    } else
      convert((char *)rbuf + mi[k] * me, mtc, node->data.data() + fi[k] * fe, node->type, node->strn);
  }
  return shrt ? -1 : 0;
}
herr_t H5Dwrite(hid_t d, hid_t mt, hid_t ms, hid_t f, hid_t x, const void *b) {
  CoreGuard g;
  return xfer(d, mt, ms, f, x, nullptr, b);
}
herr_t H5Dread(hid_t d, hid_t mt, hid_t ms, hid_t f, hid_t x, void *b) {
  CoreGuard g;
  static char dummy;
  return xfer(d, mt, ms, f, x, b ? b : &dummy, nullptr);
}
hid_t H5Screate(H5S_class_t) {
  CoreGuard g;
  Obj o{};
  o.kind = 'S';
  return add(std::move(o));
}
hid_t H5Screate_simple(int n, const hsize_t *d, const hsize_t *mx) {
  CoreGuard g;
  Obj o{};
  o.kind = 'S';
  for (int i = 0; i < n; i++) {
    o.dims.push_back(d[i]);
    if (mx && mx[i] < d[i])
      return -1;
  }
  return add(std::move(o));
}
herr_t H5Sselect_hyperslab(hid_t h, H5S_seloper_t, const hsize_t *off, const hsize_t *st, const hsize_t *cnt, const hsize_t *bl) {
  CoreGuard g;
  Obj *o = get(h, "S");
  if (!o || st || bl)
    return -1;
  o->sel = true;
  o->none = false;
  o->off.assign(off, off + o->dims.size());
  o->cnt.assign(cnt, cnt + o->dims.size());
  return 0;
}
herr_t H5Sselect_none(hid_t h) {
  CoreGuard g;
  Obj *o = get(h, "S");
  if (!o)
    return -1;
  o->none = true;
  return 0;
}
herr_t H5Sselect_all(hid_t h) {
  CoreGuard g;
  Obj *o = get(h, "S");
  if (!o)
    return -1;
  o->none = o->sel = false;
  return 0;
}
int H5Sget_simple_extent_ndims(hid_t h) {
  CoreGuard g;
  Obj *o = get(h, "S");
  return o ? (int)o->dims.size() : -1;
}
int H5Sget_simple_extent_dims(hid_t h, hsize_t *d, hsize_t *m) {
  CoreGuard g;
  Obj *o = get(h, "S");
  if (!o)
    return -1;
  for (size_t i = 0; i < o->dims.size(); i++) {
    if (d)
      d[i] = o->dims[i];
    if (m)
      m[i] = o->dims[i];
  }
  return (int)o->dims.size();
}
herr_t H5Awrite(hid_t a, hid_t mt, const void *b) {
  CoreGuard g;
  if (io_op("H5Awrite"))
    return -1;
  Obj *o = get(a, "A");
  size_t strn;
  const int mtc = tcode(mt, &strn);
  if (!o || mtc < 0)
    return -1;
  Node &n = *o->node;
  uint64_t c = 1;
  for (auto d : n.dims)
    c *= d;
  const size_t fe = esize(n.type, n.strn), me = esize(mtc, strn);
  check_range(b, c * me, false, true, "H5Awrite buffer");
  for (uint64_t k = 0; k < c; k++) {
    convert(n.data.data() + k * fe, n.type, (const char *)b + k * me, mtc, n.strn);
    n.written[k] = 1;
  }
  return 0;
}
hid_t H5Tcreate(H5T_class_t, size_t n) {
  CoreGuard g;
  Obj o{};
  o.kind = 'T';
  o.strn = n;
  return add(std::move(o));
}
}
