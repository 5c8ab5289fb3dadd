// P20: device containers and the parallel primitives give the same answer as a
// sequential reference under every device schedule.
#include "store.hpp"
#include <optional>
using namespace wl;
namespace simwl {
const char *property_id = SIM_PROPERTY;
enum OpK { BDEV, BHOST, BSHARED, BDH, SCAN, SCANB, SCANN, SCANM, INCL, SUMS, TRANSP, RED, TREE, LOOKUP, STACK, A2A, CELLDAT, CELLCONST, ERRP, OK_N };
static const char *kn[] = {"device buffer", "host buffer", "shared buffer", "paired buffer", "scan", "blocked scan", "segmented scan", "strided scan",
                           "inclusive scan", "segment totals", "transpose", "reduce values", "binary tree", "lookup table", "resource pool",
                           "all to all", "cell data", "constant cell data", "error flag"};
static const int wt[OK_N] = {10, 4, 4, 8, 6, 8, 7, 5, 5, 5, 8, 6, 12, 8, 6, 7, 12, 8, 3};
struct Op {
  int k;
  u64 salt;
};
static std::vector<Op> ops;
void choose_knobs() {
  if (sim::K.nranks > 2)
    sim::K.nranks = 1 + (i64)sim::rnd_below(sim::S_CFG, 2);
}
void plan() {
  seed_plan();
  Rng r = rng(1);
  int tot = 0;
  for (int k = 0; k < OK_N; k++)
    tot += wt[k];
  ops.clear();
  int n = (int)r.range(8, 40);
  for (int i = 0; i < n; i++) {
    int x = (int)r.below(tot), k = 0;
    while (k < OK_N - 1 && x >= wt[k])
      x -= wt[k], k++;
    ops.push_back({k, r.next()});
  }
}
static i64 size_of(Rng &g) {
  int k = (int)g.below(6);
  return k == 0 ? g.range(1, 3) : k == 1 ? g.range(60, 300) : g.range(1, 60);
}
template <class T> static T value(Rng &g) { return (T)g.range(-40, 60); }
template <class T> static std::vector<T> values(Rng &g, i64 n) {
  std::vector<T> v((size_t)n);
  for (auto &x : v)
    x = value<T>(g);
  return v;
}
template <class T> static bool same(T a, T b) { return a == b; }
#define NEED(c, ...)                                                                                                   \
  do {                                                                                                                 \
    if (!(c))                                                                                                          \
      sim::violation(__VA_ARGS__);                                                                                     \
  } while (0)
template <class T> static void expect(const std::vector<T> &got, const std::vector<T> &ref, const char *what) {
  NEED(got.size() == ref.size(), "%s: %zu values, expected %zu", what, got.size(), ref.size());
  for (size_t i = 0; i < ref.size(); i++)
    NEED(got[i] == ref[i], "%s: entry %zu of %zu is %g, expected %g", what, i, ref.size(), (double)got[i], (double)ref[i]);
}

// ------------------------------------------------------------- buffers -------
template <class B, class T> struct BufModel {
  std::unique_ptr<B> b;
  std::vector<std::optional<T>> m;
  const char *name = "";
  SYCLTargetSharedPtr t;
  void init(SYCLTargetSharedPtr tt, const char *nm, Rng &g) {
    t = tt;
    name = nm;
    auto v = values<T>(g, size_of(g));
    if (g.pct(50)) {
      b = std::make_unique<B>(t, v);
      m.assign(v.begin(), v.end());
    } else if (g.pct(50)) {
      b = std::make_unique<B>(t, v.size());
      m.assign(v.size(), {});
    } else {
      b = std::make_unique<B>(t, v, (size_t)64);
      m.assign(v.begin(), v.end());
      NEED(((size_t)b->ptr) % 64 == 0, "%s: requested alignment not met", name);
    }
  }
  void check() {
    NEED(b->size == m.size(), "%s: size %zu, expected %zu", name, (size_t)b->size, m.size());
    NEED(b->size_bytes() == m.size() * sizeof(T), "%s: wrong byte count", name);
    auto v = b->get();
    NEED(v.size() == m.size(), "%s: read back %zu values, expected %zu", name, v.size(), m.size());
    for (size_t i = 0; i < m.size(); i++)
      NEED(!m[i] || *m[i] == v[i], "%s: entry %zu of %zu reads %g, stored %g", name, i, m.size(), (double)v[i], (double)*m[i]);
  }
  void resize(Rng &g, bool keep) {
    size_t n = (size_t)(g.pct(8) ? 0 : size_of(g));
    std::optional<REAL> f;
    if (g.pct(60))
      f = g.pct(30) ? 1.0 : 1.0 + g.unit() * 2;
    size_t old = b->size;
    int ret = keep ? b->realloc(n, f) : b->realloc_no_copy(n, f);
    NEED((size_t)ret == b->size, "%s: resize reports %d elements but the size is %zu", name, ret, (size_t)b->size);
    NEED(b->size >= n, "%s: resize to %zu left %zu elements", name, n, (size_t)b->size);
    if (n && f)
      NEED((double)b->size <= std::max((double)n, std::max(1.0, *f * (double)n)) + 1, "%s: resize to %zu with factor %g left %zu elements", name, n, *f,
           (size_t)b->size);
    if (keep) {
      m.resize(b->size);
    } else if (b->size != old) {
      m.assign(b->size, {});
    } else if (n) {
      // the library may or may not have replaced the buffer
      if (n > old || f)
        m.assign(b->size, {});
    }
  }
  void step(Rng &g) {
    int k = (int)g.below(6);
    if (k == 0) { // set the start
      auto v = values<T>(g, g.range(0, (i64)b->size));
      if (g.pct(50))
        b->set(v);
      else
        b->set_async(v).wait_and_throw();
      for (size_t i = 0; i < v.size(); i++)
        m[i] = v[i];
    } else if (k == 1 || k == 2) {
      resize(g, true);
    } else if (k == 3) {
      resize(g, false);
    } else if (k == 4) { // kernel writes
      auto p = b->ptr;
      const size_t n = b->size;
      const int s = (int)g.range(1, 9);
      t->queue.parallel_for(sycl::range<1>(n), [=](sycl::id<1> ix) { p[ix] = (T)((int)ix * s); }).wait_and_throw();
      for (size_t i = 0; i < n; i++)
        m[i] = (T)((int)i * s);
    } else {
      std::vector<T> v(b->size);
      b->get_async(v).wait_and_throw();
      for (size_t i = 0; i < m.size(); i++)
        NEED(!m[i] || *m[i] == v[i], "%s: entry %zu of %zu reads %g, stored %g", name, i, m.size(), (double)v[i], (double)*m[i]);
    }
    check();
  }
};
template <class T> struct PairModel {
  std::unique_ptr<BufferDeviceHost<T>> b;
  std::vector<std::optional<T>> d, h;
  SYCLTargetSharedPtr t;
  void init(SYCLTargetSharedPtr tt, Rng &g) {
    t = tt;
    auto v = values<T>(g, size_of(g));
    b = std::make_unique<BufferDeviceHost<T>>(t, v);
    d.assign(v.begin(), v.end());
    h = d;
  }
  void step(Rng &g) {
    int k = (int)g.below(5);
    size_t n = (size_t)g.range(0, (i64)b->size);
    bool all = g.pct(40);
    if (k == 0) {
      for (size_t i = 0; i < n; i++)
        h[i] = b->h_buffer.ptr[i] = value<T>(g);
    } else if (k == 1) {
      if (all && b->size && g.pct(50))
        b->async_host_to_device().wait_and_throw();
      else if (all)
        b->host_to_device();
      else
        b->host_to_device(n);
      if (all)
        n = b->size;
      std::copy(h.begin(), h.begin() + n, d.begin());
    } else if (k == 2) {
      if (all && b->size && g.pct(50))
        b->async_device_to_host().wait_and_throw();
      else if (all)
        b->device_to_host();
      else
        b->device_to_host(n);
      if (all)
        n = b->size;
      std::copy(d.begin(), d.begin() + n, h.begin());
    } else if (k == 3) {
      auto p = b->d_buffer.ptr;
      T s = value<T>(g);
      if (n)
        t->queue.parallel_for(sycl::range<1>(n), [=](sycl::id<1> ix) { p[ix] = s + (T)(int)ix; }).wait_and_throw();
      for (size_t i = 0; i < n; i++)
        d[i] = s + (T)(int)i;
    } else {
      size_t want = (size_t)size_of(g);
      b->realloc_no_copy(want);
      NEED(b->size >= want && b->d_buffer.size >= b->size && b->h_buffer.size >= b->size, "paired buffer: resize to %zu left %zu, %zu, %zu", want,
           (size_t)b->size, (size_t)b->d_buffer.size, (size_t)b->h_buffer.size);
      d.assign(b->size, {});
      h.assign(b->size, {});
    }
    auto v = b->d_buffer.get();
    for (size_t i = 0; i < d.size(); i++) {
      NEED(!d[i] || *d[i] == v[i], "paired buffer: device entry %zu is %g, expected %g", i, (double)v[i], (double)*d[i]);
      NEED(!h[i] || *h[i] == b->h_buffer.ptr[i], "paired buffer: host entry %zu is %g, expected %g", i, (double)b->h_buffer.ptr[i], (double)*h[i]);
    }
  }
};

// ------------------------------------------------------------ primitives -----
template <class T> static void scan(SYCLTargetSharedPtr t, Rng &g, bool blocked) {
  const i64 n = g.pct(5) ? 0 : size_of(g);
  auto v = values<T>(g, n + 2);
  std::vector<T> out(v.size(), (T)77), ref = out;
  T s = 0;
  for (i64 i = 0; i < n; i++)
    ref[i] = s, s += v[i];
  BufferDevice<T> a(t, v), b(t, out);
  if (!blocked) {
    joint_exclusive_scan(t, (size_t)n, a.ptr, b.ptr).wait_and_throw();
  } else if (g.pct(50)) {
    joint_exclusive_scan_blocking(t, (size_t)n, a.ptr, b.ptr);
  } else {
    BufferDevice<T> aux(t, std::max((size_t)1, get_joint_exclusive_scan_aux_array_size(t, (size_t)n)));
    joint_exclusive_scan(t, (size_t)n, aux.ptr, a.ptr, b.ptr).wait_and_throw();
  }
  expect(b.get(), ref, "exclusive scan");
  expect(a.get(), v, "input of an exclusive scan");
}
// segments with gaps in an array
template <class T> struct Segs {
  std::vector<T> n, off, v;
  Segs(Rng &g) {
    const int k = (int)g.range(0, 12);
    T at = 0;
    for (int i = 0; i < k; i++) {
      at += (T)(g.pct(30) ? g.range(1, 3) : 0);
      T c = (T)(g.pct(25) ? 0 : g.pct(20) ? g.range(20, 90) : g.range(1, 20));
      n.push_back(c);
      off.push_back(at);
      at += c;
    }
    v = values<T>(g, (i64)at + 1);
  }
};
template <class T> static void segs(SYCLTargetSharedPtr t, Rng &g, int k) {
  Segs<T> s(g);
  const size_t N = s.n.size();
  std::vector<T> out(s.v.size(), (T)77), ref = out, tot(N + 1, (T)77), rtot = tot;
  for (size_t i = 0; i < N; i++) {
    T a = 0;
    for (T j = 0; j < s.n[i]; j++) {
      if (k == INCL)
        a += s.v[s.off[i] + j], ref[s.off[i] + j] = a;
      else
        ref[s.off[i] + j] = a, a += s.v[s.off[i] + j];
    }
    rtot[i] = a;
  }
  BufferDevice<T> a(t, s.v), b(t, out), dt(t, tot);
  BufferDevice<T> dn(t, N ? s.n : std::vector<T>(1)), doff(t, N ? s.off : std::vector<T>(1));
  if (k == INCL) {
    joint_inclusive_scan_n(t, N, dn.ptr, doff.ptr, a.ptr, b.ptr).wait_and_throw();
  } else if (k == SCANN) {
    joint_exclusive_scan_n(t, N, dn.ptr, doff.ptr, a.ptr, b.ptr).wait_and_throw();
  } else {
    joint_exclusive_scan_n_sum(t, N, dn.ptr, doff.ptr, a.ptr, b.ptr, dt.ptr).wait_and_throw();
    expect(dt.get(), rtot, "segment totals");
  }
  expect(b.get(), ref, k == INCL ? "segmented inclusive scan" : "segmented exclusive scan");
  expect(a.get(), s.v, "input of a segmented scan");
}
template <class T> static void strided(SYCLTargetSharedPtr t, Rng &g) {
  const i64 N = g.range(0, 8), M = g.pct(10) ? 0 : g.pct(20) ? g.range(30, 90) : g.range(1, 20);
  auto v = values<T>(g, N * M + 1);
  std::vector<T> out(v.size(), (T)77), ref = out;
  for (i64 i = 0; i < N; i++) {
    T a = 0;
    for (i64 j = 0; j < M; j++)
      ref[i * M + j] = a, a += v[i * M + j];
  }
  BufferDevice<T> a(t, v), b(t, out);
  joint_exclusive_scan_n(t, (size_t)N, (size_t)M, a.ptr, b.ptr).wait_and_throw();
  expect(b.get(), ref, "strided exclusive scan");
}
template <class T> static void transpose(SYCLTargetSharedPtr t, Rng &g) {
  auto dim = [&]() { return g.pct(20) ? 1 : g.pct(15) ? g.range(20, 60) : g.range(1, 12); };
  const i64 R = dim(), C = dim();
  auto v = values<T>(g, R * C + 1);
  std::vector<T> out(v.size(), (T)77), ref = out;
  for (i64 i = 0; i < R; i++)
    for (i64 j = 0; j < C; j++)
      ref[j * R + i] = v[i * C + j];
  BufferDevice<T> a(t, v), b(t, out);
  matrix_transpose(t, (size_t)R, (size_t)C, (const T *)a.ptr, b.ptr).wait_and_throw();
  char buf[64];
  snprintf(buf, sizeof buf, "transpose of %d x %d", (int)R, (int)C);
  expect(b.get(), ref, buf);
}
template <class T> static void reduce(SYCLTargetSharedPtr t, Rng &g) {
  auto v = values<T>(g, size_of(g));
  BufferDevice<T> a(t, v), o(t, std::vector<T>{(T)77, (T)78});
  int k = (int)g.below(3);
  T ref = v[0];
  for (size_t i = 1; i < v.size(); i++)
    ref = k == 0 ? ref + v[i] : k == 1 ? std::min(ref, v[i]) : std::max(ref, v[i]);
  if (k == 0)
    reduce_values(t, v.size(), a.ptr, sycl::plus<T>(), o.ptr).wait_and_throw();
  else if (k == 1)
    reduce_values(t, v.size(), a.ptr, sycl::minimum<T>(), o.ptr).wait_and_throw();
  else
    reduce_values(t, v.size(), a.ptr, sycl::maximum<T>(), o.ptr).wait_and_throw();
  auto r = o.get();
  NEED(r[0] == ref && r[1] == (T)78, "reduction of %zu values gave %g, expected %g", v.size(), (double)r[0], (double)ref);
}

// ---------------------------------------------------------------- maps -------
template <int W> struct TreeModel {
  std::unique_ptr<BlockedBinaryTree<INT, INT, W>> tree;
  std::map<i64, i64> m;
  SYCLTargetSharedPtr t;
  i64 span = 0;
  void init(SYCLTargetSharedPtr tt, Rng &g) {
    t = tt;
    tree = std::make_unique<BlockedBinaryTree<INT, INT, W>>(t);
    span = g.pct(30) ? 1000000 : 4 * W;
  }
  i64 key(Rng &g) {
    if (!m.empty() && g.pct(40)) { // near an existing key
      auto it = m.begin();
      std::advance(it, g.below((i64)m.size()));
      return it->first + g.range(-1, 1);
    }
    return g.range(-span, span);
  }
  void step(Rng &g) {
    int n = (int)g.range(0, 10);
    for (int i = 0; i < n; i++) {
      i64 k = key(g), v = g.range(-9, 999);
      tree->add(k, v);
      m[k] = v;
    }
    for (int i = 0; i < 4; i++) {
      i64 k = key(g);
      INT v = 12345;
      bool f = tree->host_get(k, &v);
      NEED(f == (m.count(k) > 0) && (!f || v == m[k]), "binary tree: key %ld reads %d %ld, stored %d %ld", (long)k, (int)f, (long)v, (int)m.count(k),
           m.count(k) ? (long)m[k] : 0L);
    }
    if (tree->root == nullptr)
      return;
    std::vector<INT> ks;
    for (auto &e : m)
      for (int d = -1; d <= 1; d++)
        ks.push_back(e.first + d);
    ks.push_back(-span * 2);
    ks.push_back(span * 2);
    BufferDevice<INT> dk(t, ks), dv(t, std::vector<INT>(ks.size(), -777)), df(t, ks.size());
    auto root = tree->root;
    auto pk = dk.ptr, pv = dv.ptr, pf = df.ptr;
    const bool alt = g.pct(50);
    t->queue
        .parallel_for(sycl::range<1>(ks.size()),
                      [=](sycl::id<1> ix) {
                        if (alt) {
                          INT const *p = nullptr;
                          pf[ix] = root->get(pk[ix], &p);
                          if (pf[ix])
                            pv[ix] = *p;
                        } else
                          pf[ix] = root->get(pk[ix], &pv[ix]);
                      })
        .wait_and_throw();
    auto v = dv.get(), f = df.get();
    for (size_t i = 0; i < ks.size(); i++) {
      bool has = m.count(ks[i]) > 0;
      NEED((f[i] != 0) == has && v[i] == (has ? m[ks[i]] : -777), "binary tree on device: key %ld reads %ld %ld, stored %d %ld", (long)ks[i], (long)f[i],
           (long)v[i], (int)has, has ? (long)m[ks[i]] : 0L);
    }
  }
};
struct TableModel {
  std::unique_ptr<LookupTable<int, REAL>> tab;
  std::map<int, double> m;
  SYCLTargetSharedPtr t;
  int n = 0;
  void init(SYCLTargetSharedPtr tt, Rng &g) {
    t = tt;
    n = (int)g.range(1, 40);
    tab = std::make_unique<LookupTable<int, REAL>>(t, n);
  }
  void step(Rng &g) {
    for (int i = (int)g.range(0, 6); i > 0; i--) {
      int k = (int)g.below(n);
      double v = (double)g.range(-50, 50) / 4;
      tab->add(k, v);
      m[k] = v;
    }
    std::vector<int> ks;
    for (int k = -2; k < n + 3; k++) {
      ks.push_back(k);
      REAL v = 0;
      bool f = tab->host_get(k, &v);
      NEED(f == (m.count(k) > 0) && (!f || v == m[k]), "lookup table: key %d reads %d %g, stored %d", k, (int)f, v, (int)m.count(k));
    }
    BufferDevice<int> dk(t, ks), df(t, ks.size());
    BufferDevice<REAL> dv(t, std::vector<REAL>(ks.size(), -777.0));
    auto root = tab->root;
    auto pk = dk.ptr, pf = df.ptr;
    auto pv = dv.ptr;
    t->queue.parallel_for(sycl::range<1>(ks.size()), [=](sycl::id<1> ix) { pf[ix] = root->get(pk[ix], &pv[ix]); }).wait_and_throw();
    auto v = dv.get();
    auto f = df.get();
    for (size_t i = 0; i < ks.size(); i++) {
      bool has = m.count(ks[i]) > 0;
      NEED((f[i] != 0) == has && v[i] == (has ? m[ks[i]] : -777.0), "lookup table on device: key %d reads %d %g, stored %d", ks[i], f[i], v[i], (int)has);
    }
  }
};
struct Thing {
  int id, user = 0, dirty = 0;
};
struct ThingPool : ResourceStackInterface<Thing> {
  int made = 0, freed = 0, cleaned = 0;
  std::set<int> alive;
  virtual std::shared_ptr<Thing> construct() override {
    alive.insert(made);
    auto p = std::make_shared<Thing>();
    p->id = made++;
    return p;
  }
  virtual void free(std::shared_ptr<Thing> &p) override {
    NEED(p && alive.erase(p->id) == 1, "resource pool: an object was released twice");
    freed++;
  }
  virtual void clean(std::shared_ptr<Thing> &p) override {
    p->dirty = 0;
    cleaned++;
  }
};
static void pool(Rng &g) {
  auto I = std::make_shared<ThingPool>();
  int peak = 0, restored = 0;
  {
    ResourceStack<Thing> st(I);
    std::vector<std::shared_ptr<Thing>> held;
    int n = (int)g.range(1, 30);
    for (int i = 0; i < n; i++) {
      if (held.empty() || g.pct(55)) {
        auto p = st.get();
        NEED(p && p->user == 0 && p->dirty == 0, "resource pool: handed out an object that is in use or was not cleaned");
        p->user = 1;
        p->dirty = i + 1;
        held.push_back(p);
        peak = std::max(peak, (int)held.size());
      } else {
        size_t j = (size_t)g.below((i64)held.size());
        auto p = held[j];
        held.erase(held.begin() + j);
        p->user = 0;
        st.restore(p);
        NEED(p == nullptr, "resource pool: the caller keeps a reference");
        restored++;
      }
    }
    NEED(I->made == peak, "resource pool: %d objects made for a peak use of %d", I->made, peak);
    while (!held.empty()) {
      auto p = held.back();
      held.pop_back();
      p->user = 0;
      st.restore(p);
      restored++;
    }
    NEED(I->cleaned == restored, "resource pool: %d objects cleaned, %d returned", I->cleaned, restored);
    if (g.pct(50)) {
      st.free();
      NEED(I->alive.empty(), "resource pool: %zu objects left after free", I->alive.size());
    }
  }
  NEED(I->alive.empty() && I->freed == I->made, "resource pool: %d objects made, %d released", I->made, I->freed);
}
// the library's pools of buffers
static void pool_buffers(SYCLTargetSharedPtr t, Rng &g) {
  std::vector<std::shared_ptr<BufferDevice<INT>>> held;
  std::vector<std::vector<INT>> ref;
  for (int i = (int)g.range(1, 8); i > 0; i--) {
    auto b = get_resource<BufferDevice<INT>, ResourceStackInterfaceBufferDevice<INT>>(t->resource_stack_map, ResourceStackKeyBufferDevice<INT>{}, t);
    b->realloc_no_copy((size_t)size_of(g));
    auto v = values<INT>(g, (i64)b->size);
    b->set(v);
    held.push_back(std::move(b));
    ref.push_back(v);
    if (g.pct(30)) {
      restore_resource(t->resource_stack_map, ResourceStackKeyBufferDevice<INT>{}, held.back());
      held.pop_back();
      ref.pop_back();
    }
  }
  for (size_t i = 0; i < held.size(); i++)
    expect(held[i]->get(), ref[i], "buffer from the pool");
  for (auto &b : held)
    restore_resource(t->resource_stack_map, ResourceStackKeyBufferDevice<INT>{}, b);
}
// every unordered pair once
static void all_to_all(SYCLTargetSharedPtr t, Rng &g) {
  const int lw = 1 << g.range(0, 4);
  const int n = (int)(g.pct(15) ? g.range(30, 60) : g.range(0, 24));
  BufferDevice<INT> cnt(t, std::vector<INT>((size_t)(n * n + 1), 0));
  auto pc = cnt.ptr;
  t->queue
      .parallel_for(sycl::nd_range<1>(sycl::range<1>(lw), sycl::range<1>(lw)),
                    [=](sycl::nd_item<1> idx) {
                      DSMC::CellwiseAllToAll ctx((int)idx.get_local_range(0), (int)idx.get_local_id(0));
                      ctx.apply(
                          n,
                          [&](auto i, auto j) {
                            sycl::atomic_ref<INT, sycl::memory_order::relaxed, sycl::memory_scope::device> c(pc[i * n + j]);
                            c.fetch_add(1);
                          },
                          [=]() { sycl::group_barrier(idx.get_group()); });
                    })
      .wait_and_throw();
  auto c = cnt.get();
  for (int i = 0; i < n; i++)
    for (int j = i; j < n; j++) {
      INT s = i == j ? c[i * n + j] : c[i * n + j] + c[j * n + i];
      NEED(s == (i == j ? 0 : 1), "all to all over %d entries with %d workers: pair (%d,%d) visited %ld times", n, lw, i, j, (long)s);
    }
}

// ------------------------------------------------------------ cell data ------
template <class T> struct CellModel {
  std::unique_ptr<CellDat<T>> c;
  std::vector<std::vector<std::vector<std::optional<T>>>> m; // cell, col, row
  SYCLTargetSharedPtr t;
  int nc = 0, ncol = 0;
  void init(SYCLTargetSharedPtr tt, Rng &g) {
    t = tt;
    nc = (int)g.range(1, 6);
    ncol = (int)g.range(1, 4);
    c = std::make_unique<CellDat<T>>(t, nc, ncol);
    m.assign(nc, std::vector<std::vector<std::optional<T>>>(ncol));
  }
  void check() {
    int mx = 0, mn = 1 << 30;
    for (int i = 0; i < nc; i++) {
      const int nr = (int)m[i][0].size();
      mx = std::max(mx, nr);
      mn = std::min(mn, nr);
      NEED(c->nrow[i] == nr, "cell data: cell %d has %ld rows, expected %d", i, (long)c->nrow[i], nr);
      auto d = c->get_cell(i);
      if ((i + nr) % 3 == 0) { // the other way to read a cell, into something large enough
        d = std::make_shared<CellDataT<T>>(t, nr + i % 2, ncol + i % 3);
        EventStack es;
        c->get_cell_async(i, *d, es);
        es.wait();
      }
      for (int j = 0; j < ncol; j++)
        for (int k = 0; k < nr; k++)
          NEED(!m[i][j][k] || *m[i][j][k] == d->at(k, j), "cell data: cell %d row %d of %d column %d reads %g, stored %g", i, k, nr, j, (double)d->at(k, j),
               (double)*m[i][j][k]);
    }
    NEED(c->get_nrow_max() == mx && c->get_nrow_min() == mn, "cell data: row bounds %d %d, expected %d %d", c->get_nrow_min(), c->get_nrow_max(), mn, mx);
  }
  void step(Rng &g) {
    int k = (int)g.below(6), i = (int)g.below(nc);
    int nr = (int)m[i][0].size();
    if (k <= 1) { // resize some cells
      for (int q = 0; q < nc; q++)
        if (g.pct(50)) {
          int n = (int)(g.pct(15) ? 0 : g.pct(15) ? g.range(20, 80) : g.range(0, 14));
          c->set_nrow(q, n);
          for (auto &col : m[q])
            col.resize(n);
        }
      c->wait_set_nrow();
    } else if (k == 2) {
      auto d = std::make_shared<CellDataT<T>>(t, nr, ncol);
      for (int j = 0; j < ncol; j++)
        for (int r = 0; r < nr; r++) {
          T v = value<T>(g);
          d->at(r, j) = v;
          m[i][j][r] = v;
        }
      if (g.pct(50)) {
        c->set_cell(i, d);
      } else {
        EventStack es;
        c->set_cell_async(i, *d, es);
        es.wait();
      }
    } else if (k == 3 && nr) {
      int r = (int)g.below(nr), j = (int)g.below(ncol);
      T v = value<T>(g);
      c->set_value(i, r, j, v);
      m[i][j][r] = v;
      NEED(c->get_value(i, r, j) == v, "cell data: value read back differs");
    } else if (k == 4) { // kernel over all the rows
      auto p = c->device_ptr();
      const int n = (int)g.range(1, 5);
      for (int q = 0; q < nc; q++) {
        const size_t rows = m[q][0].size();
        if (!rows)
          continue;
        const int kc = ncol;
        t->queue
            .parallel_for(sycl::range<1>(rows),
                          [=](sycl::id<1> ix) {
                            for (int j = 0; j < kc; j++)
                              p[q][j][ix] = (T)((int)ix * n + j * 100 + q);
                          })
            .wait_and_throw();
        for (size_t r = 0; r < rows; r++)
          for (int j = 0; j < kc; j++)
            m[q][j][r] = (T)((int)r * n + j * 100 + q);
      }
    } else if (k == 5) {
      std::vector<int> n(nc);
      for (int q = 0; q < nc; q++) {
        n[q] = (int)g.range(0, (i64)m[q][0].size());
        for (auto &col : m[q])
          col.resize(n[q]);
      }
      c->reduce_nrow(n.data());
    }
    check();
  }
};
template <class T> struct ConstModel {
  std::unique_ptr<CellDatConst<T>> c;
  std::vector<T> m;
  SYCLTargetSharedPtr t;
  int nc = 0, nr = 0, ncol = 0;
  T &at(int i, int r, int j) { return m[(size_t)((i * ncol + j) * nr + r)]; }
  void init(SYCLTargetSharedPtr tt, Rng &g) {
    t = tt;
    nc = (int)g.range(1, 8);
    nr = (int)g.range(1, 4);
    ncol = (int)g.range(1, 4);
    c = std::make_unique<CellDatConst<T>>(t, nc, nr, ncol);
    m.assign((size_t)(nc * nr * ncol), (T)0);
  }
  void step(Rng &g) {
    int k = (int)g.below(5), i = (int)g.below(nc), r = (int)g.below(nr), j = (int)g.below(ncol);
    auto fill_cell = [&](CellData<T> d, int cell) {
      for (int a = 0; a < nr; a++)
        for (int b = 0; b < ncol; b++)
          d->at(a, b) = at(cell, a, b) = value<T>(g);
    };
    if (k == 0) {
      T v = value<T>(g);
      c->fill(v);
      std::fill(m.begin(), m.end(), v);
    } else if (k == 1) {
      auto d = std::make_shared<CellDataT<T>>(t, nr, ncol);
      fill_cell(d, i);
      c->set_cell(i, d);
    } else if (k == 2) {
      std::vector<CellData<T>> all;
      for (int q = 0; q < nc; q++) {
        all.push_back(std::make_shared<CellDataT<T>>(t, nr, ncol));
        fill_cell(all.back(), q);
      }
      c->set_all_cells(all);
    } else if (k == 3) {
      T v = value<T>(g);
      c->set_value(i, r, j, v);
      at(i, r, j) = v;
    }
    NEED(c->get_value(i, r, j) == at(i, r, j), "constant cell data: (%d,%d,%d) reads %g, stored %g", i, r, j, (double)c->get_value(i, r, j),
         (double)at(i, r, j));
    auto all = c->get_all_cells();
    NEED((int)all.size() == nc, "constant cell data: %zu cells", all.size());
    for (int q = 0; q < nc; q++) {
      auto d = c->get_cell(q);
      for (int a = 0; a < nr; a++)
        for (int b = 0; b < ncol; b++)
          NEED(d->at(a, b) == at(q, a, b) && all[q]->at(a, b) == at(q, a, b), "constant cell data: cell %d (%d,%d) reads %g and %g, stored %g", q, a, b,
               (double)d->at(a, b), (double)all[q]->at(a, b), (double)at(q, a, b));
    }
  }
};
static void error_flag(SYCLTargetSharedPtr t, Rng &g) {
  ErrorPropagate ep(t);
  auto p = ep.device_ptr();
  const int n = (int)g.range(1, 50), bad = (int)g.range(-20, n - 1);
  for (int round = 0; round < 2; round++) {
    NEED(ep.get_flag() == 0, "error flag set before any kernel");
    t->queue
        .parallel_for(sycl::range<1>(n),
                      [=](sycl::id<1> ix) {
                        const bool ok = (int)ix != bad;
                        NESO_KERNEL_ASSERT(ok, p);
                      })
        .wait_and_throw();
    NEED((ep.get_flag() != 0) == (bad >= 0), "error flag is %d with failing item %d of %d", ep.get_flag(), bad, n);
    if (bad < 0)
      ep.check_and_throw("no failure happened");
    ep.reset();
  }
}

void rank_main(int) {
  auto t = make_target(sim::users_comm());
  const int rk = t->comm_pair.rank_parent;
  {
    Rng g0 = rng(7, (u64)rk);
    BufModel<BufferDevice<INT>, INT> bd;
    BufModel<BufferHost<REAL>, REAL> bh;
    BufModel<BufferShared<INT>, INT> bs;
    PairModel<REAL> bp;
    TreeModel<4> t4;
    TreeModel<64> t64;
    TableModel tab;
    CellModel<REAL> cr;
    CellModel<INT> ci;
    ConstModel<REAL> kr;
    ConstModel<INT> ki;
    bd.init(t, "device buffer", g0);
    bh.init(t, "host buffer", g0);
    bs.init(t, "shared buffer", g0);
    bp.init(t, g0);
    t4.init(t, g0);
    t64.init(t, g0);
    tab.init(t, g0);
    cr.init(t, g0);
    ci.init(t, g0);
    kr.init(t, g0);
    ki.init(t, g0);
    for (int i = 0; i < (int)ops.size(); i++) {
      if (!sim::op_enabled(i))
        continue;
      const Op &o = ops[i];
      sim::op_begin(i, kn[o.k]);
      Rng g = rng(o.salt, (u64)rk, 5);
      const bool alt = g.pct(50);
      switch (o.k) {
      case BDEV: bd.step(g); break;
      case BHOST: bh.step(g); break;
      case BSHARED: bs.step(g); break;
      case BDH: bp.step(g); break;
      case SCAN: alt ? scan<int>(t, g, false) : scan<INT>(t, g, false); break;
      case SCANB: alt ? scan<int>(t, g, true) : scan<INT>(t, g, true); break;
      case SCANN:
      case INCL:
      case SUMS: alt ? segs<int>(t, g, o.k) : segs<INT>(t, g, o.k); break;
      case SCANM: alt ? strided<int>(t, g) : strided<INT>(t, g); break;
      case TRANSP: alt ? transpose<REAL>(t, g) : transpose<INT>(t, g); break;
      case RED: alt ? reduce<REAL>(t, g) : reduce<INT>(t, g); break;
      case TREE: alt ? t4.step(g) : t64.step(g); break;
      case LOOKUP: tab.step(g); break;
      case STACK: alt ? pool(g) : pool_buffers(t, g); break;
      case A2A: all_to_all(t, g); break;
      case CELLDAT: alt ? cr.step(g) : ci.step(g); break;
      case CELLCONST: alt ? kr.step(g) : ki.step(g); break;
      case ERRP: error_flag(t, g); break;
      }
      sim::counter(kn[o.k]);
      sim::state_hash((u64)o.k * 1000003 + (o.salt % 64));
      sim::note_hash(o.salt);
    }
  }
  t->free();
}
void finish() {}
const char *judge_abort(const char *) { return "the library stopped on a valid request"; }
} // namespace simwl
