// Simulated SYCL 2020 front end (the subset NESO-Particles uses). All
// execution is decided by the deterministic scheduler in simcore.
#pragma once
#ifndef SIM_SYCL_HPP
#define SIM_SYCL_HPP
#include "../simcore.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#define SYCL_LANGUAGE_VERSION 202001
#define SIM_SYCL 1

namespace sycl {

enum class memory_order { relaxed, acquire, release, acq_rel, seq_cst };
enum class memory_scope { work_item, sub_group, work_group, device, system };
namespace access {
enum class fence_space { local_space, global_space, global_and_local };
enum class address_space { generic_space, global_space, local_space, private_space };
} // namespace access

class exception : public std::runtime_error {
public:
  explicit exception(const char *m) : std::runtime_error(m) {}
  explicit exception(const std::string &m) : std::runtime_error(m) {}
};

template <int D> struct id;
template <int D> struct range;

namespace simdetail {
template <int D, typename SELF> struct arr {
  size_t v[D];
  size_t get(int d) const { return v[d]; }
  size_t &operator[](int d) { return v[d]; }
  size_t operator[](int d) const { return v[d]; }
  bool operator==(const arr &o) const {
    for (int i = 0; i < D; i++)
      if (v[i] != o.v[i])
        return false;
    return true;
  }
  bool operator!=(const arr &o) const { return !(*this == o); }
};
template <int D> struct idarr : arr<D, id<D>> {};
template <> struct idarr<1> : arr<1, id<1>> {
  operator size_t() const { return v[0]; }
};
} // namespace simdetail

template <int D = 1> struct range : simdetail::arr<D, range<D>> {
  static constexpr int dimensions = D;
  range() {
    for (int i = 0; i < D; i++)
      this->v[i] = 0;
  }
  template <int N = D, typename = std::enable_if_t<N == 1>> range(size_t a) {
    this->v[0] = a;
  }
  template <int N = D, typename = std::enable_if_t<N == 2>>
  range(size_t a, size_t b) {
    this->v[0] = a;
    this->v[1] = b;
  }
  template <int N = D, typename = std::enable_if_t<N == 3>>
  range(size_t a, size_t b, size_t c) {
    this->v[0] = a;
    this->v[1] = b;
    this->v[2] = c;
  }
  size_t size() const {
    size_t s = 1;
    for (int i = 0; i < D; i++)
      s *= this->v[i];
    return s;
  }
};
range(size_t) -> range<1>;
range(size_t, size_t) -> range<2>;
range(size_t, size_t, size_t) -> range<3>;

template <int D = 1> struct id : simdetail::idarr<D> {
  static constexpr int dimensions = D;
  id() {
    for (int i = 0; i < D; i++)
      this->v[i] = 0;
  }
  template <int N = D, typename = std::enable_if_t<N == 1>> id(size_t a) {
    this->v[0] = a;
  }
  template <int N = D, typename = std::enable_if_t<N == 2>>
  id(size_t a, size_t b) {
    this->v[0] = a;
    this->v[1] = b;
  }
  template <int N = D, typename = std::enable_if_t<N == 3>>
  id(size_t a, size_t b, size_t c) {
    this->v[0] = a;
    this->v[1] = b;
    this->v[2] = c;
  }
};
id(size_t) -> id<1>;
id(size_t, size_t) -> id<2>;

namespace simdetail {
template <int D> struct itembase {
  const sim::ItemCtx *c;
  operator id<D>() const {
    id<D> r;
    for (int i = 0; i < D; i++)
      r[i] = c->gid[i];
    return r;
  }
};
template <> struct itembase<1> {
  const sim::ItemCtx *c;
  operator id<1>() const { return id<1>(c->gid[0]); }
  operator size_t() const { return c->gid[0]; }
};
} // namespace simdetail
template <int D = 1, bool WithOffset = true> struct item : simdetail::itembase<D> {
  using simdetail::itembase<D>::c;
  size_t get_id(int d) const { return c->gid[d]; }
  id<D> get_id() const {
    id<D> r;
    for (int i = 0; i < D; i++)
      r[i] = c->gid[i];
    return r;
  }
  size_t operator[](int d) const { return c->gid[d]; }
  size_t get_range(int d) const { return c->global_range[d]; }
  range<D> get_range() const {
    range<D> r;
    for (int i = 0; i < D; i++)
      r[i] = c->global_range[i];
    return r;
  }
  size_t get_linear_id() const {
    size_t l = 0;
    for (int i = 0; i < D; i++)
      l = l * c->global_range[i] + c->gid[i];
    return l;
  }
};

template <int D = 1> struct nd_range {
  range<D> g, l;
  nd_range(range<D> g, range<D> l) : g(g), l(l) {}
  range<D> get_global_range() const { return g; }
  range<D> get_local_range() const { return l; }
  range<D> get_group_range() const {
    range<D> r;
    for (int i = 0; i < D; i++)
      r[i] = g[i] / l[i];
    return r;
  }
  bool operator==(const nd_range &o) const { return g == o.g && l == o.l; }
};

template <int D = 1> struct group {
  const sim::ItemCtx *c;
  static constexpr int dimensions = D;
  static constexpr memory_scope fence_scope = memory_scope::work_group;
  size_t get_group_id(int d) const { return c->grp[d]; }
  id<D> get_group_id() const {
    id<D> r;
    for (int i = 0; i < D; i++)
      r[i] = c->grp[i];
    return r;
  }
  size_t get_id(int d) const { return c->grp[d]; }
  size_t operator[](int d) const { return c->grp[d]; }
  size_t get_local_range(int d) const { return c->local_range[d]; }
  size_t get_group_range(int d) const { return c->group_range[d]; }
  id<D> get_local_id() const {
    id<D> r;
    for (int i = 0; i < D; i++)
      r[i] = c->lid[i];
    return r;
  }
  size_t get_local_id(int d) const { return c->lid[d]; }
  size_t get_local_linear_id() const {
    size_t l = 0;
    for (int i = 0; i < D; i++)
      l = l * c->local_range[i] + c->lid[i];
    return l;
  }
  size_t get_local_linear_range() const {
    size_t l = 1;
    for (int i = 0; i < D; i++)
      l *= c->local_range[i];
    return l;
  }
  size_t get_group_linear_id() const {
    size_t l = 0;
    for (int i = 0; i < D; i++)
      l = l * c->group_range[i] + c->grp[i];
    return l;
  }
  bool leader() const { return get_local_linear_id() == 0; }
};

template <int D = 1> struct nd_item {
  const sim::ItemCtx *c;
  size_t get_global_id(int d) const { return c->gid[d]; }
  id<D> get_global_id() const {
    id<D> r;
    for (int i = 0; i < D; i++)
      r[i] = c->gid[i];
    return r;
  }
  size_t get_global_linear_id() const {
    size_t l = 0;
    for (int i = 0; i < D; i++)
      l = l * c->global_range[i] + c->gid[i];
    return l;
  }
  size_t get_local_id(int d) const { return c->lid[d]; }
  id<D> get_local_id() const {
    id<D> r;
    for (int i = 0; i < D; i++)
      r[i] = c->lid[i];
    return r;
  }
  size_t get_local_linear_id() const { return get_group().get_local_linear_id(); }
  group<D> get_group() const { return group<D>{c}; }
  size_t get_group(int d) const { return c->grp[d]; }
  size_t get_group_linear_id() const { return get_group().get_group_linear_id(); }
  size_t get_group_range(int d) const { return c->group_range[d]; }
  range<D> get_group_range() const {
    range<D> r;
    for (int i = 0; i < D; i++)
      r[i] = c->group_range[i];
    return r;
  }
  size_t get_global_range(int d) const { return c->global_range[d]; }
  range<D> get_global_range() const {
    range<D> r;
    for (int i = 0; i < D; i++)
      r[i] = c->global_range[i];
    return r;
  }
  size_t get_local_range(int d) const { return c->local_range[d]; }
  range<D> get_local_range() const {
    range<D> r;
    for (int i = 0; i < D; i++)
      r[i] = c->local_range[i];
    return r;
  }
  void barrier(access::fence_space = access::fence_space::global_and_local) const {
    sim::group_barrier();
  }
};

template <int D>
inline void group_barrier(group<D>, memory_scope = memory_scope::work_group) {
  sim::group_barrier();
}

// ------------------------------------------------------- function objects --
template <typename T = void> struct plus {
  T operator()(const T &a, const T &b) const { return a + b; }
};
template <> struct plus<void> {
  template <typename T> T operator()(const T &a, const T &b) const { return a + b; }
};
template <typename T = void> struct multiplies {
  T operator()(const T &a, const T &b) const { return a * b; }
};
template <typename T = void> struct minimum {
  T operator()(const T &a, const T &b) const { return (b < a) ? b : a; }
};
template <> struct minimum<void> {
  template <typename T> T operator()(const T &a, const T &b) const { return (b < a) ? b : a; }
};
template <typename T = void> struct maximum {
  T operator()(const T &a, const T &b) const { return (a < b) ? b : a; }
};
template <> struct maximum<void> {
  template <typename T> T operator()(const T &a, const T &b) const { return (a < b) ? b : a; }
};

// -------------------------------------------------------- group algorithms --
template <int D, typename T, typename OP>
inline T reduce_over_group(group<D>, T x, OP op) {
  T mine = x;
  int n = 0;
  void **p = sim::group_exchange(&mine, &n);
  T r = *static_cast<T *>(p[0]);
  for (int i = 1; i < n; i++)
    r = op(r, *static_cast<T *>(p[i]));
  sim::group_barrier();
  return r;
}
template <int D, typename PTR, typename OP>
inline auto joint_reduce(group<D>, PTR first, PTR last, OP op) {
  sim::group_barrier();
  using T = std::remove_cv_t<std::remove_reference_t<decltype(*first)>>;
  T r = *first;
  for (++first; first != last; ++first)
    r = op(r, *first);
  sim::group_barrier();
  return r;
}
template <int D, typename IN, typename OUT, typename T, typename OP>
inline OUT joint_exclusive_scan(group<D> g, IN first, IN last, OUT result,
                                T init, OP op) {
  sim::group_barrier();
  const auto n = last - first;
  if (g.get_local_linear_id() == 0) {
    // the whole input is read before anything is written (in-place is allowed)
    using O = std::remove_cv_t<std::remove_reference_t<decltype(*result)>>;
    T acc = init;
    for (auto i = n - n; i < n; i++) {
      T v = static_cast<T>(first[i]);
      result[i] = static_cast<O>(acc);
      acc = op(acc, v);
    }
  }
  sim::group_barrier();
  return result + n;
}
template <int D, typename IN, typename OUT, typename OP>
inline OUT joint_exclusive_scan(group<D> g, IN first, IN last, OUT result, OP op) {
  using T = std::remove_cv_t<std::remove_reference_t<decltype(*first)>>;
  return joint_exclusive_scan(g, first, last, result, T(0), op);
}
template <int D, typename IN, typename OUT, typename OP, typename T>
inline OUT joint_inclusive_scan(group<D> g, IN first, IN last, OUT result, OP op,
                                T init) {
  sim::group_barrier();
  const auto n = last - first;
  if (g.get_local_linear_id() == 0) {
    T acc = init;
    for (auto i = n - n; i < n; i++) {
      acc = op(acc, static_cast<T>(first[i]));
      result[i] = acc;
    }
  }
  sim::group_barrier();
  return result + n;
}
template <int D, typename IN, typename OUT, typename OP>
inline OUT joint_inclusive_scan(group<D> g, IN first, IN last, OUT result, OP op) {
  using T = std::remove_cv_t<std::remove_reference_t<decltype(*first)>>;
  return joint_inclusive_scan(g, first, last, result, op, T(0));
}

// ------------------------------------------------------------- atomic_ref --
template <typename T, memory_order O = memory_order::relaxed,
          memory_scope S = memory_scope::device,
          access::address_space A = access::address_space::generic_space>
class atomic_ref {
  T *p;
  template <typename F> __attribute__((no_sanitize("thread"))) T rmw(F f) const {
    sim::atomic_point(p, sizeof(T), true);
    T old = *p;
    *p = f(old);
    return old;
  }

public:
  explicit atomic_ref(T &r) : p(&r) {}
  T fetch_add(T v, memory_order = O, memory_scope = S) const {
    return rmw([&](T o) __attribute__((no_sanitize("thread"))) { return static_cast<T>(o + v); });
  }
  T fetch_sub(T v, memory_order = O, memory_scope = S) const {
    return rmw([&](T o) __attribute__((no_sanitize("thread"))) { return static_cast<T>(o - v); });
  }
  T fetch_min(T v, memory_order = O, memory_scope = S) const {
    return rmw([&](T o) __attribute__((no_sanitize("thread"))) { return v < o ? v : o; });
  }
  T fetch_max(T v, memory_order = O, memory_scope = S) const {
    return rmw([&](T o) __attribute__((no_sanitize("thread"))) { return o < v ? v : o; });
  }
  template <typename U = T> T fetch_or(T v, memory_order = O, memory_scope = S) const {
    return rmw([&](T o) __attribute__((no_sanitize("thread"))) { return static_cast<T>(o | v); });
  }
  template <typename U = T> T fetch_and(T v, memory_order = O, memory_scope = S) const {
    return rmw([&](T o) __attribute__((no_sanitize("thread"))) { return static_cast<T>(o & v); });
  }
  T exchange(T v, memory_order = O, memory_scope = S) const {
    return rmw([&](T) __attribute__((no_sanitize("thread"))) { return v; });
  }
  bool compare_exchange_strong(T &e, T d, memory_order = O, memory_scope = S) const {
    sim::atomic_point(p, sizeof(T), true);
    if (*p == e) {
      *p = d;
      return true;
    }
    e = *p;
    return false;
  }
  __attribute__((no_sanitize("thread"))) T load(memory_order = O, memory_scope = S) const {
    sim::atomic_point(p, sizeof(T), false);
    return *p;
  }
  __attribute__((no_sanitize("thread"))) void store(T v, memory_order = O, memory_scope = S) const {
    sim::atomic_point(p, sizeof(T), true);
    *p = v;
  }
  operator T() const { return load(); }
  T operator=(T v) const {
    store(v);
    return v;
  }
  T operator+=(T v) const { return static_cast<T>(fetch_add(v) + v); }
  T operator-=(T v) const { return static_cast<T>(fetch_sub(v) - v); }
  T operator++(int) const { return fetch_add(T(1)); }
  T operator++() const { return static_cast<T>(fetch_add(T(1)) + T(1)); }
};

// ----------------------------------------------------------------- device --
namespace info {
enum class local_mem_type { none, local, global };
enum class device_type { cpu, gpu };
namespace device {
struct name { using return_type = std::string; };
struct vendor { using return_type = std::string; };
struct max_work_group_size { using return_type = size_t; };
struct local_mem_size { using return_type = uint64_t; };
struct local_mem_type { using return_type = info::local_mem_type; };
struct max_compute_units { using return_type = uint32_t; };
struct native_vector_width_double { using return_type = uint32_t; };
struct native_vector_width_float { using return_type = uint32_t; };
struct global_mem_cache_line_size { using return_type = uint32_t; };
template <int D> struct max_work_item_sizes { using return_type = range<D>; };
} // namespace device
} // namespace info

struct platform;
struct device {
  template <typename I> auto get_info() const {
    if constexpr (std::is_same_v<I, info::device::name>)
      return std::string("simulated device");
    else if constexpr (std::is_same_v<I, info::device::vendor>)
      return std::string("simulator");
    else if constexpr (std::is_same_v<I, info::device::max_work_group_size>)
      return static_cast<size_t>(sim::K.wg_max);
    else if constexpr (std::is_same_v<I, info::device::local_mem_size>)
      return static_cast<uint64_t>(sim::K.local_mem);
    else if constexpr (std::is_same_v<I, info::device::local_mem_type>)
      return info::local_mem_type::local;
    else if constexpr (std::is_same_v<I, info::device::max_compute_units>)
      return static_cast<uint32_t>(sim::K.compute_units);
    else if constexpr (std::is_same_v<I, info::device::native_vector_width_double>)
      return static_cast<uint32_t>(4);
    else if constexpr (std::is_same_v<I, info::device::native_vector_width_float>)
      return static_cast<uint32_t>(8);
    else if constexpr (std::is_same_v<I, info::device::global_mem_cache_line_size>)
      return static_cast<uint32_t>(sim::K.cacheline);
    else {
      typename I::return_type r;
      for (int i = 0; i < I::return_type::dimensions; i++)
        r[i] = static_cast<size_t>(sim::K.wg_max);
      return r;
    }
  }
  bool is_cpu() const { return sim::K.cpu_device != 0; }
  bool is_gpu() const { return sim::K.cpu_device == 0; }
  bool operator==(const device &) const { return true; }
  std::vector<device> get_devices() const { return {device{}}; }
  template <typename S, typename = std::enable_if_t<!std::is_same_v<std::decay_t<S>, device>>>
  explicit device(const S &) {}
  device() = default;
  platform get_platform() const;
};
struct platform {
  std::vector<device> get_devices() const { return {device{}}; }
  static std::vector<platform> get_platforms() { return {platform{}}; }
};
inline platform device::get_platform() const { return platform{}; }
struct default_selector { int operator()(const device &) const { return 1; } };
struct cpu_selector { int operator()(const device &) const { return 1; } };
struct gpu_selector { int operator()(const device &) const { return 1; } };
inline constexpr default_selector default_selector_v{};
inline constexpr cpu_selector cpu_selector_v{};
inline constexpr gpu_selector gpu_selector_v{};
struct context {};

namespace property { namespace queue {
struct in_order {};
struct enable_profiling {};
} } // namespace property::queue
struct property_list {
  bool in_order = false;
  property_list() = default;
  template <typename... P> property_list(P...) {
    in_order = (std::is_same_v<P, property::queue::in_order> || ...);
  }
};

// ------------------------------------------------------------------ event --
class event {
public:
  sim::TaskRef t;
  event() = default;
  explicit event(sim::Task *x) : t(x) {}
  void wait() const {
    if (t.t)
      sim::task_wait(t.t);
  }
  void wait_and_throw() const { wait(); }
  static void wait(const std::vector<event> &v) {
    for (auto &e : v)
      e.wait();
  }
  bool operator==(const event &o) const { return t.t == o.t.t; }
};

// ---------------------------------------------------------------- handler --
namespace simdetail {
template <typename K, typename ARG> struct Thunk {
  static void call(void *o, const sim::ItemCtx &c) {
    (*static_cast<K *>(o))(ARG{&c});
  }
  static void destroy(void *o) { static_cast<K *>(o)->~K(); }
};
template <typename K> struct Thunk<K, void> {
  static void call(void *o, const sim::ItemCtx &) { (*static_cast<K *>(o))(); }
  static void destroy(void *o) { static_cast<K *>(o)->~K(); }
};
template <typename ARG, typename K> inline sim::Functor make_functor(const K &k) {
  sim::Functor f;
  f.obj = sim::internal_alloc(sizeof(K));
  new (f.obj) K(k);
  f.call = &Thunk<K, ARG>::call;
  f.destroy = &Thunk<K, ARG>::destroy;
  return f;
}
} // namespace simdetail

class handler {
public:
  sim::Submission s;
  void depends_on(const event &e) { add_dep(e); }
  void depends_on(const std::vector<event> &v) {
    for (auto &e : v)
      add_dep(e);
  }
  void add_dep(const event &e) {
    if (e.t.t) {
      if (s.ndeps >= 64) {
        sim::task_wait(e.t.t); // a stricter but valid order
        return;
      }
      s.deps[s.ndeps++] = e.t.t;
    }
  }
  template <typename NAME = void, int D, typename K>
  void parallel_for(range<D> r, const K &k) {
    s.kind = 1;
    s.dims = D;
    for (int i = 0; i < D; i++)
      s.global[i] = r[i];
    s.fn = simdetail::make_functor<item<D>>(k);
  }
  template <typename NAME = void, typename K>
  void parallel_for(size_t r, const K &k) { parallel_for<NAME>(range<1>(r), k); }
  template <typename NAME = void, int D, typename K>
  void parallel_for(nd_range<D> r, const K &k) {
    s.kind = 2;
    s.dims = D;
    size_t l = 1;
    for (int i = 0; i < D; i++) {
      s.global[i] = r.g[i];
      s.local[i] = r.l[i];
      if (r.l[i] == 0)
        throw exception("nd_range: zero local size");
      if (r.g[i] % r.l[i])
        throw exception("nd_range: global size is not a multiple of the local size");
      l *= r.l[i];
    }
    if (l > static_cast<size_t>(sim::K.wg_max))
      throw exception("nd_range: local size exceeds the device limit");
    s.fn = simdetail::make_functor<nd_item<D>>(k);
  }
  template <typename NAME = void, typename K> void single_task(const K &k) {
    s.kind = 3;
    s.fn = simdetail::make_functor<void>(k);
  }
  void memcpy(void *d, const void *src, size_t n) {
    s.kind = 4;
    s.dst = d;
    s.src = src;
    s.nbytes = n;
  }
  template <typename T> void copy(const T *src, T *d, size_t n) {
    memcpy(d, src, n * sizeof(T));
  }
  template <typename T> void fill(void *d, const T &v, size_t n) {
    static_assert(sizeof(T) <= 64);
    s.kind = 5;
    s.dst = d;
    s.nbytes = n * sizeof(T);
    std::memcpy(s.pattern, &v, sizeof(T));
    s.pattern_size = sizeof(T);
  }
};

template <typename T, int D = 1> class local_accessor {
  int slot = -1;
  size_t r[D];

public:
  local_accessor() = default;
  local_accessor(range<D> rr, handler &h) {
    size_t n = sizeof(T);
    for (int i = 0; i < D; i++) {
      r[i] = rr[i];
      n *= rr[i];
    }
    slot = h.s.nlocal_slots;
    if (slot >= 32)
      throw exception("too many local accessors (simulator limit)");
    h.s.local_slots[h.s.nlocal_slots++] = n;
  }
  T *base() const { return static_cast<T *>(sim::local_slot_ptr(slot)); }
  T &operator[](const id<D> &i) const {
    size_t l = 0;
    for (int d = 0; d < D; d++)
      l = l * r[d] + i[d];
    return base()[l];
  }
  template <int N = D, typename = std::enable_if_t<N == 1>>
  T &operator[](size_t i) const {
    return base()[i];
  }
  struct Row {
    T *p;
    T &operator[](size_t j) const { return p[j]; }
  };
  template <int N = D, typename = std::enable_if_t<N == 2>>
  Row operator[](size_t i) const {
    return Row{base() + i * r[1]};
  }
  size_t size() const {
    size_t n = 1;
    for (int i = 0; i < D; i++)
      n *= r[i];
    return n;
  }
  T *get_pointer() const { return base(); }
};

// ------------------------------------------------------------------ queue --
class queue {
  struct Q {
    int id;
    Q(bool io) : id(sim::queue_create(io)) {}
    ~Q() { sim::queue_release(id); }
  };
  std::shared_ptr<Q> q;

  static std::map<int, bool> &open_group() {
    static std::map<int, bool> m;
    return m;
  }
  template <typename F> event submit_impl(F &&f) {
    handler h;
    {
      // a submission from inside a command group is an error, as in DPC++
      bool &o = open_group()[sim::rank()];
      if (o)
        throw exception("Calls to sycl::queue::submit cannot be nested. Command group function objects should use the sycl::handler API instead.");
      struct G {
        bool &o;
        G(bool &o) : o(o) { o = true; }
        ~G() { o = false; }
      } guard(o);
      f(h);
    }
    return event(sim::task_submit(q->id, h.s));
  }

public:
  queue() : q(std::make_shared<Q>(false)) {}
  template <typename SEL> explicit queue(const SEL &) : q(std::make_shared<Q>(false)) {}
  explicit queue(const property_list &p) : q(std::make_shared<Q>(p.in_order)) {}
  template <typename SEL>
  queue(const SEL &, const property_list &p) : q(std::make_shared<Q>(p.in_order)) {}
  device get_device() const { return device{}; }
  context get_context() const { return context{}; }
  bool is_in_order() const { return sim::queue_in_order(q->id); }
  void wait() { sim::queue_wait(q->id); }
  void wait_and_throw() { sim::queue_wait(q->id); }
  template <typename F> event submit(F f) {
    return submit_impl([&](handler &h) { f(h); });
  }
  template <typename NAME = void, typename R, typename K>
  event parallel_for(R r, const K &k) {
    return submit_impl([&](handler &h) { h.parallel_for<NAME>(r, k); });
  }
  template <typename NAME = void, typename R, typename K>
  event parallel_for(R r, const event &e, const K &k) {
    return submit_impl([&](handler &h) { h.depends_on(e); h.parallel_for<NAME>(r, k); });
  }
  template <typename NAME = void, typename R, typename K>
  event parallel_for(R r, const std::vector<event> &e, const K &k) {
    return submit_impl([&](handler &h) { h.depends_on(e); h.parallel_for<NAME>(r, k); });
  }
  template <typename NAME = void, typename K> event single_task(const K &k) {
    return submit_impl([&](handler &h) { h.single_task<NAME>(k); });
  }
  template <typename NAME = void, typename K>
  event single_task(const event &e, const K &k) {
    return submit_impl([&](handler &h) { h.depends_on(e); h.single_task<NAME>(k); });
  }
  event memcpy(void *d, const void *s, size_t n) {
    return submit_impl([&](handler &h) { h.memcpy(d, s, n); });
  }
  event memcpy(void *d, const void *s, size_t n, const event &e) {
    return submit_impl([&](handler &h) { h.depends_on(e); h.memcpy(d, s, n); });
  }
  event memcpy(void *d, const void *s, size_t n, const std::vector<event> &e) {
    return submit_impl([&](handler &h) { h.depends_on(e); h.memcpy(d, s, n); });
  }
  event memset(void *d, int v, size_t n) {
    return submit_impl([&](handler &h) { h.fill<unsigned char>(d, static_cast<unsigned char>(v), n); });
  }
  template <typename T> event copy(const T *s, T *d, size_t n) {
    return memcpy(d, s, n * sizeof(T));
  }
  template <typename T> event fill(void *d, const T &v, size_t n) {
    return submit_impl([&](handler &h) { h.fill<T>(d, v, n); });
  }
  template <typename T> event fill(void *d, const T &v, size_t n, const event &e) {
    return submit_impl([&](handler &h) { h.depends_on(e); h.fill<T>(d, v, n); });
  }
  template <typename T>
  event fill(void *d, const T &v, size_t n, const std::vector<event> &e) {
    return submit_impl([&](handler &h) { h.depends_on(e); h.fill<T>(d, v, n); });
  }
};

// -------------------------------------------------------------------- usm --
inline void *malloc_device(size_t n, const queue &) { return sim::usm_alloc(n, 16, sim::M_DEVICE); }
inline void *malloc_host(size_t n, const queue &) { return sim::usm_alloc(n, 16, sim::M_HOST); }
inline void *malloc_shared(size_t n, const queue &) { return sim::usm_alloc(n, 16, sim::M_SHARED); }
template <typename T> T *malloc_device(size_t n, const queue &) { return static_cast<T *>(sim::usm_alloc(n * sizeof(T), 16, sim::M_DEVICE)); }
template <typename T> T *malloc_host(size_t n, const queue &) { return static_cast<T *>(sim::usm_alloc(n * sizeof(T), 16, sim::M_HOST)); }
template <typename T> T *malloc_shared(size_t n, const queue &) { return static_cast<T *>(sim::usm_alloc(n * sizeof(T), 16, sim::M_SHARED)); }
inline void *aligned_alloc_device(size_t a, size_t n, const queue &) { return sim::usm_alloc(n, a, sim::M_DEVICE); }
inline void *aligned_alloc_host(size_t a, size_t n, const queue &) { return sim::usm_alloc(n, a, sim::M_HOST); }
inline void *aligned_alloc_shared(size_t a, size_t n, const queue &) { return sim::usm_alloc(n, a, sim::M_SHARED); }
inline void free(void *p, const queue &) { sim::usm_free(p); }

// ------------------------------------------------------------------- math --
#define SIM_M1(n) template <typename T> inline T n(T x) { return std::n(x); }
SIM_M1(sin) SIM_M1(cos) SIM_M1(tan) SIM_M1(sqrt) SIM_M1(exp) SIM_M1(log)
SIM_M1(log2) SIM_M1(log10) SIM_M1(fabs) SIM_M1(trunc) SIM_M1(round) SIM_M1(floor)
SIM_M1(ceil) SIM_M1(tgamma) SIM_M1(acos) SIM_M1(asin) SIM_M1(atan) SIM_M1(erf)
SIM_M1(erfc) SIM_M1(cbrt) SIM_M1(exp2) SIM_M1(expm1) SIM_M1(sinh) SIM_M1(cosh) SIM_M1(tanh)
#undef SIM_M1
template <typename T> inline T rsqrt(T x) { return T(1) / std::sqrt(x); }
template <typename T> inline T abs(T x) { return std::abs(x); }
template <typename T> inline T sincos(T x, T *c) { *c = std::cos(x); return std::sin(x); }
#define SIM_M2(n) template <typename T, typename U> inline auto n(T x, U y) { return std::n(x, y); }
SIM_M2(fmin) SIM_M2(fmax) SIM_M2(fmod) SIM_M2(pow) SIM_M2(atan2) SIM_M2(copysign) SIM_M2(hypot)
#undef SIM_M2
template <typename T> inline T fma(T a, T b, T c) { return std::fma(a, b, c); }
template <typename T> inline T min(T a, T b) { return b < a ? b : a; }
template <typename T> inline T max(T a, T b) { return a < b ? b : a; }
template <typename T> inline T clamp(T x, T a, T b) { return min(max(x, a), b); }
template <typename T> inline bool isnan(T x) { return std::isnan(x); }
template <typename T> inline bool isinf(T x) { return std::isinf(x); }
template <typename T> inline bool isfinite(T x) { return std::isfinite(x); }

} // namespace sycl
#endif
