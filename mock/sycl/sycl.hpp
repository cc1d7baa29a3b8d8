// A host emulation of the part of SYCL 2020 that votess uses (and a little
// more), so that the library's device kernels can be *executed* by generated
// cases in a sandbox that has no device compiler.
//
// Semantics kept deliberately strict:
//   * a kernel runs one work-item after the other, in an order that the
//     harness chooses (vsycl::config().order_seed; 0 = ascending);
//   * nd_range launches whose global size is not a multiple of the local size,
//     or whose local size is 0, throw sycl::exception, as real devices do;
//   * every accessor access is bounds checked (vsycl::fault() on violation);
//   * memory the program did not initialise is poisoned: buffers without host
//     data, local memory at the start of every work-group, and buffers that an
//     accessor with no_init takes over (unless poison_noinit is off) hold
//     bytes derived from vsycl::config().poison;
//   * an access through a read accessor cannot write and vice versa at compile
//     time, as in SYCL.
#ifndef VERIF_MOCK_SYCL_HPP
#define VERIF_MOCK_SYCL_HPP

#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace vsycl {
struct config_t {
  bool has_gpu = false;        // what device discovery reports
  uint64_t order_seed = 0;     // work-group / work-item execution order
  uint8_t poison = 0xA5;       // pattern of uninitialised memory
  bool poison_noinit = false;  // no_init on a used buffer discards its contents
  size_t max_work_group = 8192;
  size_t launches = 0;         // kernels launched (observable by harnesses)
  size_t items = 0;            // work-items executed
};
inline config_t& config() { static config_t c; return c; }

struct access_fault : std::runtime_error {
  using std::runtime_error::runtime_error;
};
[[noreturn]] inline void fault(const char* what, size_t i, size_t n) {
  std::ostringstream o;
  o << "device memory fault: " << what << " index " << i << " size " << n;
  throw access_fault(o.str());
}
inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline void poison(void* p, size_t n) {
  std::memset(p, config().poison, n);
}
inline std::vector<size_t> order(size_t n, uint64_t salt) {
  std::vector<size_t> v(n);
  std::iota(v.begin(), v.end(), size_t(0));
  uint64_t s = config().order_seed;
  if (!s) return v;
  s = mix(s ^ salt);
  for (size_t i = n; i > 1; i--) { s = mix(s); std::swap(v[i - 1], v[s % i]); }
  return v;
}
} // namespace vsycl

namespace sycl {
inline namespace mock {

enum class errc : unsigned {
  success = 0, runtime, kernel, accessor, nd_range, event, kernel_argument,
  build, invalid, memory_allocation, platform, profiling,
  feature_not_supported, kernel_not_supported, backend_mismatch
};

class exception : public std::exception {
  std::string m; errc c;
public:
  exception(errc c0, const std::string& s = "") : m(s), c(c0) {}
  exception(const std::string& s = "") : m(s), c(errc::runtime) {}
  const char* what() const noexcept override { return m.c_str(); }
  errc code() const { return c; }
};

namespace access {
enum class mode { read = 1024, write, read_write, discard_write,
                  discard_read_write, atomic };
enum class target { device = 2014, host_task, constant_buffer, local,
                    host_buffer, global_buffer = 2014 };
enum class placeholder { false_t, true_t };
enum class address_space { private_space, global_space, local_space };
enum class decorated { no, yes, legacy };
enum class fence_space { local_space, global_space, global_and_local };
}
using access_mode = access::mode;
using target = access::target;

namespace property {
struct no_init { };
namespace buffer { struct use_host_ptr {}; struct use_mutex {}; }
namespace queue { struct in_order {}; struct enable_profiling {}; }
}
struct property_list {
  bool noinit = false;
  property_list() {}
  template <typename... P> property_list(P... p) {
    ((noinit = noinit || std::is_same<P, property::no_init>::value), ...);
    ((void)p, ...);
  }
};
inline constexpr property::no_init no_init{};

struct read_only_tag {}; struct write_only_tag {}; struct read_write_tag {};
inline constexpr read_only_tag read_only{};
inline constexpr write_only_tag write_only{};
inline constexpr read_write_tag read_write{};

template <int D = 1> class range {
  size_t v[D];
public:
  static constexpr int dimensions = D;
  range() { for (auto& x : v) x = 0; }
  template <int N = D, typename = std::enable_if_t<N == 1>>
  range(size_t a) { v[0] = a; }
  template <int N = D, typename = std::enable_if_t<N == 2>>
  range(size_t a, size_t b) { v[0] = a; v[1] = b; }
  template <int N = D, typename = std::enable_if_t<N == 3>>
  range(size_t a, size_t b, size_t c) { v[0] = a; v[1] = b; v[2] = c; }
  size_t get(int i) const { return v[i]; }
  size_t& operator[](int i) { return v[i]; }
  size_t operator[](int i) const { return v[i]; }
  size_t size() const { size_t r = 1; for (auto x : v) r *= x; return r; }
};
range(size_t) -> range<1>;

template <int D = 1> class id {
  size_t v[D];
public:
  id() { for (auto& x : v) x = 0; }
  template <int N = D, typename = std::enable_if_t<N == 1>>
  id(size_t a) { v[0] = a; }
  size_t get(int i) const { return v[i]; }
  size_t& operator[](int i) { return v[i]; }
  size_t operator[](int i) const { return v[i]; }
  template <int N = D, typename = std::enable_if_t<N == 1>>
  operator size_t() const { return v[0]; }
};

template <int D = 1, bool = true> class item {
  size_t i; range<D> r;
public:
  item(size_t a, range<D> b) : i(a), r(b) {}
  id<D> get_id() const { return id<D>(i); }
  size_t get_id(int) const { return i; }
  size_t operator[](int) const { return i; }
  size_t get_linear_id() const { return i; }
  range<D> get_range() const { return r; }
  size_t get_range(int d) const { return r[d]; }
  operator size_t() const { return i; }
};

template <int D = 1> class nd_range {
  range<D> g, l;
public:
  nd_range(range<D> a, range<D> b) : g(a), l(b) {}
  range<D> get_global_range() const { return g; }
  range<D> get_local_range() const { return l; }
};

template <int D = 1> class group {
  size_t gi; range<D> l; size_t n;
public:
  group(size_t a, range<D> b, size_t c) : gi(a), l(b), n(c) {}
  size_t get_group_id(int = 0) const { return gi; }
  size_t get_group_linear_id() const { return gi; }
  size_t get_local_range(int d = 0) const { return l[d]; }
  size_t get_group_range(int = 0) const { return n; }
};

template <int D = 1> class nd_item {
  size_t gi, li; range<D> g, l;
public:
  nd_item(size_t a, size_t b, range<D> c, range<D> d)
    : gi(a), li(b), g(c), l(d) {}
  size_t get_global_linear_id() const { return gi; }
  size_t get_local_linear_id() const { return li; }
  size_t get_group_linear_id() const { return gi / l[0]; }
  size_t get_global_id(int) const { return gi; }
  size_t get_local_id(int) const { return li; }
  id<D> get_global_id() const { return id<D>(gi); }
  id<D> get_local_id() const { return id<D>(li); }
  size_t get_group(int) const { return gi / l[0]; }
  group<D> get_group() const { return group<D>(gi / l[0], l, g[0] / l[0]); }
  size_t get_global_range(int d) const { return g[d]; }
  size_t get_local_range(int d) const { return l[d]; }
  range<D> get_global_range() const { return g; }
  range<D> get_local_range() const { return l; }
  size_t get_group_range(int d) const { return g[d] / l[d]; }
};

namespace info {
enum class device_type { cpu, gpu, accelerator, custom, automatic, host, all };
namespace device {
#define VS_INFO(n, t, v) struct n { using return_type = t; \
  static t get() { return v; } };
VS_INFO(name, std::string, "emulated device")
VS_INFO(vendor, std::string, "verif")
VS_INFO(version, std::string, "1")
VS_INFO(driver_version, std::string, "1")
VS_INFO(max_work_group_size, size_t, vsycl::config().max_work_group)
VS_INFO(preferred_vector_width_double, uint32_t, 4)
VS_INFO(preferred_vector_width_float, uint32_t, 8)
VS_INFO(max_compute_units, uint32_t, 8)
VS_INFO(max_mem_alloc_size, uint64_t, uint64_t(8) << 30)
VS_INFO(global_mem_size, uint64_t, uint64_t(16) << 30)
VS_INFO(local_mem_size, uint64_t, uint64_t(64) << 10)
VS_INFO(max_clock_frequency, uint32_t, 1000)
#undef VS_INFO
}
}
enum class aspect { cpu, gpu, accelerator, fp16, fp64, emulated };

class platform {
public:
  template <typename P> auto get_info() const { return std::string("emulated"); }
};

class device {
  bool gpu = false;
public:
  device(bool g = false) : gpu(g) {}
  template <typename P> typename P::return_type get_info() const {
    return P::get();
  }
  bool is_cpu() const { return !gpu; }
  bool is_gpu() const { return gpu; }
  bool is_accelerator() const { return false; }
  bool has(aspect a) const {
    return a == aspect::fp64 || a == (gpu ? aspect::gpu : aspect::cpu);
  }
  platform get_platform() const { return platform(); }
  static std::vector<device>
  get_devices(info::device_type t = info::device_type::all) {
    std::vector<device> v;
    const bool g = vsycl::config().has_gpu;
    if (t != info::device_type::gpu) v.push_back(device(false));
    if (g && (t == info::device_type::gpu || t == info::device_type::all))
      v.push_back(device(true));
    return v;
  }
};

inline constexpr int gpu_selector_v = 1;
inline constexpr int cpu_selector_v = 2;
inline constexpr int default_selector_v = 3;
inline constexpr int accelerator_selector_v = 4;
struct gpu_selector {}; struct cpu_selector {}; struct default_selector {};

class handler;

template <typename T> struct storage {
  std::unique_ptr<unsigned char[]> raw;
  T* ptr = nullptr;
  size_t n = 0;
  T* host = nullptr;
  bool used = false;
  bool dirty = false;
  storage(size_t c) : raw(new unsigned char[c * sizeof(T) + alignof(T) + 64]),
                      n(c) {
    auto a = reinterpret_cast<uintptr_t>(raw.get());
    a = (a + alignof(T) - 1) / alignof(T) * alignof(T);
    ptr = reinterpret_cast<T*>(a);
    if (n) vsycl::poison(static_cast<void*>(ptr), n * sizeof(T));
  }
  ~storage() {
    if (host && dirty && n)
      std::memcpy(static_cast<void*>(host), static_cast<void*>(ptr),
                  n * sizeof(T));
  }
};

template <typename T, int D, access::mode M, access::target G,
          access::placeholder P = access::placeholder::false_t>
class accessor;
template <typename T> class host_accessor;

template <typename T, int D = 1, typename A = void> class buffer {
public:
  std::shared_ptr<storage<T>> s;
  range<D> r;
  buffer(const range<D>& r0, const property_list& = {})
    : s(std::make_shared<storage<T>>(r0.size())), r(r0) {}
  buffer(T* h, const range<D>& r0, const property_list& = {})
    : buffer(r0) { init(h); s->host = h; }
  buffer(const T* h, const range<D>& r0, const property_list& = {})
    : buffer(r0) { init(h); }
  template <typename C,
            typename = decltype(std::declval<const C&>().data()),
            typename = decltype(std::declval<const C&>().size())>
  buffer(C& c, const property_list& = {}) : buffer(range<1>(c.size())) {
    init(c.data());
    if constexpr (!std::is_const<std::remove_pointer_t<decltype(c.data())>>::value)
      s->host = c.data();
  }
  template <typename It, typename = typename
            std::iterator_traits<It>::iterator_category>
  buffer(It a, It b, const property_list& = {})
    : buffer(range<1>(std::distance(a, b))) {
    size_t i = 0; for (; a != b; ++a) s->ptr[i++] = *a; s->used = true;
  }
  size_t size() const { return s->n; }
  size_t get_count() const { return s->n; }
  size_t byte_size() const { return s->n * sizeof(T); }
  range<D> get_range() const { return r; }
  void set_final_data(std::nullptr_t) { s->host = nullptr; }

  template <access::mode M> auto get_access(handler&) {
    s->used = true; if (M != access::mode::read) s->dirty = true;
    return accessor<T, D, M, access::target::device>(s);
  }
  template <access::mode M> auto get_access() {
    return host_accessor<T>(*this);
  }
  template <typename... X> auto get_host_access(X...) {
    return host_accessor<T>(*this);
  }
private:
  void init(const T* h) {
    if (s->n) std::memcpy(static_cast<void*>(s->ptr),
                          static_cast<const void*>(h), s->n * sizeof(T));
    s->used = true;
  }
};

template <typename T, int D, access::mode M, access::target G,
          access::placeholder P>
class accessor {
public:
  storage<std::remove_const_t<T>>* s = nullptr;
  std::shared_ptr<storage<std::remove_const_t<T>>> hold;
  using value_type = T;
  using reference = std::conditional_t<M == access::mode::read, const T&, T&>;

  accessor() {}
  accessor(const std::shared_ptr<storage<std::remove_const_t<T>>>& p)
    : s(p.get()), hold(p) {}

  accessor(buffer<T, D>& b, handler&, const property_list& pl = {})
    : accessor(b.s) { enter(pl.noinit); }
  template <typename Tag, typename = std::enable_if_t<
            std::is_same<Tag, read_only_tag>::value ||
            std::is_same<Tag, write_only_tag>::value ||
            std::is_same<Tag, read_write_tag>::value>>
  accessor(buffer<T, D>& b, handler&, Tag, const property_list& pl = {})
    : accessor(b.s) { enter(pl.noinit); }

  reference operator[](size_t i) const { return at(i); }
  reference operator[](id<1> i) const { return at(i[0]); }
  size_t size() const { return s->n; }
  size_t get_count() const { return s->n; }
  range<1> get_range() const { return range<1>(s->n); }
  reference at(size_t i) const {
    if (i >= s->n) vsycl::fault("global", i, s->n);
    return s->ptr[i];
  }
  std::add_pointer_t<std::remove_reference_t<reference>> get_pointer() const {
    return s->ptr;
  }
private:
  void enter(bool noinit) {
    if (noinit && s->used && vsycl::config().poison_noinit && s->n)
      vsycl::poison(static_cast<void*>(s->ptr), s->n * sizeof(T));
    s->used = true;
    if (M != access::mode::read) s->dirty = true;
  }
};

template <typename T, int D>
accessor(buffer<T, D>&, handler&, read_only_tag)
  -> accessor<T, D, access::mode::read, access::target::device>;
template <typename T, int D>
accessor(buffer<T, D>&, handler&, read_only_tag, property_list)
  -> accessor<T, D, access::mode::read, access::target::device>;
template <typename T, int D>
accessor(buffer<T, D>&, handler&, write_only_tag)
  -> accessor<T, D, access::mode::write, access::target::device>;
template <typename T, int D, typename P>
accessor(buffer<T, D>&, handler&, write_only_tag, P)
  -> accessor<T, D, access::mode::write, access::target::device>;
template <typename T, int D>
accessor(buffer<T, D>&, handler&, read_write_tag)
  -> accessor<T, D, access::mode::read_write, access::target::device>;
template <typename T, int D, typename P>
accessor(buffer<T, D>&, handler&, read_write_tag, P)
  -> accessor<T, D, access::mode::read_write, access::target::device>;
template <typename T, int D>
accessor(buffer<T, D>&, handler&)
  -> accessor<T, D, access::mode::read_write, access::target::device>;

template <typename T> class host_accessor {
  std::shared_ptr<storage<T>> s;
public:
  host_accessor(buffer<T, 1>& b) : s(b.s) { s->used = true; s->dirty = true; }
  template <typename... X>
  host_accessor(buffer<T, 1>& b, X...) : host_accessor(b) {}
  T& operator[](size_t i) const {
    if (i >= s->n) vsycl::fault("host", i, s->n);
    return s->ptr[i];
  }
  T& operator[](id<1> i) const { return (*this)[size_t(i[0])]; }
  size_t size() const { return s->n; }
  T* begin() const { return s->ptr; }
  T* end() const { return s->ptr + s->n; }
  const T* cbegin() const { return s->ptr; }
  const T* cend() const { return s->ptr + s->n; }
  T* get_pointer() const { return s->ptr; }
};

struct local_base {
  virtual ~local_base() {}
  virtual void fresh() = 0;
};
template <typename T> struct local_store : local_base {
  storage<T> s;
  local_store(size_t n) : s(n) {}
  void fresh() override {
    if (s.n) vsycl::poison(static_cast<void*>(s.ptr), s.n * sizeof(T));
  }
};

template <typename T, int D = 1> class local_accessor {
public:
  std::shared_ptr<local_store<T>> p;
  local_accessor() {}
  local_accessor(range<D> r, handler& h, const property_list& = {});
  T& operator[](size_t i) const {
    if (i >= p->s.n) vsycl::fault("local", i, p->s.n);
    return p->s.ptr[i];
  }
  T& operator[](id<1> i) const { return (*this)[size_t(i[0])]; }
  size_t size() const { return p->s.n; }
  T* get_pointer() const { return p->s.ptr; }
};

class event {
public:
  void wait() {}
  void wait_and_throw() {}
};

class handler {
public:
  std::vector<std::shared_ptr<local_base>> locals;

  template <typename N = void, typename F>
  void single_task(const F& f) { vsycl::config().launches++; fresh(); f(); }

  template <typename N = void, int D, typename F>
  void parallel_for(range<D> r, const F& f) {
    vsycl::config().launches++;
    fresh();
    const size_t n = r.size();
    for (size_t i : vsycl::order(n, vsycl::config().launches)) {
      vsycl::config().items++;
      if constexpr (std::is_invocable<const F&, id<D>>::value) f(id<D>(i));
      else f(item<D>(i, r));
    }
  }

  template <typename N = void, typename F,
            typename I, typename = std::enable_if_t<std::is_integral<I>::value>>
  void parallel_for(I n, const F& f) {
    this->template parallel_for<N>(range<1>(size_t(n)), f);
  }

  template <typename N = void, int D, typename F>
  void parallel_for(nd_range<D> r, const F& f) {
    static_assert(D == 1, "emulation covers one dimension");
    const size_t g = r.get_global_range().size();
    const size_t l = r.get_local_range().size();
    if (l == 0 || l > vsycl::config().max_work_group || g % l != 0)
      throw exception(errc::nd_range,
        "Non-uniform work-groups are not supported by the target device");
    vsycl::config().launches++;
    for (size_t w : vsycl::order(g / l, vsycl::config().launches)) {
      fresh();
      for (size_t i : vsycl::order(l, vsycl::config().launches * 31 + w)) {
        vsycl::config().items++;
        f(nd_item<D>(w * l + i, i, r.get_global_range(), r.get_local_range()));
      }
    }
  }

  template <typename A, typename V> void fill(A a, const V& v) {
    for (size_t i = 0; i < a.size(); i++) a[i] = v;
  }
  template <typename A, typename B> void copy(A a, B b) {
    for (size_t i = 0; i < a.size(); i++) b[i] = a[i];
  }
  template <typename... E> void depends_on(E&&...) {}
private:
  void fresh() { for (auto& l : locals) l->fresh(); }
};

template <typename T, int D>
local_accessor<T, D>::local_accessor(range<D> r, handler& h,
                                     const property_list&)
  : p(std::make_shared<local_store<T>>(r.size())) { h.locals.push_back(p); }

class queue {
  device d;
public:
  queue() : d(vsycl::config().has_gpu) {}
  template <typename... X> explicit queue(const X&...)
    : d(vsycl::config().has_gpu) {}
  device get_device() const { return d; }
  template <typename F> event submit(F f) {
    handler h; f(h); return event();
  }
  void wait() {}
  void wait_and_throw() {}
  void throw_asynchronous() {}
};

#define VS_M1(n) template <typename T> inline T n(T x) { return std::n(x); }
VS_M1(trunc) VS_M1(floor) VS_M1(ceil) VS_M1(sqrt) VS_M1(fabs) VS_M1(round)
VS_M1(rint) VS_M1(sin) VS_M1(cos) VS_M1(exp) VS_M1(log)
#undef VS_M1
template <typename A, typename B> inline auto fmod(A a, B b) {
  using T = std::conditional_t<(sizeof(A) > sizeof(B)), A, B>;
  return std::fmod(static_cast<T>(a), static_cast<T>(b));
}
template <typename A, typename B> inline auto pow(A a, B b) {
  return std::pow(a, b);
}
template <typename T> inline T fmin(T a, T b) { return std::fmin(a, b); }
template <typename T> inline T fmax(T a, T b) { return std::fmax(a, b); }
template <typename T> inline T min(T a, T b) { return b < a ? b : a; }
template <typename T> inline T max(T a, T b) { return a < b ? b : a; }
template <typename T> inline T clamp(T v, T a, T b) {
  return v < a ? a : (b < v ? b : v);
}
template <typename T> inline T abs(T v) { return v < 0 ? -v : v; }
template <typename T> inline T fma(T a, T b, T c) { return std::fma(a, b, c); }

} // inline namespace mock
} // namespace sycl

namespace cl { namespace sycl = ::sycl; }

#endif
