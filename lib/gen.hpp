// Generators of point sets and configurations, and the adapter to the library.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP
#include <cfloat>
#include <iomanip>
#include "pbt.hpp"
#include "geom.hpp"

#ifndef VERIF_NO_LIB
#include <votess.hpp>
#endif

namespace gen {

using pbt::Src;
using pbt::Ctx;

template <typename Tf> using Set = std::vector<std::array<Tf, 3>>;

template <typename Tf> struct FT;
template <> struct FT<float> {
  static constexpr int bits = 24;
  static constexpr double eps = 5.97e-8, u = 1e-5, amin = 1e-6;
  static const char* name() { return "float"; }
};
template <> struct FT<double> {
  static constexpr int bits = 50;
  static constexpr double eps = 1.12e-16, u = 1e-11, amin = 1e-10;
  static const char* name() { return "double"; }
};

enum Class {
  uniform, dyadic, cluster, lattice, jlattice, sphere, line, plane, axis,
  wall, twoscale, dups, fineclus, shell, neardup, ultrafine, nclasses,
  tip = nclasses
};
inline const char* cname(int c) {
  static const char* n[] = {"uniform", "dyadic", "cluster", "lattice",
    "jittered-lattice", "sphere", "line", "plane", "axis", "wall", "two-scale",
    "duplicates", "fine-cluster", "shell", "near-duplicates", "ultrafine",
    "tip"};
  return n[c];
}

template <typename Tf> inline Tf inside(double v) {
  const Tf lo = std::numeric_limits<Tf>::epsilon() / 2;
  const Tf hi = 1 - std::numeric_limits<Tf>::epsilon() / 2;
  Tf x = (Tf)v;
  if (!(x > lo)) x = lo;
  if (x > hi) x = hi;
  return x;
}

// A hub, points on a circle around it and a few beyond them near its axis,
// whose bisectors cut long rims.
template <typename Tf>
inline void wheel(Src& s, int n, const double* c, Set<Tf>& r) {
  auto uni = [&] { return s.unit(FT<Tf>::bits); };
  const double rad = s.real(0.1, 0.2, 20),
               thick = std::ldexp(1.0, -(int)s.range(8, 16)),
               lift = thick * s.pick({0.25, 0.0, 1.0, 16.0}); // else few meet the caps
  const int caps = (int)s.range(1, std::max(1, std::min(12, n / 8)));
  // an orthonormal frame
  const double z = 2 * uni() - 1, a = 6.283185307179586 * uni(),
               q = std::sqrt(1 - z * z);
  const double w[3] = {q * std::cos(a), q * std::sin(a), z};
  const int least = std::fabs(w[0]) < std::fabs(w[1])
    ? (std::fabs(w[0]) < std::fabs(w[2]) ? 0 : 2)
    : (std::fabs(w[1]) < std::fabs(w[2]) ? 1 : 2);
  double u[3] = {-w[0] * w[least], -w[1] * w[least], -w[2] * w[least]};
  u[least] += 1;
  const double l = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]);
  for (auto& e : u) e /= l;
  const double v[3] = {w[1] * u[2] - w[2] * u[1], w[2] * u[0] - w[0] * u[2],
                       w[0] * u[1] - w[1] * u[0]};
  for (int i = 0; i < n; i++) {
    double x = 0, y = 0, h = 0;
    if (i > 0 && i <= caps) { // beyond the circle, on either side
      h = rad * (1.1 + 0.9 * uni()) * (s.chance(1, 2) ? 1 : -1);
      x = rad * 0.2 * (uni() - 0.5);
      y = rad * 0.2 * (uni() - 0.5);
    } else if (i > 0) {
      const double t = 6.283185307179586 * uni(), R = rad * (1 + thick * uni());
      x = R * std::cos(t);
      y = R * std::sin(t);
      h = rad * lift * (uni() - 0.5);
    }
    std::array<Tf, 3> p;
    for (size_t d = 0; d < 3; d++)
      p[d] = inside<Tf>(c[d] + x * u[d] + y * v[d] + h * w[d]);
    r.push_back(p);
  }
}

template <typename Tf> inline std::vector<geom::V> up(const Set<Tf>& x);

// n points of the class; every coordinate strictly inside (0,1).
template <typename Tf>
inline Set<Tf> points(Src& s, int n, int cls) {
  constexpr int B = FT<Tf>::bits;
  Set<Tf> r;
  r.reserve((size_t)n);
  auto uni = [&] { return s.unit(B); };
  switch (cls) {
    case dyadic: {
      const int b = (int)s.range(1, 4);
      for (int i = 0; i < n; i++)
        r.push_back({inside<Tf>(s.unit(b)), inside<Tf>(s.unit(b)),
                     inside<Tf>(s.unit(b))});
      break;
    }
    case cluster: case fineclus: case twoscale: case ultrafine: {
      const int nc = (int)s.range(1, cls == twoscale ? 2 : 5);
      std::vector<std::array<double, 3>> c;
      std::vector<double> w;
      for (int i = 0; i < nc; i++) {
        c.push_back({uni(), uni(), uni()});
        w.push_back(std::ldexp(1.0, -(int)(cls == fineclus ? s.range(7, 12)
          : cls == ultrafine ? s.range(12, sizeof(Tf) == 4 ? 17 : 26)
          : s.range(2, 6))));
      }
      for (int i = 0; i < n; i++) {
        if (cls == twoscale && s.chance(1, 2)) {
          r.push_back({inside<Tf>(uni()), inside<Tf>(uni()),
                       inside<Tf>(uni())});
          continue;
        }
        const size_t q = s.u((uint64_t)nc);
        std::array<Tf, 3> p;
        for (size_t d = 0; d < 3; d++) {
          double v = c[q][d] + w[q] * (uni() - 0.5);
          if (v <= 0) v = -v;
          if (v >= 1) v = 2 - v;
          p[d] = inside<Tf>(v);
        }
        r.push_back(p);
      }
      break;
    }
    case lattice: case jlattice: {
      int m = 1;
      while (m * m * m < n) m++;
      for (int i = 0; i < n; i++) {
        const int q[3] = {i % m, i / m % m, i / m / m};
        std::array<Tf, 3> p;
        for (size_t d = 0; d < 3; d++) {
          double v = (q[d] + 0.5) / m;
          if (cls == jlattice) v += (uni() - 0.5) * 0.6 / m;
          p[d] = inside<Tf>(v);
        }
        r.push_back(p);
      }
      break;
    }
    case sphere: {
      const double rad = s.real(0.1, 0.45, 20);
      const bool centre = s.chance(1, 2);
      for (int i = 0; i < n; i++) {
        if (i == 0 && centre) { r.push_back({(Tf)0.5, (Tf)0.5, (Tf)0.5});
                                continue; }
        const double z = 2 * uni() - 1, a = 6.283185307179586 * uni();
        const double q = std::sqrt(1 - z * z);
        r.push_back({inside<Tf>(0.5 + rad * q * std::cos(a)),
                     inside<Tf>(0.5 + rad * q * std::sin(a)),
                     inside<Tf>(0.5 + rad * z)});
      }
      break;
    }
    case tip: { // the last neighbour of the first barely cuts off its farthest
                // vertex, and a point nearly as far comes just before it
      using geom::operator+; using geom::operator-; using geom::operator*;
      const double w = s.pick({0.35, 0.5, 0.2, 0.05});
      const std::array<double, 3> c{0.45 + 0.1 * uni(), 0.45 + 0.1 * uni(),
                                    0.45 + 0.1 * uni()};
      const int m = std::max(1, n - 1 - (int)s.range(1, 5));
      r.push_back({inside<Tf>(c[0]), inside<Tf>(c[1]), inside<Tf>(c[2])});
      for (int i = 1; i < m; i++)
        r.push_back({inside<Tf>(c[0] + w * (uni() - 0.5)),
                     inside<Tf>(c[1] + w * (uni() - 0.5)),
                     inside<Tf>(c[2] + w * (uni() - 0.5))});
      const auto x = up(r);
      const auto e = geom::exact_cell(x, 0, geom::by_distance(x, 0),
                                      FT<Tf>::eps, 1 << 30, 1 << 30, false);
      const auto v = e.far - x[0];
      double R = geom::norm(v);
      if (R == 0) R = 0.1;
      const double del = std::ldexp(1.0, -(int)s.range(3, sizeof(Tf) == 4 ? 11 : 22));
      auto put = [&](const geom::V& q) {
        for (int d = 0; d < 3; d++) if (!(q[d] > 0 && q[d] < 1)) {
          r.push_back({inside<Tf>(uni()), inside<Tf>(uni()), inside<Tf>(uni())});
          return;
        }
        r.push_back({inside<Tf>(q[0]), inside<Tf>(q[1]), inside<Tf>(q[2])});
      };
      if ((int)r.size() < n) put(x[0] + (2 * (1 - del)) * v);
      while ((int)r.size() < n) {
        geom::V g{uni() - 0.5, uni() - 0.5, uni() - 0.5};
        const double l = geom::norm(g);
        if (l == 0) g = geom::V{1, 0, 0};
        put(x[0] + (2 * R * (1 - del * (1 + 2 * uni())) / (l == 0 ? 1 : l)) * g);
      }
      break;
    }
    case shell: { // a centre whose cell has many faces; the rest in a thick shell
      const double rad = s.real(0.1, 0.4, 20),
                   thick = std::ldexp(1.0, -(int)s.range(3, 9));
      const double c[3] = {0.5 + 0.1 * (uni() - 0.5), 0.5 + 0.1 * (uni() - 0.5),
                           0.5 + 0.1 * (uni() - 0.5)};
      if (s.chance(1, 3)) { // or a wheel: faces with many edges at the hub
        wheel(s, n, c, r);
        break;
      }
      for (int i = 0; i < n; i++) {
        if (i == 0) { r.push_back({inside<Tf>(c[0]), inside<Tf>(c[1]),
                                   inside<Tf>(c[2])}); continue; }
        const double z = 2 * uni() - 1, a = 6.283185307179586 * uni();
        const double q = std::sqrt(1 - z * z), R = rad * (1 + thick * uni());
        r.push_back({inside<Tf>(c[0] + R * q * std::cos(a)),
                     inside<Tf>(c[1] + R * q * std::sin(a)),
                     inside<Tf>(c[2] + R * z)});
      }
      break;
    }
    case line: {
      const double a[3] = {uni(), uni(), uni()}, b[3] = {uni(), uni(), uni()};
      for (int i = 0; i < n; i++) {
        const double t = uni();
        r.push_back({inside<Tf>(a[0] + t * (b[0] - a[0])),
                     inside<Tf>(a[1] + t * (b[1] - a[1])),
                     inside<Tf>(a[2] + t * (b[2] - a[2]))});
      }
      break;
    }
    case plane: {
      const size_t d = s.u(3);
      const Tf v = inside<Tf>(uni());
      for (int i = 0; i < n; i++) {
        std::array<Tf, 3> p{inside<Tf>(uni()), inside<Tf>(uni()),
                            inside<Tf>(uni())};
        p[d] = v;
        r.push_back(p);
      }
      break;
    }
    case axis: {
      const size_t d = s.u(3);
      const std::array<Tf, 3> o{inside<Tf>(uni()), inside<Tf>(uni()),
                                inside<Tf>(uni())};
      for (int i = 0; i < n; i++) {
        auto p = o;
        p[d] = inside<Tf>(uni());
        r.push_back(p);
      }
      break;
    }
    case wall: {
      for (int i = 0; i < n; i++) {
        std::array<Tf, 3> p;
        for (size_t d = 0; d < 3; d++) {
          switch (s.u(6)) {
            case 0: case 1: p[d] = inside<Tf>(uni()); break;
            case 2: p[d] = inside<Tf>(uni() * 1e-4); break;
            case 3: p[d] = inside<Tf>(1 - uni() * 1e-4); break;
            case 4: p[d] = inside<Tf>((double)s.range(1, 31) / 32); break;
            default: p[d] = inside<Tf>(s.chance(1, 2) ? 1.0 : 0.0); break;
          }
        }
        r.push_back(p);
      }
      break;
    }
    case dups: {
      for (int i = 0; i < n; i++) {
        if (i > 0 && s.chance(1, 4)) { r.push_back(r[s.u((uint64_t)i)]);
                                       continue; }
        r.push_back({inside<Tf>(uni()), inside<Tf>(uni()), inside<Tf>(uni())});
      }
      break;
    }
    case neardup: { // some a few units in the last place from another
      for (int i = 0; i < n; i++) {
        std::array<Tf, 3> p{inside<Tf>(uni()), inside<Tf>(uni()),
                            inside<Tf>(uni())};
        if (i > 0 && s.chance(1, 3)) {
          p = r[s.u((uint64_t)i)];
          for (auto& v : p) {
            const int ulp = (int)s.range(-2, 2);
            for (int t = 0; t < std::abs(ulp); t++)
              v = std::nextafter(v, (Tf)(ulp > 0 ? 2 : -1));
            v = inside<Tf>(v);
          }
        }
        r.push_back(p);
      }
      break;
    }
    default:
      for (int i = 0; i < n; i++)
        r.push_back({inside<Tf>(uni()), inside<Tf>(uni()), inside<Tf>(uni())});
  }
  return r;
}

template <typename Tf> inline Set<Tf> distinct(const Set<Tf>& x);
// A great many points from few draws: uniform, thinning out from a centre, or
// half of them in a corner.
template <typename Tf> inline Set<Tf> crowd(Src& s, int n, int which = -1) {
  uint64_t z = s.u(uint64_t(1) << 40);
  const int shape = which >= 0 ? which : (int)s.u(3);
  auto uni = [&] { z = pbt::mix64(z + 1); return (double)(z >> 14) /
                                                 1125899906842624.0; };
  const double c[3] = {0.2 + 0.6 * uni(), 0.2 + 0.6 * uni(), 0.2 + 0.6 * uni()};
  Set<Tf> r;
  r.reserve((size_t)n);
  for (int i = 0; i < n; i++) {
    std::array<Tf, 3> p;
    const double w = std::pow(10, -1.5 * uni());
    const bool corner = shape == 2 && uni() < 0.5;
    for (size_t d = 0; d < 3; d++) {
      double v = uni();
      if (shape == 1) v = c[d] + (v - 0.5) * 0.38 * w;
      if (corner) v = 0.3 * v;
      p[d] = inside<Tf>(v);
    }
    r.push_back(p);
  }
  return distinct(r);
}

// Removes exact duplicates, keeping the order of first occurrences.
template <typename Tf> inline Set<Tf> distinct(const Set<Tf>& x) {
  std::set<std::array<Tf, 3>> seen;
  Set<Tf> r;
  for (auto& p : x) if (seen.insert(p).second) r.push_back(p);
  return r;
}

// any class
inline int any_class(Src& s) {
  return (int)s.weighted({6, 2, 3, 1, 3, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1});
}
// continuous distributions: in general position with probability one
inline int generic_class(Src& s) {
  switch (s.weighted({6, 3, 3, 2, 1, 1})) {
    case 0: return uniform;
    case 1: return cluster;
    case 2: return jlattice;
    case 3: return twoscale;
    case 4: return fineclus;
    default: return ultrafine;
  }
}

inline int count(Src& s, int lo, int mid, int hi) {
  // mostly small sets, sometimes hi
  switch (s.weighted({5, 4, 1})) {
    case 0: return (int)s.range(lo, std::min(hi, lo + 12));
    case 1: return (int)s.range(lo, mid);
    default: return (int)s.range(mid, hi);
  }
}

struct Cfg {
  int k = 64, gr = 16, threads = 1, p = 32, t = 32, chunk = 8196, nd = 1;
  bool chunking = false, recompute = false, suppress = true, gpu = false;
  std::string str() const {
    std::ostringstream o;
    o << "k=" << k << " gr=" << gr << " threads=" << threads << " p=" << p
      << " t=" << t;
    if (chunking) o << " chunk=" << chunk;
    if (recompute) o << " recompute";
    if (nd != 1) o << " nd=" << nd;
    if (gpu) o << " device";
    return o.str();
  }
};

inline int any_gr(Src& s) {
  // the search visits every cell when k asks for all points: cost ~ gr^3
  switch (s.weighted({12, 20, 8, 1})) {
    case 0: return (int)s.range(1, 4);
    case 1: return (int)s.range(2, 17);
    case 2: return (int)s.range(14, 31);
    default: return (int)s.range(32, 70);
  }
}
// now and then the (emulated) device
inline void any_device(Src& s, Cfg& c, unsigned of = 7) {
  if (!s.chance(1, of)) return;
  c.gpu = true;
  c.nd = s.chance(1, 2) ? s.pick({1, 8, 32, 64}) : (int)s.range(1, 40);
}
inline int any_threads(Src& s, int n) {
  switch (s.weighted({16, 16, 4, 4, 1})) {
    case 0: return 1;
    case 1: return (int)s.range(2, 8);
    case 2: return (int)s.range(1, 40);
    case 4: return s.pick({65, 127, 128, 129, 200, 255, 256, 257, 300});
    default: return std::max(1, std::min(64, n + (int)s.range(-1, 2)));
  }
}
inline void any_chunking(Src& s, int n, Cfg& c) {
  if (!s.chance(1, 2)) return;
  c.chunking = true;
  switch (s.weighted({3, 2, 2, 1, 1})) {
    case 0: c.chunk = (int)s.range(1, std::max(1, n)); break;
    case 1: c.chunk = std::max(1, n / (int)s.range(1, 7)); break;
    case 2: c.chunk = std::max(1, n + (int)s.range(-2, 2)); break;
    case 3: c.chunk = (int)s.range(1, 3); break;
    default: c.chunk = s.pick({8196, 0, -1, n + 100}); break;
  }
}

template <typename Tf>
inline std::string show(const Set<Tf>& x, size_t most = 12) {
  std::ostringstream o;
  o << std::setprecision(sizeof(Tf) == 4 ? 9 : 17) << "N=" << x.size() << " {";
  for (size_t i = 0; i < std::min(most, x.size()); i++)
    o << (i ? "," : "") << "(" << x[i][0] << "," << x[i][1] << "," << x[i][2]
      << ")";
  if (x.size() > most) o << ",...";
  o << "}";
  return o.str();
}

template <typename Tf> inline std::vector<geom::V> up(const Set<Tf>& x) {
  std::vector<geom::V> r;
  r.reserve(x.size());
  for (auto& p : x) r.push_back({(double)p[0], (double)p[1], (double)p[2]});
  return r;
}

#ifndef VERIF_NO_LIB

inline votess::vtargs args(const Cfg& c) {
  votess::vtargs a;
  a["k"] = c.k;
  a["knn_grid_resolution"] = c.gr;
  a["cpu_nthreads"] = c.threads;
  a["gpu_ndsize"] = c.nd;
  a["cc_p_maxsize"] = c.p;
  a["cc_t_maxsize"] = c.t;
  a["use_chunking"] = c.chunking;
  a["chunksize"] = c.chunk;
  a["use_recompute"] = c.recompute;
  a["dev_suppress_stdout"] = c.suppress;
  return a;
}

using Rows = std::vector<std::vector<long>>;

struct Silence { // std::cout / std::cerr captured in memory
  std::ostringstream out, err;
  std::streambuf *a, *b;
  Silence() : a(std::cout.rdbuf(out.rdbuf())), b(std::cerr.rdbuf(err.rdbuf())) {}
  ~Silence() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};

// The rows of the result, read through the public accessors.
template <typename D> inline Rows rows_of(D& d) {
  Rows r(d.size());
  for (size_t i = 0; i < r.size(); i++) {
    auto q = d[(int)i];
    const size_t m = q.size();
    PBT_CHECK(m <= d.list.size(), "row " << i << " claims " << m
              << " entries of " << d.list.size());
    r[i].resize(m);
    for (size_t j = 0; j < m; j++) r[i][j] = (long)q[j];
  }
  return r;
}

template <typename Tf> struct Run {
  Set<Tf> x;        // as the library left it: rows refer to this order
  Rows rows;
  std::string out, err;
};

template <typename Tf, typename Ti = int>
inline Run<Tf> run(const Set<Tf>& in, const Cfg& c,
                   votess::device dev = votess::device::cpu) {
  Run<Tf> r;
  r.x = in;
  Silence q;
  if (c.gpu) {
#ifndef VERIF_REAL_SYCL
    vsycl::config().has_gpu = true;
#endif
    dev = votess::device::gpu;
  }
  auto d = votess::tesellate<Ti, Tf>(r.x, args(c), dev);
  r.rows = rows_of(d);
  r.out = q.out.str();
  r.err = q.err.str();
  return r;
}

// Basic shape needed before rows may be indexed with.
template <typename Tf> inline void well_formed(const Run<Tf>& r, size_t n) {
  PBT_CHECK(r.x.size() == n, "point set changed size: " << r.x.size());
  PBT_CHECK(r.rows.size() == n, "result has " << r.rows.size()
            << " rows for " << n << " points");
  for (size_t i = 0; i < n; i++) for (long j : r.rows[i])
    PBT_CHECK(j >= 0 && (size_t)j < n, "row " << i << " holds index " << j
              << " of " << n << " points");
}

// where a point of the input is now
template <typename Tf>
inline int where(const Run<Tf>& r, const std::array<Tf, 3>& p) {
  for (size_t i = 0; i < r.x.size(); i++) if (r.x[i] == p) return (int)i;
  return 0;
}

// For distinct points: the rows in terms of the caller's order, as sets.
template <typename Tf>
inline std::vector<std::vector<int>> by_input(const Set<Tf>& in,
                                              const Run<Tf>& r,
                                              bool keep_order = false) {
  well_formed(r, in.size());
  std::map<std::array<Tf, 3>, int> at;
  for (size_t i = 0; i < in.size(); i++) at[in[i]] = (int)i;
  std::vector<int> m(in.size());
  for (size_t i = 0; i < in.size(); i++) {
    auto it = at.find(r.x[i]);
    PBT_CHECK(it != at.end(), "point " << i << " of the result is not in the"
              " input");
    m[i] = it->second;
  }
  std::vector<std::vector<int>> o(in.size());
  for (size_t i = 0; i < in.size(); i++) {
    auto& v = o[(size_t)m[i]];
    for (long j : r.rows[i]) v.push_back(m[(size_t)j]);
    if (!keep_order) std::sort(v.begin(), v.end());
  }
  return o;
}

template <typename It> inline std::string list(const It& v) {
  std::ostringstream o;
  o << "[";
  bool f = true;
  for (auto x : v) { o << (f ? "" : ",") << x; f = false; }
  o << "]";
  return o.str();
}

// The library's squared distance, in its type and order of evaluation.
template <typename Tf>
inline Tf dist(const std::array<Tf, 3>& a, const std::array<Tf, 3>& b) {
  volatile Tf x = a[0] - b[0], y = a[1] - b[1], z = a[2] - b[2];
  volatile Tf xx = x * x, yy = y * y, zz = z * z;
  volatile Tf s = xx + yy;
  return s + zz;
}

// Squared distances too close for the tested type to tell apart: rounding of
// the distance itself, and of a coordinate next to a wall of the grid.
template <typename Tf> inline bool near_tie(double a, double b) {
  const double m = std::max(a, b);
  return std::fabs(a - b) <= 32 * FT<Tf>::eps * (m + std::sqrt(m));
}

// True when the distances from i order the other points beyond doubt (no two
// within rounding), at least for the first m of them and the next.
template <typename Tf>
inline bool clear_order(const std::vector<geom::V>& x, int i,
                        const std::vector<int>& o, size_t m) {
  for (size_t t = 1; t < std::min(o.size(), m + 1); t++) {
    const double a = geom::dist2(x[(size_t)i], x[(size_t)o[t - 1]]);
    const double b = geom::dist2(x[(size_t)i], x[(size_t)o[t]]);
    if (near_tie<Tf>(a, b)) return false;
  }
  return true;
}

// Distances decided beyond doubt at the k-th place only.
template <typename Tf>
inline bool clear_cut(const std::vector<geom::V>& x, int i,
                      const std::vector<int>& o, size_t k) {
  if (k >= o.size()) return true;
  const double a = geom::dist2(x[(size_t)i], x[(size_t)o[k - 1]]);
  const double b = geom::dist2(x[(size_t)i], x[(size_t)o[k]]);
  return !near_tie<Tf>(a, b);
}

struct Summary { long sr = -1, p = -1, t = -1, inf = -1, nv = -1, nn = -1,
                 err = -1; };
inline Summary parse_summary(const std::string& out) {
  Summary s;
  auto get = [&](const char* key, long& v) {
    const size_t a = out.rfind(key);
    if (a == std::string::npos) return;
    size_t b = a + std::strlen(key);
    while (b < out.size() && (out[b] == ' ' || out[b] == ':')) b++;
    v = std::strtol(out.c_str() + b, nullptr, 10);
  };
  get("sradius", s.sr);
  get("p overflow", s.p);
  get("t overflow", s.t);
  get("inf boundary", s.inf);
  get("nvalid vertice", s.nv);
  get("nvalid neighbor", s.nn);
  get("nerrors", s.err);
  return s;
}
#endif

} // namespace gen
#endif
