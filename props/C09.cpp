// Shape of the result: one row per point, valid indices, no point its own
// neighbour, no repetition, nearest first, at most k entries, the nearest
// point always there; also for 0, 1 and 2 points, k beyond N and duplicates.
#include "../lib/gen.hpp"
using namespace gen;

template <typename Tf, typename Ti>
static void one(Src& s, Ctx& ctx, int size) {
  Cfg c;
  const int cls = size == 2 ? s.pick({(int)uniform, (int)cluster, (int)dups})
                            : any_class(s);
  int n = size == 3 ? (int)s.range(66000, 69000) : size == 0 ? (int)s.range(0, 4)
              : size == 1 ? count(s, 0, 80, 300)
                          : (int)s.range(700, 4000);
  switch (s.weighted({3, 2, 2, 1})) {
    case 0: c.k = (int)s.range(1, std::max(1, n)); break;
    case 1: c.k = (int)s.range(1, 12); break;
    case 2: c.k = std::max(1, n + (int)s.range(-2, 3)); break;
    default: c.k = (int)s.range(1, 700); break;
  }
  if (size == 2) c.k = s.pick({20, 64, 8, 257, 300, 600, 1500});
  c.gr = size == 2 ? (int)s.range(4, 20) : any_gr(s);
  switch (s.weighted({3, 2, 2, 1})) {
    case 0: break;
    case 1: c.p = 255; c.t = 512; break;
    case 2: c.p = (int)s.range(6, 64); c.t = (int)s.range(8, 128); break;
    default: c.p = (int)s.range(-3, 400); c.t = (int)s.range(-3, 900); break;
  }
  c.threads = any_threads(s, n);
  any_chunking(s, n, c);
  if (size == 3) {
    c.k = (int)s.range(3, 40);
    c.gr = (int)s.range(20, 44);
    c.threads = 8;
    if (c.chunking && c.chunk > 0) c.chunk = std::max(c.chunk, 211);
  }
  c.recompute = s.chance(1, 4) && size < 2;
  const bool gpu = s.chance(1, 5);
#ifndef VERIF_REAL_SYCL
  vsycl::config().has_gpu = gpu && s.chance(1, 2);
#endif
  c.nd = (int)s.range(1, 9);
  const auto in = size == 3 ? crowd<Tf>(s, n) : points<Tf>(s, n, cls);
  n = (int)in.size();
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
    c.str() + (gpu ? " gpu " : " ") + show(in, size > 1 ? 2 : 12);
  ctx.describe(d);
  ctx.label(cname(cls));
  ctx.nontrivial(n >= 2);

  auto x = in;
  std::vector<std::vector<long>> rows;
  {
    Silence q;
    auto r = votess::tesellate<Ti, Tf>(x, gen::args(c), gpu ? votess::device::gpu
                                                       : votess::device::cpu);
    const auto& L = r.list;
    const auto& O = r.offs;
    PBT_CHECK(x.size() == (size_t)n, "the point set now has " << x.size()
              << " points; " << d);
    PBT_CHECK(r.size() == (size_t)n, "size() is " << r.size() << " for " << n
              << " points; " << d);
    PBT_CHECK(O.size() == (size_t)n + 1, O.size() << " offsets for " << n
              << " points; " << d);
    PBT_CHECK(O[0] == 0, "the first offset is " << O[0] << "; " << d);
    for (int i = 0; i < n; i++)
      PBT_CHECK(O[(size_t)i] <= O[(size_t)i + 1], "offsets of row " << i
                << " decrease; " << d);
    PBT_CHECK((size_t)O[(size_t)n] == L.size(), "the last offset is "
              << O[(size_t)n] << ", the list has " << L.size() << "; " << d);
    for (int i = 0; i < n; i++) {
      std::vector<long> v;
      auto p = r[i];
      PBT_CHECK(p.size() == (size_t)(O[(size_t)i + 1] - O[(size_t)i]),
                "row " << i << " gives size " << p.size() << "; " << d);
      for (size_t j = 0; j < p.size(); j++) {
        PBT_CHECK(p[j] == L[(size_t)O[(size_t)i] + j], "entry " << j
                  << " of row " << i << " differs from the list; " << d);
        v.push_back((long)p[j]);
      }
      rows.push_back(v);
    }
  }
  const auto X = up(x);
  const size_t most = c.recompute ? (size_t)std::max(0, n - 1)
                    : (size_t)std::max(0, std::min(c.k, n - 1));
  for (int i = 0; i < n; i++) {
    const auto& v = rows[(size_t)i];
    std::set<long> seen;
    for (long j : v) {
      PBT_CHECK(j >= 0 && j < n, "row " << i << " holds " << j << "; " << d);
      PBT_CHECK(j != i, "row " << i << " holds itself; " << d);
      PBT_CHECK(seen.insert(j).second, "row " << i << " holds " << j
                << " twice: " << list(v) << "; " << d);
    }
    PBT_CHECK(v.size() <= most, "row " << i << " has " << v.size()
              << " entries, at most " << most << " allowed; " << d);
    for (size_t t = 1; t < v.size(); t++) {
      const double a = geom::dist2(X[(size_t)i], X[(size_t)v[t - 1]]);
      const double b = geom::dist2(X[(size_t)i], X[(size_t)v[t]]);
      PBT_CHECK(a <= b || near_tie<Tf>(a, b), "row " << i << " is not nearest"
        " first: " << list(v) << "; " << d);
    }
    if (n >= 2 && (n <= 300 || i % 1999 == 7)) {
      // the midpoint to the nearest point lies on their common face: judge it
      // when it keeps clear of every other bisector and of the walls
      const auto o = geom::by_distance(X, i, 2);
      geom::V m;
      for (size_t q = 0; q < 3; q++)
        m[q] = 0.5 * (X[(size_t)i][q] + X[(size_t)o[0]][q]);
      const double a = std::sqrt(geom::dist2(X[(size_t)i], X[(size_t)o[0]]));
      bool clear = a > 1e3 * FT<Tf>::eps && (c.k >= n - 1 ||
        !near_tie<Tf>(a * a, geom::dist2(X[(size_t)i], X[(size_t)o[1]])));
      for (double w : m)
        clear = clear && std::min(w, 1 - w) > geom::plane_err(FT<Tf>::u, 1);
      for (int j = 0; j < n && clear; j++) if (j != i && j != o[0]) {
        const double len = std::sqrt(geom::dist2(X[(size_t)i], X[(size_t)j]));
        const double gap = (geom::dist2(m, X[(size_t)j]) - a * a / 4) / 2 / len;
        clear = gap > geom::plane_err(FT<Tf>::u, len) +
                      geom::plane_err(FT<Tf>::u, a);
      }
      if (clear && !seen.count(o[0]) &&
          !geom::tame(X, i, geom::by_distance(X, i), FT<Tf>::eps, FT<Tf>::u)) {
        ctx.label("ill-conditioned");
      } else if (clear) {
        ctx.label("nearest-judged");
        PBT_CHECK(seen.count(o[0]), "row " << i << " " << list(v)
          << " lacks the nearest point " << o[0] << "; " << d);
      }
    }
  }
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C09";
  const std::string rule = "0-300 points of 16 classes, any k up to 700 also"
    " beyond N, any grid, capacities also out of range, threads, chunks,"
    " recompute, devices; non-trivial with two points or more";
  p.subs = {
    {"tiny-double", "0-4 points; " + rule,
     [](Src& s, Ctx& c) { one<double, int>(s, c, 0); }, 12000, 200000, 60},
    {"tiny-float", "as tiny-double",
     [](Src& s, Ctx& c) { one<float, int>(s, c, 0); }, 12000, 200000, 60},
    {"double", rule, [](Src& s, Ctx& c) { one<double, int>(s, c, 1); },
     6000, 150000, 60},
    {"float", rule, [](Src& s, Ctx& c) { one<float, int>(s, c, 1); },
     6000, 150000, 60},
    {"wide-index", "64-bit indices; " + rule,
     [](Src& s, Ctx& c) { one<float, int64_t>(s, c, 1); }, 3000, 60000, 60},
    {"large", "700-4000 points; non-trivial always",
     [](Src& s, Ctx& c) { one<float, int>(s, c, 2); }, 120, 3000, 120},
    {"huge", "66000-69000 points; non-trivial always",
     [](Src& s, Ctx& c) { one<float, int>(s, c, 3); }, 6, 60, 300},
  };
  for (auto& s : p.subs) s.deterministic = false;
  return p;
}
PBT_MAIN(make)
