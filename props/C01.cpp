// Completeness: no true Voronoi neighbour among the k nearest is missing.
#include "../lib/gen.hpp"
using namespace gen;

template <typename Tf>
static void check_cells(const Run<Tf>& r, const std::vector<int>& cells,
                        const Cfg& c, Ctx& ctx, const std::string& d) {
  const auto x = up(r.x);
  const size_t n = x.size();
  for (int i : cells) {
    const auto o = geom::by_distance(x, i);
    const size_t k = (size_t)std::min<long>(c.k, (long)n - 1);
    const auto f = geom::classify(x, i, o, FT<Tf>::u, FT<Tf>::amin);
    const std::set<long> row(r.rows[(size_t)i].begin(), r.rows[(size_t)i].end());
    const double lim = k < o.size() ? geom::dist2(x[(size_t)i],
                         x[(size_t)o[k]]) * (1 - 32 * FT<Tf>::eps) : 1e9;
    size_t must = 0;
    for (size_t t = 0; t < o.size(); t++) {
      if (f[t] != geom::Face::must) continue;
      // with recompute the search widens until the cell is closed
      if (!c.recompute && (t >= k ||
          geom::dist2(x[(size_t)i], x[(size_t)o[t]]) >= lim)) continue;
      must++;
      if (!row.count(o[t]) &&
          !geom::tame(x, i, o, FT<Tf>::eps, FT<Tf>::u)) {
        ctx.label("ill-conditioned");
        break;
      }
      PBT_CHECK(row.count(o[t]), "row " << i << " lacks point " << o[t]
        << ", whose cell shares a face with it (neighbour no. " << t + 1
        << " by distance); row " << list(r.rows[(size_t)i]) << "; " << d);
    }
    ctx.label("cells");
    ctx.label("must-faces", must);
    if (must >= 3) ctx.nontrivial();
  }
}

template <typename Tf>
static void small(Src& s, Ctx& ctx, int lo, int mid, int hi, int only = -1) {
  Cfg c;
  const int cls = only >= 0 ? only : any_class(s);
  const int n = only >= 0 ? (int)s.range(mid, hi) : count(s, lo, mid, hi);
  switch (s.weighted({4, 3, 1})) {
    case 0: c.k = std::max(1, n - 1); break;
    case 1: c.k = (int)s.range(1, std::max(1, n - 1)); break;
    default: c.k = n + (int)s.range(0, 70); break;
  }
  c.gr = any_gr(s);
  switch (s.weighted({4, 2, 2})) {
    case 0: c.p = 255; c.t = 512; break;
    case 1: break;
    default: c.p = (int)s.range(6, 255); c.t = (int)s.range(8, 300); break;
  }
  c.threads = s.chance(1, 3) ? any_threads(s, n) : 1;
  if (s.chance(1, 4)) any_chunking(s, n, c);
  c.recompute = s.chance(1, 5);
  any_device(s, c);
  const auto in = points<Tf>(s, n, cls);
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
                        c.str() + " " + show(in);
  ctx.describe(d);
  ctx.label(cname(cls));
  const auto r = run<Tf>(in, c);
  well_formed(r, in.size());
  std::vector<int> cells;
  if (n <= 60) for (int i = 0; i < n; i++) cells.push_back(i);
  else for (int i = 0; i < 40; i++) cells.push_back((int)s.u((uint64_t)n));
  if (n) cells.push_back(where(r, in[0]));
  check_cells(r, cells, c, ctx, d);
}

template <typename Tf>
static void large(Src& s, Ctx& ctx) {
  Cfg c;
  const int cls = s.pick({(int)uniform, (int)jlattice, (int)cluster,
                          (int)twoscale, (int)plane});
  const int n = (int)s.pick({1500, 300, 5000, 2500, 700}) + (int)s.range(0, 97);
  c.k = s.pick({64, 20, 128, 260, 40});
  c.gr = s.pick({16, 8, 24, 41, 5, 12});
  c.p = s.pick({64, 32, 255});
  c.t = s.pick({128, 32, 512});
  c.threads = (int)s.range(1, 6);
  if (s.chance(1, 2)) { c.chunking = true; c.chunk = (int)s.range(100, n); }
  c.recompute = s.chance(1, 3) && cls != plane; // open cells: quadratic
  any_device(s, c, 10);
  const auto in = points<Tf>(s, n, cls);
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
                        c.str() + " " + show(in, 2);
  ctx.describe(d);
  ctx.label(cname(cls));
  const auto r = run<Tf>(in, c);
  well_formed(r, in.size());
  std::vector<int> cells;
  for (int i = 0; i < 24; i++) cells.push_back((int)s.u((uint64_t)n));
  cells.push_back(0);
  cells.push_back(n - 1);
  if (c.chunking && c.chunk < n) cells.push_back(c.chunk), cells.push_back(c.chunk - 1);
  check_cells(r, cells, c, ctx, d);
}

// more points than 16 bits can number
static void huge(Src& s, Ctx& ctx) {
  Cfg c;
  const int n = 66000 + (int)s.range(0, 3000);
  c.k = s.pick({48, 32});
  c.gr = s.pick({24, 41, 16});
  c.p = 64; c.t = 128;
  c.threads = 2;
  Set<float> in;
  uint64_t z = s.u(uint64_t(1) << 40);
  for (int i = 0; i < n; i++) {
    std::array<float, 3> p;
    for (auto& v : p) {
      z = pbt::mix64(z + 1);
      v = inside<float>((double)(z >> 40) / 16777216.0);
    }
    in.push_back(p);
  }
  const std::string d = "uniform float " + c.str() + " " + show(in, 2);
  ctx.describe(d);
  const auto r = run<float>(in, c);
  well_formed(r, in.size());
  std::vector<int> cells{0, n - 1, 65535, 65536, 65537};
  for (int i = 0; i < 24; i++) cells.push_back((int)s.u((uint64_t)n));
  check_cells(r, cells, c, ctx, d);
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C01";
  const std::string rule = "point sets of 16 classes, any k, grid, capacities,"
    " threads, chunks, recompute; a case is non-trivial when some cell has at"
    " least 3 faces that are certain to exist";
  p.subs = {
    {"double", rule, [](Src& s, Ctx& c) { small<double>(s, c, 2, 60, 200); },
     6000, 150000, 60},
    {"float", rule, [](Src& s, Ctx& c) { small<float>(s, c, 2, 60, 200); },
     6000, 150000, 60},
    {"tip-double", "5-90 points; the last neighbour of one of them barely cuts"
     " off the farthest vertex of its cell, just after others as far that do"
     " not; non-trivial as above",
     [](Src& s, Ctx& c) { small<double>(s, c, 2, 5, 90, tip); },
     3000, 60000, 60},
    {"tip-float", "as tip-double",
     [](Src& s, Ctx& c) { small<float>(s, c, 2, 5, 90, tip); },
     3000, 60000, 60},
    {"big-cells", "100-245 points around a centre whose cell has up to 244 faces"
     " and 484 vertices; non-trivial as above",
     [](Src& s, Ctx& c) { small<double>(s, c, 2, 100, 245, shell); },
     600, 10000, 60},
    {"large-double", "300-5100 points, 28 sampled cells; non-trivial as above",
     large<double>, 60, 2000, 120},
    {"large-float", "as large-double", large<float>, 60, 2000, 120},
    {"huge", "66000-69000 points, cells around index 65536 and 24 others; "
     "non-trivial as above", huge, 3, 24, 300},
  };
  p.assumptions = {"a face counts when it keeps an area above 1e-10 (float"
    " 1e-6) after all planes move by the rounding error of the tested type"};
  return p;
}
PBT_MAIN(make)
