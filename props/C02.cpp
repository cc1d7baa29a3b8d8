// Soundness: in general position, with room enough, a row is exactly the set
// of faces of the cell cut by the k nearest points; nothing spurious.
#include "../lib/gen.hpp"
using namespace gen;

template <typename Tf>
static void one(Src& s, Ctx& ctx, int lo, int mid, int hi, int big,
                int only = -1) {
  Cfg c;
  const int cls = only >= 0 ? only : generic_class(s);
  int n = only >= 0 ? (int)s.range(mid, hi) : big ? (int)s.range(lo, hi) : count(s, lo, mid, hi);
  if (big) c.k = big == 2 ? (int)s.range(24, 50) : s.pick({64, 100, 200, 30, 260, 300});
  else switch (s.weighted({4, 3, 1})) {
    case 0: c.k = std::max(1, n - 1); break;
    case 1: c.k = (int)s.range(1, std::max(1, n - 1)); break;
    default: c.k = n + (int)s.range(0, 70); break;
  }
  c.gr = any_gr(s);
  switch (s.weighted({4, 2, 2})) {
    case 0: c.p = 255; c.t = 512; break;
    case 1: c.p = 64; c.t = 96; break;
    default: c.p = (int)s.range(20, 300); c.t = (int)s.range(30, 600); break;
  }
  c.threads = s.chance(1, 3) ? any_threads(s, n) : 1;
  if (s.chance(1, 4)) any_chunking(s, n, c);
  any_device(s, c);
  if (big == 2) { c.gr = (int)s.range(16, 44); c.threads = 8; }
  const auto in = big == 2 ? crowd<Tf>(s, n) : points<Tf>(s, n, cls);
  n = (int)in.size();
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
                        c.str() + " " + show(in, big ? 2 : 12);
  ctx.describe(d);
  ctx.label(cname(cls));
  const auto r = run<Tf>(in, c);
  well_formed(r, in.size());
  const auto x = up(r.x);
  std::vector<int> cells;
  if (n <= 80) for (int i = 0; i < n; i++) cells.push_back(i);
  else for (int i = 0; i < 50; i++) cells.push_back((int)s.u((uint64_t)n));
  if (big == 2) for (int i = 65533; i < 65540; i++) cells.push_back(i);
  if (n) cells.push_back(where(r, in[0]));
  const int pm = std::min(255, std::max(6, c.p));
  const int tm = std::min(512, std::max(8, c.t));
  for (int i : cells) {
    const size_t k = (size_t)std::min<long>(c.k, n - 1);
    auto o = geom::by_distance(x, i, k + 1);
    ctx.label("cells");
    if (!clear_order<Tf>(x, i, o, k)) { ctx.label("tied"); continue; }
    if (o.size() > k) o.resize(k);
    const auto e = geom::exact_cell(x, i, o, FT<Tf>::eps, pm, tm);
    if (!e.certain || e.over || (!e.sr_certain && k < (size_t)n - 1)) {
      ctx.label(e.over ? "no-room" : "uncertain");
      continue;
    }
    ctx.label("decided");
    if (e.vmax > 255) ctx.label("over-255-vertices");
    std::set<long> want(e.faces.begin(), e.faces.end());
    std::set<long> got(r.rows[(size_t)i].begin(), r.rows[(size_t)i].end());
    if (want.size() < k) ctx.nontrivial();
    for (long j : got) PBT_CHECK(want.count(j), "row " << i << " holds point "
      << j << ", which has no face with it; row " << list(r.rows[(size_t)i])
      << " faces " << list(want) << "; " << d);
    for (long j : want) PBT_CHECK(got.count(j), "row " << i << " lacks point "
      << j << "; row " << list(r.rows[(size_t)i]) << " faces " << list(want)
      << "; " << d);
  }
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C02";
  const std::string rule = "continuous point sets (uniform, clusters, jittered"
    " lattice, two scales), any k, grid, roomy capacities; only cells all of"
    " whose decisions clear the rounding error are judged; non-trivial when a"
    " judged cell has fewer faces than candidates";
  p.subs = {
    {"double", rule, [](Src& s, Ctx& c) { one<double>(s, c, 2, 70, 250, 0); },
     15000, 300000, 60},
    {"float", rule, [](Src& s, Ctx& c) { one<float>(s, c, 2, 70, 250, 0); },
     15000, 300000, 60},
    {"big-cells", "100-245 points around a centre whose cell has up to 244 faces"
     " and 484 vertices; non-trivial as above",
     [](Src& s, Ctx& c) { one<double>(s, c, 2, 100, 245, 0, shell); },
     900, 15000, 60},
    {"tip-double", "5-90 points; the last neighbour of one of them barely cuts"
     " off the farthest vertex of its cell, just after others as far that do"
     " not; non-trivial as above",
     [](Src& s, Ctx& c) { one<double>(s, c, 2, 5, 90, 0, tip); },
     4000, 80000, 60},
    {"tip-float", "as tip-double",
     [](Src& s, Ctx& c) { one<float>(s, c, 2, 5, 90, 0, tip); },
     4000, 80000, 60},
    {"large-double", "300-4000 points, 50 sampled cells; non-trivial as above",
     [](Src& s, Ctx& c) { one<double>(s, c, 300, 0, 4000, 1); }, 120, 4000, 120},
    {"large-float", "as large-double",
     [](Src& s, Ctx& c) { one<float>(s, c, 300, 0, 4000, 1); }, 120, 4000, 120},
    {"huge", "66000-69000 points, cells around index 65536 and 51 others;"
     " non-trivial as above",
     [](Src& s, Ctx& c) { one<double>(s, c, 66000, 0, 69000, 2); }, 4, 60, 300},
  };
  p.assumptions = {"rounding bound of 12 units of rounding times the conditioning of each"
    " vertex; cells with a decision inside the bound are not judged"};
  return p;
}
PBT_MAIN(make)
