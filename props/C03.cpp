// Symmetry: being a neighbour is mutual.
#include "../lib/gen.hpp"
using namespace gen;

template <typename Tf>
static void one(Src& s, Ctx& ctx, int big) {
  Cfg c;
  const int cls = big == 3 ? (int)shell : big ? generic_class(s) : any_class(s);
  int n;
  if (big == 3) {
    n = (int)s.range(100, 249);
    c.k = s.chance(1, 2) ? n - 1 : (int)s.range(n, n + 30);
    c.p = 255;
    c.t = 512;
  } else if (big) {
    n = big == 2 ? (int)s.range(66000, 69000) : (int)s.range(250, 3000);
    c.k = big == 2 ? (int)s.range(40, 60) : s.pick({128, 64, 200, 260});
    c.p = s.pick({96, 128, 255});
    c.t = s.pick({192, 256, 512});
  } else {
    n = count(s, 2, 120, 249);
    c.p = 255;
    c.t = 512;
    c.k = s.chance(3, 4) ? std::max(1, n - 1) : (int)s.range(1, n + 30);
  }
  c.gr = any_gr(s);
  c.threads = any_threads(s, n);
  any_chunking(s, n, c);
  if (big && c.chunking && c.chunk > 0) c.chunk = std::max(c.chunk, 37);
  c.recompute = s.chance(1, 3);
  any_device(s, c);
  if (big == 2) {
    c.gr = (int)s.range(16, 44);
    c.threads = 8;
    c.chunking = false;
    c.recompute = s.chance(1, 2);
  }
  const auto in = big == 2 ? crowd<Tf>(s, n, c.recompute ? 0 : -1)
                           : points<Tf>(s, n, cls);
  n = (int)in.size();
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
                        c.str() + " " + show(in, big ? 2 : 12);
  ctx.describe(d);
  ctx.label(cname(cls));
  const auto r = run<Tf>(in, c);
  well_formed(r, in.size());
  const auto x = up(r.x);
  std::vector<std::set<long>> R;
  for (auto& v : r.rows) R.push_back(std::set<long>(v.begin(), v.end()));
  size_t pairs = 0, asked = 0;
  std::vector<std::pair<int, long>> single;
  for (int i = 0; i < n; i++) for (long j : R[(size_t)i]) {
    pairs++;
    if (!R[(size_t)j].count(i)) single.push_back({i, j});
  }
  const size_t step = 1 + single.size() / 300;
  for (size_t q = 0; q < single.size(); q += step) {
    const int i = single[q].first;
    const long j = single[q].second;
    // one-sided: is there a face or not? It must be on both rows or neither,
    // as far as j can see i among its k nearest.
    if (!c.recompute && c.k < n - 1) {
      // cut off by k on one side: i is not among the k nearest of j, or one
      // of the two cells is not closed by its k nearest
      const auto oj = geom::by_distance(x, (int)j, (size_t)c.k + 1);
      const auto oi = geom::by_distance(x, i, (size_t)c.k + 1);
      auto closed = [&](int a, const std::vector<int>& o) {
        auto w = o;
        w.resize((size_t)c.k);
        if (!clear_order<Tf>(x, a, o, (size_t)c.k)) return false;
        const auto e = geom::exact_cell(x, a, w, FT<Tf>::eps);
        return e.certain && e.sr_certain && e.sr_reached;
      };
      if (asked++ > 60) { ctx.label("skipped-open"); continue; }
      if (!closed(i, oi) || !closed((int)j, oj)) { ctx.label("open"); continue; }
    }
    ctx.label("one-sided-pairs");
    const auto o = geom::by_distance(x, i);
    const auto oj = geom::by_distance(x, (int)j);
    const auto a = geom::classify1(x, i, (int)j, o, FT<Tf>::u, FT<Tf>::amin);
    const auto b = geom::classify1(x, (int)j, i, oj, FT<Tf>::u, FT<Tf>::amin);
    using geom::Face;
    if (a == Face::may || b == Face::may || a != b) { ctx.label("too-close");
                                                      continue; }
    if (a == Face::must && !geom::tame(x, (int)j, oj, FT<Tf>::eps, FT<Tf>::u)) {
      ctx.label("ill-conditioned");
      continue;
    }
    if (a == Face::never) {
      // a spurious entry: only where the cell of i is beyond doubt
      if (!clear_order<Tf>(x, i, o, o.size())) { ctx.label("doubtful");
                                                 continue; }
      const auto e = geom::exact_cell(x, i, o, FT<Tf>::eps);
      if (!e.certain || e.planes > c.p || e.vmax > c.t) {
        ctx.label("doubtful");
        continue;
      }
    }
    PBT_FAIL("row " << i << " holds " << j << " but row " << j << " lacks "
      << i << " (they " << (a == Face::must ? "share" : "do not share")
      << " a face); " << d);
  }
  if (pairs > 20) ctx.nontrivial();
  ctx.label("pairs", pairs);
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C03";
  const std::string rule = "all pairs of rows; one-sided pairs are put to the"
    " face oracle and count unless the face is too small to call; non-trivial"
    " with more than 20 entries";
  p.subs = {
    {"double", rule, [](Src& s, Ctx& c) { one<double>(s, c, false); },
     7000, 250000, 60},
    {"float", rule, [](Src& s, Ctx& c) { one<float>(s, c, false); },
     7000, 250000, 60},
    {"big-cells", "100-249 points around a centre whose cell has up to 248"
     " faces, or faces with as many edges; " + rule,
     [](Src& s, Ctx& c) { one<double>(s, c, 3); }, 800, 20000, 60},
    {"large-double", "250-3000 points; " + rule,
     [](Src& s, Ctx& c) { one<double>(s, c, true); }, 200, 5000, 120},
    {"large-float", "250-3000 points; " + rule,
     [](Src& s, Ctx& c) { one<float>(s, c, true); }, 200, 5000, 120},
    {"huge", "66000-69000 points; " + rule,
     [](Src& s, Ctx& c) { one<double>(s, c, 2); }, 3, 40, 300},
  };
  return p;
}
PBT_MAIN(make)
