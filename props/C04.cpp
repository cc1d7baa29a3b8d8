// The grid resolution is a matter of speed only: any grid gives the rows that
// the one-cell grid (brute force) gives.
#include "../lib/gen.hpp"
using namespace gen;

// ties in the tested type among the nearest m+1
template <typename Tf>
static bool tied(const Set<Tf>& x, size_t i, size_t m) {
  std::vector<Tf> v;
  for (size_t j = 0; j < x.size(); j++) if (j != i) v.push_back(dist(x[i], x[j]));
  std::sort(v.begin(), v.end());
  for (size_t t = 1; t < std::min(v.size(), m + 1); t++)
    if (near_tie<Tf>(v[t], v[t - 1])) return true;
  return false;
}

template <typename Tf>
static void compare(const Set<Tf>& in, Cfg a, int gr, int other, Ctx& ctx,
                    const std::string& d) {
  a.gr = gr;
  const auto ra = run<Tf>(in, a);
  const auto A = by_input(in, ra, true);
  Cfg b = a;
  b.gr = other;
  const auto rb = run<Tf>(in, b);
  const auto B = by_input(in, rb, true);
  for (size_t i = 0; i < in.size(); i++) {
    if (A[i] == B[i]) continue;
    // rows may differ only where equal distances leave the order open
    const size_t k = a.recompute ? in.size() : (size_t)a.k;
    if (tied(in, i, k)) { ctx.label("tied"); continue; }
    std::ostringstream w;
    w << std::setprecision(17);
    for (size_t t = 0; t < std::max(A[i].size(), B[i].size()); t++) {
      const int a = t < A[i].size() ? A[i][t] : -1;
      const int b = t < B[i].size() ? B[i][t] : -1;
      if (a == b) continue;
      w << " (place " << t;
      if (a >= 0) w << ", distance^2 " << dist(in[i], in[(size_t)a]);
      if (b >= 0) w << " and " << dist(in[i], in[(size_t)b]);
      w << " from " << in[i][0] << "," << in[i][1] << "," << in[i][2] << ")";
      break;
    }
    PBT_FAIL("point " << i << w.str() << ": grid " << gr << " gives " << list(A[i])
      << ", grid " << other << " gives " << list(B[i]) << "; " << d);
  }
}

template <typename Tf> static void one(Src& s, Ctx& ctx) {
  Cfg c;
  const int gr = any_gr(s);
  const int other = s.chance(3, 4) ? 1 : any_gr(s);
  int cls = any_class(s);
  if (cls == dups || cls == lattice || cls == dyadic) cls = uniform;
  const int n = count(s, 2, 80, 300);
  c.k = s.chance(1, 4) ? std::max(1, n - 1)
      : (int)s.range(1, std::max(1, std::min(n - 1, 40)));
  // six planes: the row is the list of the k nearest itself
  switch (s.weighted({2, 2, 1})) {
    case 0: c.p = 6; break;
    case 1: c.p = 128; c.t = 256; break;
    default: break;
  }
  c.threads = s.chance(1, 4) ? any_threads(s, n) : 1;
  any_device(s, c);
  if (s.chance(1, 4)) any_chunking(s, n, c);
  c.recompute = s.chance(1, 6);
  auto in = points<Tf>(s, n, cls);
  // put some coordinates on or next to walls of the grid
  const int walls = s.chance(1, 2) ? (int)s.range(1, n) : 0;
  for (int w = 0; w < walls; w++) {
    auto& v = in[s.u((uint64_t)n)][s.u(3)];
    const int g = s.chance(1, 4) ? other : gr;
    Tf q = s.chance(1, 2) ? (Tf)((Tf)(1.0f / (float)g) * (Tf)s.range(0, g))
                          : (Tf)((double)s.range(0, g) / g);
    const int ulp = (int)s.range(-2, 2);
    for (int t = 0; t < std::abs(ulp); t++)
      q = std::nextafter(q, (Tf)(ulp > 0 ? 2 : -1));
    v = inside<Tf>(q);
  }
  // and some points on the centre of a cell, a face, an edge or a corner
  if (s.chance(1, 4)) for (int w = (int)s.range(1, std::min(n, 6)); w > 0; w--) {
    auto& v = in[s.u((uint64_t)n)];
    const int h = (int)s.u(8);
    for (int t = 0; t < 3; t++)
      v[(size_t)t] = inside<Tf>((Tf)(((double)s.range(0, gr - 1) +
                                      (h >> t & 1 ? 0.0 : 0.5)) / gr));
  }
  in = distinct(in);
  if (in.size() < 2) throw pbt::Discard();
  c.k = std::min(c.k, (int)in.size() - 1);
  c.gr = gr;
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
    c.str() + " vs gr=" + std::to_string(other) + " " + show(in);
  ctx.describe(d);
  ctx.label(cname(cls));
  if (walls) ctx.label("with-wall-coordinates");
  ctx.nontrivial(gr != other && in.size() > 4 && c.k < (int)in.size() - 1);
  compare(in, c, gr, other, ctx, d);
}

// very fine grids: cell numbers of three and four bytes
template <typename Tf> static void fine(Src& s, Ctx& ctx) {
  Cfg c;
  const int gr = s.pick({97, 128, 160, 255, 256, 257, 300});
  const int n = (int)s.range(2, gr > 200 ? 7 : 24);
  c.k = (int)s.range(1, std::max(1, std::min(n - 1, 6)) / 2 + 1);
  c.p = s.pick({6, 128});
  c.t = 256;
  auto in = points<Tf>(s, n, s.pick({(int)uniform, (int)cluster, (int)wall,
                                     (int)fineclus}));
  in = distinct(in);
  if (in.size() < 2) throw pbt::Discard();
  c.gr = gr;
  const std::string d = std::string(FT<Tf>::name()) + " " + c.str() + " " +
                        show(in);
  ctx.describe(d);
  ctx.nontrivial(in.size() > 3);
  compare(in, c, gr, 1, ctx, d);
}

// many points per cell and many cells
template <typename Tf> static void large(Src& s, Ctx& ctx) {
  Cfg c;
  const int n = (int)s.range(300, 4000);
  const int cls = generic_class(s);
  c.k = s.pick({20, 64, 5, 100, 257, 300, 520, 1100});
  c.p = s.pick({6, 64});
  c.t = 128;
  const int gr = any_gr(s);
  const int other = (int)s.range(1, 24);
  const auto in = distinct(points<Tf>(s, n, cls));
  c.gr = gr;
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
    c.str() + " vs gr=" + std::to_string(other) + " " + show(in, 2);
  ctx.describe(d);
  ctx.nontrivial(gr != other);
  compare(in, c, gr, other, ctx, d);
}

// more points than 16 bits can number
static void huge(Src& s, Ctx& ctx) {
  Cfg c;
  c.k = (int)s.range(8, 30);
  c.p = s.pick({6, 64});
  c.t = 128;
  c.threads = 8;
  c.gr = (int)s.range(36, 64);
  const int other = (int)s.range(12, 40);
  const auto in = crowd<double>(s, (int)s.range(66000, 69000));
  const std::string d = c.str() + " vs gr=" + std::to_string(other) + " " +
                        show(in, 2);
  ctx.describe(d);
  ctx.nontrivial(c.gr != other);
  compare(in, c, c.gr, other, ctx, d);
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C04";
  const std::string rule = "the same set with two grid resolutions, mostly one"
    " cell against 1..70, coordinates put on and beside grid walls; rows and"
    " their order compared; non-trivial when the grids differ and k leaves"
    " points out";
  p.subs = {
    {"double", rule, one<double>, 12000, 300000, 60},
    {"float", rule, one<float>, 12000, 300000, 60},
    {"fine-double", "grids of 97..300 cells a side against one cell;"
     " non-trivial with more than 3 points", fine<double>, 12, 600, 240},
    {"fine-float", "as fine-double", fine<float>, 12, 600, 240},
    {"large-double", "300-4000 points, two grids; non-trivial when they"
     " differ", large<double>, 160, 4000, 120},
    {"large-float", "as large-double", large<float>, 160, 4000, 120},
    {"huge", "66000-69000 points, two grids; non-trivial when they differ",
     huge, 4, 60, 300},
  };
  return p;
}
PBT_MAIN(make)
