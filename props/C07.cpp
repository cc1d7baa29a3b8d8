// Symmetries of the problem: renaming the points, exchanging axes, mirroring
// an axis and widening the coordinate type do not change who is a neighbour.
#include "../lib/gen.hpp"
using namespace gen;

template <typename Tf>
static bool tied(const Set<Tf>& x, size_t i, size_t m) {
  std::vector<Tf> v;
  for (size_t j = 0; j < x.size(); j++) if (j != i) v.push_back(dist(x[i], x[j]));
  std::sort(v.begin(), v.end());
  for (size_t t = 1; t < std::min(v.size(), m + 1); t++)
    if (near_tie<Tf>(v[t], v[t - 1])) return true;
  return false;
}

template <typename Tf> static Cfg config(Src& s, int n) {
  Cfg c;
  c.k = s.chance(1, 2) ? std::max(1, n - 1) : (int)s.range(1, std::max(1, n - 1));
  c.gr = any_gr(s);
  c.p = 255; c.t = 512;
  c.threads = s.chance(1, 3) ? any_threads(s, n) : 1;
  if (s.chance(1, 4)) any_chunking(s, n, c);
  c.recompute = s.chance(1, 6);
  any_device(s, c);
  return c;
}

template <typename Tf> static void renaming(Src& s, Ctx& ctx) {
  const int n0 = count(s, 2, 80, 200);
  int cls = any_class(s);
  const auto in = distinct(points<Tf>(s, n0, cls));
  const int n = (int)in.size();
  if (n < 2) throw pbt::Discard();
  Cfg c = config<Tf>(s, n);
  std::vector<int> perm((size_t)n);
  for (int i = 0; i < n; i++) perm[(size_t)i] = i;
  switch (s.u(3)) {
    case 0: std::reverse(perm.begin(), perm.end()); break;
    case 1: std::rotate(perm.begin(), perm.begin() + (long)s.u((uint64_t)n),
                        perm.end()); break;
    default: for (int i = n - 1; i > 0; i--)
      std::swap(perm[(size_t)i], perm[s.u((uint64_t)i + 1)]);
  }
  Set<Tf> in2;
  for (int i : perm) in2.push_back(in[(size_t)i]);
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
    c.str() + " order " + list(perm) + " " + show(in);
  ctx.describe(d);
  ctx.label(cname(cls));
  ctx.nontrivial(n > 4);
  const auto A = by_input(in, run<Tf>(in, c), true);
  const auto B = by_input(in2, run<Tf>(in2, c), true);
  for (int i = 0; i < n; i++) {
    std::vector<int> b;
    for (int j : B[(size_t)i]) b.push_back(perm[(size_t)j]);
    const auto& a = A[(size_t)perm[(size_t)i]];
    if (a == b) continue;
    if (tied(in, (size_t)perm[(size_t)i], (size_t)n)) { ctx.label("tied");
                                                        continue; }
    PBT_FAIL("point " << perm[(size_t)i] << " has neighbours " << list(a)
      << ", and " << list(b) << " when the points are passed in another order; "
      << d);
  }
}

// more points than 16 bits can number
static void crowded(Src& s, Ctx& ctx) {
  Cfg c;
  c.k = (int)s.range(20, 40);
  c.p = 96; c.t = 160;
  c.threads = 8;
  c.gr = (int)s.range(20, 44);
  const auto in = crowd<double>(s, (int)s.range(66000, 69000));
  auto in2 = in;
  if (s.chance(1, 3)) std::reverse(in2.begin(), in2.end());
  else std::rotate(in2.begin(), in2.begin() + (long)s.range(1, 60000), in2.end());
  const std::string d = c.str() + " " + show(in, 2);
  ctx.describe(d);
  ctx.nontrivial();
  auto neighbours = [&](const Run<double>& r) {
    well_formed(r, in.size());
    std::map<std::array<double, 3>, std::vector<std::array<double, 3>>> m;
    for (size_t i = 0; i < r.x.size(); i++)
      for (long j : r.rows[i]) m[r.x[i]].push_back(r.x[(size_t)j]);
    return m;
  };
  const auto A = neighbours(run<double>(in, c)), B = neighbours(run<double>(in2, c));
  for (size_t i = 0; i < in.size(); i++) {
    const auto a = A.find(in[i]), b = B.find(in[i]);
    if ((a == A.end()) == (b == B.end()) && (a == A.end() ||
        a->second == b->second)) continue;
    if (tied(in, i, (size_t)c.k)) { ctx.label("tied"); continue; }
    PBT_FAIL("point " << i << " has other neighbours when the points are passed"
      " in another order; " << d);
  }
}

// which cells are beyond rounding, in the caller's order
template <typename Tf>
static std::vector<char> beyond_doubt(const std::vector<geom::V>& x,
                                      const Cfg& c) {
  std::vector<char> ok(x.size(), 0);
  const size_t k = c.recompute ? x.size() - 1
                 : (size_t)std::min<long>(c.k, (long)x.size() - 1);
  for (size_t i = 0; i < x.size(); i++) {
    auto o = geom::by_distance(x, (int)i, k + 1);
    if (!clear_order<Tf>(x, (int)i, o, k)) continue;
    if (o.size() > k) o.resize(k);
    const auto e = geom::exact_cell(x, (int)i, o, 2 * FT<Tf>::eps);
    ok[i] = e.certain && e.sr_certain && e.planes < 250;
  }
  return ok;
}

template <typename Ta, typename Tb>
static void moved(const Set<Ta>& in, const Set<Tb>& in2, const Cfg& c,
                  const Cfg& c2, Ctx& ctx, const std::string& what,
                  const std::string& d) {
  const auto A = by_input(in, run<Ta>(in, c));
  const auto B = by_input(in2, run<Tb>(in2, c2));
  const auto ok = beyond_doubt<Ta>(up(in), c);
  for (size_t i = 0; i < in.size(); i++) {
    if (!ok[i]) { ctx.label("uncertain"); continue; }
    ctx.label("decided");
    PBT_CHECK(A[i] == B[i], "point " << i << " has neighbours " << list(A[i])
      << ", and " << list(B[i]) << " " << what << "; " << d);
  }
}

template <typename Tf> static void cube(Src& s, Ctx& ctx) {
  const int n0 = count(s, 2, 60, 150);
  const int cls = generic_class(s);
  auto in = points<Tf>(s, n0, cls);
  // coordinates on a grid that mirroring keeps exact
  const double q = std::ldexp(1.0, std::numeric_limits<Tf>::digits);
  for (auto& p : in) for (auto& v : p)
    v = inside<Tf>(std::round((double)v * q) / q);
  in = distinct(in);
  const int n = (int)in.size();
  if (n < 2) throw pbt::Discard();
  Cfg c = config<Tf>(s, n), c2 = c;
  c2.gr = s.chance(1, 2) ? c.gr : any_gr(s);
  const int axes[6][3] = {{0, 1, 2}, {1, 0, 2}, {2, 1, 0}, {0, 2, 1},
                          {1, 2, 0}, {2, 0, 1}};
  const int a = (int)s.u(6), m = (int)s.u(8);
  Set<Tf> in2;
  for (auto& p : in) {
    std::array<Tf, 3> r;
    for (size_t t = 0; t < 3; t++) {
      r[t] = p[(size_t)axes[a][t]];
      if (m >> t & 1) r[t] = 1 - r[t];
    }
    in2.push_back(r);
  }
  const std::string w = "after the move of axes no. " + std::to_string(a) +
                        " and mirrors " + std::to_string(m);
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
    c.str() + " then gr=" + std::to_string(c2.gr) + " " + show(in);
  ctx.describe(d + " " + w);
  ctx.label("axes" + std::to_string(a));
  ctx.nontrivial(n > 4 && (a || m));
  moved(in, in2, c, c2, ctx, w, d);
}

static void widening(Src& s, Ctx& ctx) {
  const int n0 = count(s, 2, 60, 150);
  const int cls = generic_class(s);
  const auto in = distinct(points<float>(s, n0, cls));
  const int n = (int)in.size();
  if (n < 2) throw pbt::Discard();
  const Cfg c = config<float>(s, n);
  Set<double> in2;
  for (auto& p : in) in2.push_back({p[0], p[1], p[2]});
  const std::string d = std::string(cname(cls)) + " " + c.str() + " " + show(in);
  ctx.describe(d);
  ctx.nontrivial(n > 4);
  moved(in, in2, c, c, ctx, "in double", d);
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C07";
  p.subs = {
    {"renaming-double", "the same points in another order (reversed, rotated,"
     " shuffled); rows compared entry by entry except where distances tie;"
     " non-trivial with more than 4 points", renaming<double>, 5000, 150000, 60},
    {"renaming-float", "as renaming-double", renaming<float>, 5000, 150000, 60},
    {"cube-double", "one of the 48 symmetries of the cube; cells beyond"
     " rounding compared; non-trivial with more than 4 points and not the"
     " identity", cube<double>, 4000, 100000, 60},
    {"cube-float", "as cube-double", cube<float>, 4000, 100000, 60},
    {"widening", "float points as float and as double; cells beyond float"
     " rounding compared; non-trivial with more than 4 points", widening,
     4000, 100000, 60},
    {"huge", "66000-69000 points in another order; always non-trivial",
     crowded, 4, 60, 300},
  };
  return p;
}
PBT_MAIN(make)
