// Sorting into the grid: nothing lost or invented, cells in order, the two
// tables describe exactly the sorted points, and the validators tell valid
// data from invalid.
#include "../lib/gen.hpp"
using namespace gen;

template <typename Tf>
static std::array<uint64_t, 3> bits(const std::array<Tf, 3>& p) {
  std::array<uint64_t, 3> b{};
  for (size_t d = 0; d < 3; d++) std::memcpy(&b[d], &p[d], sizeof(Tf));
  return b;
}

template <typename Tf>
static void permutation(const Set<Tf>& a, const Set<Tf>& b,
                        const std::string& d) {
  PBT_CHECK(a.size() == b.size(), "size changes from " << a.size() << " to "
            << b.size() << "; " << d);
  std::vector<std::array<uint64_t, 3>> p, q;
  for (auto& v : a) p.push_back(bits(v));
  for (auto& v : b) q.push_back(bits(v));
  std::sort(p.begin(), p.end());
  std::sort(q.begin(), q.end());
  PBT_CHECK(p == q, "the sorted points are not those passed in; " << d);
}

// cell number along one axis, as an interval allowing for rounding at walls
template <typename Tf>
static bool in_cell(Tf x, long c, int gr) {
  const double tol = 8 * FT<Tf>::eps + 1e-7; // walls are float multiples
  const double lo = (double)c / gr - tol, hi = (double)(c + 1) / gr + tol;
  return (double)x >= lo && (double)x <= hi;
}

template <typename Tf, typename Ti>
static void check_sorted(const Set<Tf>& in, Set<Tf>& x, int gr,
                         const std::string& d) {
  const auto [id, offs] = xyzset::sort<Ti, Tf>(x, args::xyzset(gr));
  permutation(in, x, d);
  const size_t n = x.size();
  PBT_CHECK(id.size() == n, "cell id table has " << id.size() << " entries; "
            << d);
  const size_t cells = (size_t)gr * (size_t)gr * (size_t)gr;
  PBT_CHECK(offs.size() == cells + 1, "offset table has " << offs.size()
            << " entries for " << cells << " cells; " << d);
  PBT_CHECK(offs[0] == 0, "the first cell starts at " << offs[0] << "; " << d);
  PBT_CHECK((size_t)offs[cells] == n, "the last cell ends at " << offs[cells]
            << "; " << d);
  for (size_t i = 0; i < n; i++) {
    const long c = (long)id[i];
    PBT_CHECK(c >= 0 && (size_t)c < cells, "point " << i << " is in cell " << c
              << " of " << cells << "; " << d);
    PBT_CHECK(i == 0 || id[i - 1] <= id[i], "cell ids not ascending at " << i
              << "; " << d);
    PBT_CHECK((size_t)offs[(size_t)c] <= i && i < (size_t)offs[(size_t)c + 1],
      "point " << i << " in cell " << c << " is outside its range ["
      << offs[(size_t)c] << "," << offs[(size_t)c + 1] << "); " << d);
    PBT_CHECK(in_cell(x[i][0], c % gr, gr) &&
              in_cell(x[i][1], c / gr % gr, gr) &&
              in_cell(x[i][2], c / gr / gr, gr),
      "point " << i << " (" << x[i][0] << "," << x[i][1] << "," << x[i][2]
      << ") is not in its cell " << c << "; " << d);
  }
  for (size_t c = 0; c < cells; c++)
    PBT_CHECK(offs[c] <= offs[c + 1], "cell " << c << " has negative size; "
              << d);
  PBT_CHECK(xyzset::validate_xyzset<Tf>(x), "valid points rejected; " << d);
  PBT_CHECK(xyzset::validate_id<Ti>(id), "ascending ids rejected; " << d);
  PBT_CHECK((xyzset::validate_sort<Ti, Tf>(x, id, (Ti)gr)), "sorted points"
            " rejected; " << d);
}

template <typename Tf> static Set<Tf> wallish(Src& s, Set<Tf> in, int gr) {
  const int w = (int)s.range(0, (int)in.size());
  for (int t = 0; t < w; t++) {
    auto& v = in[s.u(in.size())][s.u(3)];
    Tf q;
    switch (s.u(4)) {
      case 0: q = (Tf)((Tf)(1.0f / (float)gr) * (Tf)s.range(0, gr)); break;
      case 1: q = (Tf)((double)s.range(0, gr) / gr); break;
      case 2: q = (Tf)1; break;
      default: q = (Tf)0; break;
    }
    const int ulp = (int)s.range(-3, 3);
    for (int i = 0; i < std::abs(ulp); i++)
      q = std::nextafter(q, (Tf)(ulp > 0 ? 2 : -1));
    if (s.chance(1, 8)) q = (Tf)std::ldexp(1.0, -(int)s.range(20, 140));
    v = q > 0 && q < 1 ? q : inside<Tf>(q);
  }
  return in;
}

// points in cells whose numbers share bytes: sorting goes byte by byte
template <typename Tf> static Set<Tf> numbered(Src& s, int n, int gr) {
  const long cells = (long)gr * gr * gr;
  long set[4];
  for (int b = 0; b < 4; b++) { // a byte is fixed or free
    set[b] = s.chance(1, 2) ? s.pick({0, 0, 0, 1, 127, 128, 255}) : -1;
  }
  Set<Tf> in;
  for (int i = 0; i < n; i++) {
    long id = 0;
    for (int b = 3; b >= 0; b--) {
      const long most = (cells - 1) >> (8 * b);
      long v = set[b] >= 0 ? set[b] : (long)s.u(256);
      if (most < 256) v = set[b] >= 0 ? std::min(v, most) : v % (most + 1);
      id = id * 256 + v;
    }
    if (id >= cells) id = (long)s.u((uint64_t)cells);
    std::array<Tf, 3> p;
    for (auto& c : p) {
      c = inside<Tf>(((double)(id % gr) + s.real(0.1, 0.9, 10)) / gr);
      id /= gr;
    }
    in.push_back(p);
  }
  return in;
}

template <typename Tf> static void sorting(Src& s, Ctx& ctx) {
  const int gr = s.chance(1, 12) ? (int)s.range(32, 90)
                                 : (int)s.range(1, 32);
  const int n = count(s, 0, 100, 600);
  const int cls = any_class(s);
  Set<Tf> in = points<Tf>(s, n, cls);
  if (s.chance(1, 8)) { in = numbered<Tf>(s, n, gr); ctx.label("by-cell-number"); }
  else if (n && s.chance(1, 2)) in = wallish(s, in, gr);
  const bool wide = s.chance(1, 4);
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() +
    (wide ? " 64-bit" : "") + " gr=" + std::to_string(gr) + " " + show(in);
  ctx.describe(d);
  ctx.label(cname(cls));
  ctx.nontrivial(n > 4 && gr > 1);
  Set<Tf> x = in;
  if (wide) check_sorted<Tf, int64_t>(in, x, gr, d);
  else check_sorted<Tf, int>(in, x, gr, d);
  // sorting sorted points changes nothing but maybe the order within cells
  Set<Tf> y = x;
  check_sorted<Tf, int>(x, y, gr, d + " (sorted again)");
}

template <typename Tf> static void sort_large(Src& s, Ctx& ctx) {
  const int gr = s.pick({16, 24, 41, 64, 100, 7, 129, 256, 257, 300});
  const int n = gr > 200 ? (int)s.range(1000, 20000)
                         : (int)s.range(20000, 90000);
  Set<Tf> in;
  uint64_t z = s.u(uint64_t(1) << 40);
  const int shape = (int)s.u(3);
  for (int i = 0; i < n; i++) {
    std::array<Tf, 3> p;
    for (auto& v : p) {
      z = pbt::mix64(z + 1);
      double q = (double)(z >> 11) / 9007199254740992.0;
      if (shape == 1) q = q * q * q;
      if (shape == 2) q = 1 - q * q * q * q;
      v = inside<Tf>(q);
    }
    in.push_back(p);
  }
  const std::string d = std::string(FT<Tf>::name()) + " gr=" +
    std::to_string(gr) + " " + show(in, 2);
  ctx.describe(d);
  ctx.nontrivial();
  Set<Tf> x = in;
  check_sorted<Tf, int>(in, x, gr, d);
}

// the caller's vector after a tessellation: the same points, in grid order
template <typename Tf> static void through(Src& s, Ctx& ctx) {
  Cfg c;
  const int n = count(s, 0, 60, 200);
  c.gr = any_gr(s);
  c.k = (int)s.range(1, 20);
  c.threads = (int)s.range(1, 4);
  const int cls = any_class(s);
  Set<Tf> in = points<Tf>(s, n, cls);
  if (s.chance(1, 8)) in = numbered<Tf>(s, n, c.gr);
  else if (n && s.chance(1, 2)) in = wallish(s, in, c.gr);
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
                        c.str() + " " + show(in);
  ctx.describe(d);
  ctx.nontrivial(n > 4 && c.gr > 1);
  const auto r = run<Tf>(in, c);
  permutation(in, r.x, d);
  long last = 0;
  // the grid cells of consecutive points never go back; coordinates next to a
  // wall may belong to either side
  const double tol = 8 * FT<Tf>::eps + 1e-7;
  for (size_t i = 0; i < r.x.size(); i++) {
    long hi = 0, lo = 0;
    for (int a = 2; a >= 0; a--) {
      auto cell = [&](double v) {
        return std::min<long>(c.gr - 1, std::max<long>(0,
                 (long)std::floor(v * c.gr)));
      };
      hi = hi * c.gr + cell((double)r.x[i][(size_t)a] + tol);
      lo = lo * c.gr + cell((double)r.x[i][(size_t)a] - tol);
    }
    PBT_CHECK(hi >= last, "point " << i << " lies in an earlier cell than the"
              " one before it; " << d);
    last = std::max(last, lo);
  }
}

template <typename Tf> static void validators(Src& s, Ctx& ctx) {
  const int n = (int)s.range(0, 12);
  Set<Tf> x = points<Tf>(s, n, any_class(s));
  bool bad = false;
  if (n && s.chance(2, 3)) {
    const int m = (int)s.range(1, 2);
    for (int t = 0; t < m; t++) {
      const double inf = std::numeric_limits<double>::infinity();
      const Tf v = (Tf)s.pick({0.0, 1.0, -0.0, -0.25, 1.5, inf, -inf,
        (double)NAN, -1e-30, 1.0 + 2.4e-7, 1e30, -5.0, (double)-NAN});
      x[s.u((uint64_t)n)][s.u(3)] = v;
      bad = true;
    }
  }
  bool ok = true;
  for (auto& p : x) for (Tf v : p) ok = ok && v > 0 && v < 1;
  std::ostringstream o;
  o << FT<Tf>::name() << " " << show(x);
  ctx.describe(o.str());
  ctx.label(bad ? "bad" : "good");
  PBT_CHECK(xyzset::validate_xyzset<Tf>(x) == ok, "points "
    << (ok ? "inside" : "outside") << " (0,1) are called "
    << (ok ? "invalid" : "valid") << "; " << o.str());
  // ids
  std::vector<int> id((size_t)s.range(0, 10));
  for (auto& v : id) v = (int)s.range(-3, 20);
  if (s.chance(1, 2)) std::sort(id.begin(), id.end());
  const bool asc = std::is_sorted(id.begin(), id.end());
  PBT_CHECK(xyzset::validate_id<int>(id) == asc, "ids " << list(id)
            << (asc ? " rejected" : " accepted"));
  // a wrong id is noticed
  if (ok && n) {
    const int gr = (int)s.range(2, 20);
    auto [ids, offs] = xyzset::sort<int, Tf>(x, args::xyzset(gr));
    auto w = ids;
    const size_t at = s.u((uint64_t)n);
    int by = (int)s.range(1, gr * gr);
    if (s.chance(1, 2)) by = -by;
    w[at] += by;
    PBT_CHECK((!xyzset::validate_sort<int, Tf>(x, w, gr)), "cell id " << w[at]
      << " instead of " << ids[at] << " accepted for point " << at << "; "
      << o.str());
    ctx.nontrivial();
  }
  ctx.nontrivial(bad);
}

// a tessellation speaks up about a set with a coordinate that is not strictly
// inside, and about nothing else; the points survive either way
template <typename Tf> static void warning(Src& s, Ctx& ctx) {
  Cfg c;
  const int n = count(s, 0, 40, 120);
  c.gr = any_gr(s);
  c.k = (int)s.range(1, 20);
  c.threads = (int)s.range(1, 4);
  c.suppress = s.chance(1, 4);
  const int cls = any_class(s);
  Set<Tf> in = points<Tf>(s, n, cls);
  if (s.chance(1, 8)) in = numbered<Tf>(s, n, c.gr);
  else if (n && s.chance(1, 2)) in = wallish(s, in, c.gr);
  if (n && s.chance(1, 2)) {
    const Tf odd[] = {0, 1, (Tf)-0.0, -1, 2, (Tf)-1e-30, (Tf)1e30,
      std::numeric_limits<Tf>::infinity(),
      -std::numeric_limits<Tf>::infinity(),
      std::numeric_limits<Tf>::quiet_NaN(), (Tf)1.5, (Tf)-0.25,
      std::nextafter((Tf)1, (Tf)2), std::nextafter((Tf)0, (Tf)-1),
      std::nextafter((Tf)0, (Tf)1), std::nextafter((Tf)1, (Tf)0)};
    for (int t = (int)s.range(1, 2); t > 0; t--)
      in[s.u((uint64_t)n)][s.u(3)] = odd[s.u(sizeof odd / sizeof *odd)];
  }
  bool ok = true;
  for (auto& p : in) for (Tf v : p) ok = ok && v > 0 && v < 1;
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
                        c.str() + " " + show(in);
  ctx.describe(d);
  ctx.label(ok ? "good" : "bad");
  ctx.nontrivial(n > 0);
  const auto r = run<Tf>(in, c);
  permutation(in, r.x, d);
  PBT_CHECK(r.rows.size() == (size_t)n, r.rows.size() << " rows; " << d);
  PBT_CHECK(r.err.empty() == ok, "points " << (ok ? "inside" : "outside")
    << " (0,1) are tessellated with " << (r.err.empty() ? "no warning"
    : "the warning " + r.err.substr(0, 40)) << "; " << d);
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C06";
  const std::string rule = "any class of points, half of them with coordinates"
    " on and within 3 ulp of grid walls, 0 and 1; non-trivial with more than 4"
    " points and more than one cell";
  p.subs = {
    {"double", rule, sorting<double>, 100000, 1500000, 60},
    {"float", rule, sorting<float>, 100000, 1500000, 60},
    {"large-double", "1000-90000 points, grids 7..300; all non-trivial",
     sort_large<double>, 100, 1000, 120},
    {"large-float", "as large-double", sort_large<float>, 100, 1000, 120},
    {"through-double", "the caller's vector after a tessellation; non-trivial"
     " as for double", through<double>, 20000, 300000, 60},
    {"through-float", "as through-double", through<float>, 20000, 300000, 60},
    {"warning-double", "tessellations of valid sets and sets with one or two"
     " coordinates that are 0, 1, outside, infinite, NaN or next to 0 and 1;"
     " non-trivial with a point", warning<double>, 20000, 300000, 60},
    {"warning-float", "as warning-double", warning<float>, 20000, 300000, 60},
    {"validators-double", "valid sets and sets with 0, 1, outside, infinite"
     " and NaN coordinates, ascending and other ids, one wrong cell id;"
     " non-trivial with a bad coordinate or a wrong id", validators<double>,
     30000, 500000, 60},
    {"validators-float", "as validators-double", validators<float>, 30000,
     500000, 60},
  };
  return p;
}
PBT_MAIN(make)
