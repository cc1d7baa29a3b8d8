// The arithmetic the cells are made of, against exact arithmetic: on inputs
// where every intermediate result is representable the primitives are exact,
// and on arbitrary inputs they stay within a rounding bound.
#include "../lib/gen.hpp"
#include <planes.hpp>
#include <sradius.hpp>
#include <utils.hpp>
#include <status.hpp>
#include <boundary.hpp>
#include <xyzset.hpp>
using namespace gen;
typedef long double L;

template <typename Tf> static Tf small(Src& s) { // exact in products of three
  return (Tf)((double)s.range(-32, 32) / s.pick({1.0, 2.0, 4.0}));
}
template <typename Tf> static Tf any(Src& s) {
  switch (s.u(4)) {
    case 0: return small<Tf>(s);
    case 1: return (Tf)(2 * s.unit(30) - 1);
    case 2: return (Tf)std::ldexp(2 * s.unit(30) - 1, (int)s.range(-12, 12));
    default: return (Tf)s.unit(30);
  }
}
template <typename Tf> static std::string txt(std::initializer_list<Tf> l) {
  std::ostringstream o;
  o << std::setprecision(17) << FT<Tf>::name() << " (";
  bool f = true;
  for (auto v : l) { o << (f ? "" : ", ") << v; f = false; }
  o << ")";
  return o.str();
}

template <typename Tf> static void three(Src& s, Ctx& ctx) {
  const bool exact = s.chance(1, 2);
  Tf v[16];
  for (auto& x : v) x = exact ? small<Tf>(s) : any<Tf>(s);
  if (s.chance(1, 6)) for (int i = 0; i < 3; i++) v[4 + i] = v[i]; // parallel
  if (s.chance(1, 10)) for (int i = 0; i < 3; i++) v[8 + i] = v[i] + v[4 + i];
  if (!exact && s.chance(1, 8)) { // nearly parallel or dependent
    const double e = std::ldexp(1.0, -(int)s.range(3, sizeof(Tf) == 4 ? 14 : 40));
    const bool two = s.chance(1, 2);
    for (int i = 0; i < 3; i++)
      v[8 + i] = (Tf)(v[i] + (two ? v[4 + i] : 0) + e * (2 * s.unit(20) - 1));
  }
  std::string d = txt<Tf>({v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7],
    v[8], v[9], v[10], v[11]});
  ctx.describe(d);
  ctx.label(exact ? "exact" : "rounded");
  // dot
  {
    const Tf g = planes::dot<Tf>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
    L w = 0, m = 0;
    for (int i = 0; i < 4; i++) {
      w += (L)v[i] * v[4 + i];
      m += std::fabs((L)v[i] * v[4 + i]);
    }
    PBT_CHECK(std::fabs((L)g - w) <= (exact ? 0 : 8 * FT<Tf>::eps * m),
      "dot gives " << g << ", exactly " << (double)w << "; " << d);
  }
#ifndef VERIF_MINIMAL
  // bisect
  {
    Tf a, b, c, e;
    planes::bisect<Tf>(a, b, c, e, v[0], v[1], v[2], v[4], v[5], v[6]);
    const L w[3] = {(L)v[0] - v[4], (L)v[1] - v[5], (L)v[2] - v[6]};
    const Tf g[3] = {a, b, c};
    for (int i = 0; i < 3; i++)
      PBT_CHECK(std::fabs(g[i] - w[i]) <= (exact ? 0 : 2 * FT<Tf>::eps *
        (std::fabs((L)v[i]) + std::fabs((L)v[4 + i]))),
        "bisect has the wrong normal; " << d);
    L off = 0, m = 0;
    for (int i = 0; i < 3; i++) {
      off -= ((L)v[i] * v[i] - (L)v[4 + i] * v[4 + i]) / 2;
      m += (L)v[i] * v[i] + (L)v[4 + i] * v[4 + i];
    }
    PBT_CHECK(std::fabs(e - off) <= (exact ? 0 : 8 * FT<Tf>::eps * m),
      "bisect has the offset " << e << ", exactly " << (double)off << "; " << d);
  }
#endif
  // intersect
  if (s.chance(1, 3)) // short normals, as between close points: powers of two
    for (int i = 0; i < 3; i++) {
      const Tf f = (Tf)std::ldexp(1.0, -(int)s.range(0, sizeof(Tf) == 4 ? 24
                                                                    : 45));
      for (int j = 0; j < 4; j++) v[4 * i + j] *= f;
      d += " plane " + std::to_string(i) + " * " + txt<Tf>({f});
    }
  {
    const L A[3][4] = {{v[0], v[1], v[2], v[3]}, {v[4], v[5], v[6], v[7]},
                       {v[8], v[9], v[10], v[11]}};
    Tf x, y, z, w;
    planes::intersect<Tf>(x, y, z, w, v[0], v[1], v[2], v[3], v[4], v[5], v[6],
                          v[7], v[8], v[9], v[10], v[11]);
    L t = 0, n = 1, dmax = 0;
    auto det = [&](int p, int q, int r) {
      return A[0][p] * (A[1][q] * A[2][r] - A[2][q] * A[1][r]);
    };
    t = det(0, 1, 2) + det(1, 2, 0) + det(2, 0, 1);
    L nn[3];
    for (int i = 0; i < 3; i++) {
      nn[i] = std::sqrt(A[i][0] * A[i][0] + A[i][1] * A[i][1] +
                        A[i][2] * A[i][2]);
      n *= nn[i];
      if (nn[i] > 0) dmax = std::max(dmax, std::fabs(A[i][3]) / nn[i]);
    }
    PBT_CHECK(w == 1, "the fourth coordinate is " << w << "; " << d);
    if (n > 0 && t != 0) {
      const L cond = n / std::fabs(t);
      if (cond < 1e-3 / FT<Tf>::eps) {
        ctx.nontrivial();
        ctx.label("intersections");
        const Tf g[3] = {x, y, z};
        const L tol = 40 * FT<Tf>::eps * cond * dmax * (1 + cond * 0) +
                      40 * FT<Tf>::eps * cond * cond * dmax;
        for (int i = 0; i < 3; i++) {
          L r = A[i][3];
          for (int j = 0; j < 3; j++) r += A[i][j] * g[j];
          PBT_CHECK(std::fabs(r) <= tol * nn[i], "the intersection ("
            << x << "," << y << "," << z << ") is off plane " << i << " by "
            << (double)(r / nn[i]) << "; " << d);
        }
      }
    } else if (exact) {
      ctx.label("singular");
      PBT_CHECK(std::isfinite(x) && std::isfinite(y) && std::isfinite(z),
        "planes without a common point give a non-finite vertex; " << d);
    }
  }
}

#ifndef VERIF_MINIMAL
template <typename Tf> static void radius(Src& s, Ctx& ctx) {
  Tf v[6];
  for (auto& x : v) x = small<Tf>(s);
  Tf rad = (Tf)std::fabs((double)small<Tf>(s));
  const L d2 = ((L)v[0] - v[3]) * ((L)v[0] - v[3]) + ((L)v[1] - v[4]) *
               ((L)v[1] - v[4]) + ((L)v[2] - v[5]) * ((L)v[2] - v[5]);
  switch (s.u(6)) { // thresholds
    case 0: rad = (Tf)d2; break;
    case 1: rad = (Tf)(d2 / 4); break;
    case 2: rad = (Tf)(d2 / 4 + 0.0625); break;
    case 3: rad = (Tf)std::max<L>(0, d2 / 4 - 0.0625); break;
    default: break;
  }
  const std::string d = txt<Tf>({v[0], v[1], v[2], v[3], v[4], v[5], rad});
  ctx.describe(d);
  ctx.nontrivial(d2 > 0);
  const Tf u = sr::update<Tf>(v[0], v[1], v[2], v[3], v[4], v[5], rad);
  PBT_CHECK((L)u == std::max<L>(rad, d2), "update gives " << u << "; " << d);
  const bool r = sr::is_reached<Tf>(v[0], v[1], v[2], v[3], v[4], v[5], rad);
  PBT_CHECK(r == (d2 > 4 * (L)rad), "is_reached gives " << r << " for squared"
    " distance " << (double)d2 << "; " << d);
  const Tf g = xyzset::get_distance<Tf>(v[0], v[1], v[2], v[3], v[4], v[5]);
  PBT_CHECK((L)g == d2, "get_distance gives " << g << "; " << d);
}

// the same on any coordinates, up to rounding
template <typename Tf> static void radius_rounded(Src& s, Ctx& ctx) {
  Tf v[6];
  const double near = std::ldexp(1.0, -(int)s.range(0, sizeof(Tf) == 4 ? 18 : 40));
  for (int i = 0; i < 3; i++) {
    v[i] = (Tf)s.unit(30);
    v[3 + i] = (Tf)(v[i] + near * (2 * s.unit(30) - 1));
  }
  L d2 = 0;
  for (int i = 0; i < 3; i++) d2 += ((L)v[i] - v[3 + i]) * ((L)v[i] - v[3 + i]);
  Tf rad = (Tf)(d2 * s.pick({0.0, 0.01, 0.2, 0.249, 0.25, 0.251, 0.5, 0.99, 1.0,
    1.01, 3.0, 1000.0}));
  if (s.chance(1, 4)) rad = (Tf)s.unit(30);
  const std::string d = txt<Tf>({v[0], v[1], v[2], v[3], v[4], v[5], rad});
  ctx.describe(d);
  ctx.nontrivial(d2 > 0);
  const L tol = 8 * FT<Tf>::eps * d2;
  const Tf g = xyzset::get_distance<Tf>(v[0], v[1], v[2], v[3], v[4], v[5]);
  PBT_CHECK(std::fabs((L)g - d2) <= tol, "get_distance gives " << g << "; " << d);
  const Tf u = sr::update<Tf>(v[0], v[1], v[2], v[3], v[4], v[5], rad);
  PBT_CHECK(std::fabs((L)u - std::max<L>(rad, d2)) <= tol, "update gives " << u
    << "; " << d);
  const L gap = d2 - 4 * (L)rad;
  const bool r = sr::is_reached<Tf>(v[0], v[1], v[2], v[3], v[4], v[5], rad);
  PBT_CHECK(std::fabs(gap) <= tol || r == (gap > 0), "is_reached gives " << r
    << " for squared distance " << (double)d2 << "; " << d);
}

#endif

template <typename T> static void minmax(T a, T b, T c, const std::string& d) {
  PBT_CHECK(utils::bmax<T>(a, b) == std::max(a, b) &&
            utils::bmin<T>(a, b) == std::min(a, b), "of two; " << d);
  PBT_CHECK(utils::bmax<T>(a, b, c) == std::max({a, b, c}) &&
            utils::bmin<T>(a, b, c) == std::min({a, b, c}), "of three; " << d);
  T x = a, y = b;
  utils::swap<T>(x, y);
  PBT_CHECK(x == b && y == a, "swap; " << d);
}

template <typename Tf> static void util(Src& s, Ctx& ctx) {
  const Tf a = any<Tf>(s), b = s.chance(1, 5) ? a : any<Tf>(s), c = any<Tf>(s);
  const std::string d = txt<Tf>({a, b, c});
  ctx.describe(d);
  ctx.nontrivial(a != b);
  minmax<Tf>(a, b, c, d);
  const int i = (int)s.range(-40000, 40000), j = (int)s.range(-40000, 40000),
            k = (int)s.range(-3, 3);
  minmax<int>(i, j, k, std::to_string(i) + "," + std::to_string(j) + "," +
              std::to_string(k));
#ifndef VERIF_MINIMAL
  PBT_CHECK(std::fabs((L)utils::square<Tf>(a) - (L)a * a) <=
            FT<Tf>::eps * (L)a * a, "square; " << d);
  PBT_CHECK(std::fabs((L)utils::cube<Tf>(a) - (L)a * a * a) <=
            3 * FT<Tf>::eps * std::fabs((L)a * a * a), "cube; " << d);
  PBT_CHECK(utils::square<int>(k) == k * k && utils::cube<int>(k) == k * k * k,
            "square or cube of " << k);
#endif
  // remainders: exact when the quotient is
  const Tf y = (Tf)s.pick({1.0, 0.5, 0.25, 0.125, 3.0, 0.75});
  const Tf x = small<Tf>(s);
  PBT_CHECK(utils::bfmod<Tf>(x, y) == std::fmod(x, y), "bfmod(" << x << ","
    << y << ") gives " << utils::bfmod<Tf>(x, y));
  // otherwise a multiple of the divisor away, up to rounding
  const Tf w = any<Tf>(s);
  if (std::fabs((L)a) < 1e4L * std::fabs((L)w)) {
    const L f = std::fmod((L)a, (L)w), g = (L)utils::bfmod<Tf>(a, w),
            tol = 4 * FT<Tf>::eps * (std::fabs((L)a) + std::fabs((L)w)),
            e = std::fabs(f - g);
    PBT_CHECK(e <= tol || std::fabs(e - std::fabs((L)w)) <= tol, "bfmod(" << a
      << "," << w << ") gives " << (double)g << ", exactly " << (double)f);
    const L q = std::fabs((L)a / w), off = std::fabs(q - std::floor(q + 0.5L));
    if (off > 8 * FT<Tf>::eps * (q + 1)) // the quotient is not near a whole one
      PBT_CHECK(e <= tol, "bfmod(" << a << "," << w << ") gives " << (double)g
        << ", exactly " << (double)f);
  }
}

static void flags(Src& s, Ctx& ctx) {
  cc::state st;
  bool m[7] = {};
  const cc::status all[7] = {cc::security_radius_reached,
    cc::error_infinite_boundary, cc::error_nonvalid_vertices,
    cc::error_nonvalid_neighbor, cc::error_p_overflow, cc::error_t_overflow,
    cc::error_occurred};
  std::ostringstream h;
  const int n = (int)s.range(1, 30);
  ctx.nontrivial(n >= 3);
  for (int i = 0; i <= n; i++) {
    const size_t f = s.u(7);
    switch (i ? s.u(7) : 6) {
      case 0: case 1: case 2: st.set_true(all[f]); m[f] = true;
        h << "+" << f; break;
      case 3: case 4: case 5: st.set_false(all[f]); m[f] = false;
        h << "-" << f; break;
      default: st.reset(); for (auto& x : m) x = false; h << " reset "; break;
    }
    ctx.describe(h.str());
    const cc::state copy = st;
    for (size_t q = 0; q < 7; q++)
      PBT_CHECK(st.get(all[q]) == m[q] && copy.get(all[q]) == m[q], "flag "
        << q << " is " << st.get(all[q]) << " after " << h.str());
  }
#ifndef VERIF_MINIMAL
  boundary::vstatus v;
  int bits = 0, at = 0;
  for (int k = 0; k < 3; k++) if (s.chance(1, 2)) { v.set_true(k); bits++;
                                                     at |= 1 << k; }
  for (int k = 0; k < 3; k++)
    PBT_CHECK((v.get(k) != 0) == ((at >> k & 1) != 0), "edge flag " << k);
  PBT_CHECK(v.get_nshared_edges() == bits, "shared edges of " << at << ": "
    << (int)v.get_nshared_edges());
  // one shared edge: that edge; two: the one before which both lie
  const int pos[8] = {255, 0, 1, 2, 2, 1, 0, 255};
  PBT_CHECK(v.get_shared_position() == pos[at], "position for " << at << ": "
    << (int)v.get_shared_position());
#endif
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C15";
  p.subs = {
    {"planes-double", "three planes and two points, half of them exactly"
     " representable throughout, some parallel or dependent; non-trivial when"
     " the three planes meet in a point", three<double>, 1500000, 12000000, 60},
    {"planes-float", "as planes-double", three<float>, 1500000, 12000000, 60},
#ifndef VERIF_MINIMAL
    {"radius-double", "dyadic points, radii at and around the thresholds;"
     " non-trivial when the points differ", radius<double>, 1000000, 8000000, 60},
    {"radius-float", "as radius-double", radius<float>, 1000000, 8000000, 60},
#endif
#ifndef VERIF_MINIMAL
    {"radius-any-double", "any points, near ones too, radii at and around the"
     " thresholds; non-trivial when the points differ", radius_rounded<double>,
     500000, 8000000, 60},
    {"radius-any-float", "as radius-any-double", radius_rounded<float>, 500000,
     8000000, 60},
#endif
    {"utils-double", "non-trivial when the operands differ", util<double>,
     1000000, 8000000, 60},
    {"utils-float", "as utils-double", util<float>, 1000000, 8000000, 60},
    {"flags", "1-30 set, clear and reset of the seven flags; non-trivial with"
     " three or more", flags, 400000, 3000000, 60},
  };
  p.assumptions = {"finite operands of moderate size"};
  return p;
}
PBT_MAIN(make)
