// Reference models of a Voronoi tessellation restricted to the unit cube.
//
// 1. classify(): the face shared by sites i and j is found by clipping a
//    polygon lying in their bisector against the cube and the bisectors of the
//    other candidates (Sutherland-Hodgman, double), never by cell surgery.
//    Three-valued: MUST (the face survives with clear area even if all planes
//    move by eps), NEVER (the bisector keeps clear of the cell even if planes
//    move by eps), MAY (too close to call).
//
// 2. Cell: the cell cut out of the cube plane by plane in long double, as a
//    set of (plane,plane,plane) vertices, with a bound on the rounding error
//    that a computation in the tested type may make at every decision. While
//    every decision clears its bound the cell is `certain`: any correct
//    computation in that type takes the same decisions.
#ifndef VERIF_GEOM_HPP
#define VERIF_GEOM_HPP
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <map>
#include <set>
#include <vector>

#ifndef GEOM_K
#define GEOM_K 12
#endif

namespace geom {

using V = std::array<double, 3>;
inline V operator-(const V& a, const V& b) {
  return {a[0] - b[0], a[1] - b[1], a[2] - b[2]};
}
inline V operator+(const V& a, const V& b) {
  return {a[0] + b[0], a[1] + b[1], a[2] + b[2]};
}
inline V operator*(double s, const V& a) {
  return {s * a[0], s * a[1], s * a[2]};
}
inline double dot(const V& a, const V& b) {
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
inline V cross(const V& a, const V& b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
          a[0] * b[1] - a[1] * b[0]};
}
inline double norm(const V& a) { return std::sqrt(dot(a, a)); }
inline double dist2(const V& a, const V& b) { return dot(a - b, a - b); }

enum class Face { never, may, must };

using Poly = std::vector<V>;

// keep the part of p with  n.x <= c
inline void clip(const Poly& p, const V& n, double c, Poly& out) {
  out.clear();
  const size_t m = p.size();
  if (m == 0) return;
  double dprev = dot(n, p[m - 1]) - c;
  for (size_t a = 0; a < m; a++) {
    const double d = dot(n, p[a]) - c;
    const V& prev = p[(a + m - 1) % m];
    if (d <= 0) {
      if (dprev > 0) {
        const double t = dprev / (dprev - d);
        out.push_back(prev + t * (p[a] - prev));
      }
      out.push_back(p[a]);
    } else if (dprev <= 0) {
      const double t = dprev / (dprev - d);
      out.push_back(prev + t * (p[a] - prev));
    }
    dprev = d;
  }
}

inline double area(const Poly& p) {
  if (p.size() < 3) return 0;
  V s{0, 0, 0};
  for (size_t i = 1; i + 1 < p.size(); i++)
    s = s + cross(p[i] - p[0], p[i + 1] - p[0]);
  return 0.5 * norm(s);
}

// Sites sorted by distance from site i (i itself excluded); at most `most`,
// and the distances with them.
inline std::vector<int> by_distance(const std::vector<V>& x, int i,
                                    size_t most = (size_t)-1) {
  std::vector<std::pair<double, int>> o;
  o.reserve(x.size());
  for (int j = 0; j < (int)x.size(); j++)
    if (j != i) o.push_back({dist2(x[(size_t)i], x[(size_t)j]), j});
  if (most < o.size()) {
    std::nth_element(o.begin(), o.begin() + (long)most, o.end());
    o.resize(most);
  }
  std::sort(o.begin(), o.end());
  std::vector<int> r(o.size());
  for (size_t j = 0; j < o.size(); j++) r[j] = o[j].second;
  return r;
}

// Polygon of the face (i,j): the bisector of i and j inside the cube and
// closer to i than to any member of cand, every bounding plane moved outwards
// by slack(m) (inwards when negative). Returns its area, -1 when empty.
template <typename Slack>
inline double face_area(const std::vector<V>& x, int i, int j,
                        const std::vector<int>& cand, double boxslack,
                        Slack slack) {
  const V p = x[(size_t)i], q = x[(size_t)j];
  V n = q - p;
  const double len = norm(n);
  if (len == 0) return -1;
  n = (1.0 / len) * n;
  const V mid = 0.5 * (p + q);
  V a = std::fabs(n[0]) < 0.6 ? V{1, 0, 0} : V{0, 1, 0};
  V u = cross(n, a);
  u = (1.0 / norm(u)) * u;
  const V w = cross(n, u);
  const double R = 4;
  Poly poly{mid + (-R) * u + (-R) * w, mid + R * u + (-R) * w,
            mid + R * u + R * w, mid + (-R) * u + R * w}, tmp;
  for (size_t d = 0; d < 3; d++) {
    V e{0, 0, 0};
    e[d] = 1;
    clip(poly, e, 1 + boxslack, tmp);
    poly.swap(tmp);
    e[d] = -1;
    clip(poly, e, boxslack, tmp);
    poly.swap(tmp);
  }
  for (int m : cand) {
    if (poly.empty()) return -1;
    if (m == j || m == i) continue;
    V nm = x[(size_t)m] - p;
    const double lm = norm(nm);
    if (lm == 0) continue;
    double r2 = 0;
    for (const V& v : poly) r2 = std::max(r2, dist2(v, p));
    const double s = slack(m, lm);
    // far away: no plane beyond twice the polygon's radius can cut it, and
    // candidates come sorted by distance
    if (lm > 2 * std::sqrt(r2) + 2 * std::fabs(s) + 1e-9) break;
    nm = (1.0 / lm) * nm;
    clip(poly, nm, dot(nm, 0.5 * (p + x[(size_t)m])) + s, tmp);
    poly.swap(tmp);
  }
  if (poly.empty()) return -1;
  return area(poly);
}

// Plane position error of a bisector computed in a type with unit roundoff
// about u: the offset term is a difference of squares of coordinates in (0,1),
// so its error is about u, divided by the length of the normal.
inline double plane_err(double u, double len) { return u / len + 4 * u; }

inline Face classify1(const std::vector<V>& x, int i, int j,
                      const std::vector<int>& cand, double u, double amin) {
  const double lj = std::sqrt(dist2(x[(size_t)i], x[(size_t)j]));
  if (lj == 0) return Face::may;
  const double sj = plane_err(u, lj);
  auto loose = [&](int, double lm) { return plane_err(u, lm) + sj; };
  auto tight = [&](int, double lm) { return -(plane_err(u, lm) + sj); };
  if (face_area(x, i, j, cand, u + sj, loose) < 0) return Face::never;
  const double a = face_area(x, i, j, cand, -(u + sj), tight);
  return a > amin ? Face::must : Face::may;
}

// The convex cell, all planes moved outwards, as a soup of face polygons: an
// outer bound used to discard candidates quickly.
struct Soup {
  struct F { Poly p; V n; double c; };
  std::vector<F> f;
  double r2 = 3;
  V p;
  explicit Soup(const V& site, double s) : p(site) {
    for (size_t d = 0; d < 3; d++) for (int sg : {-1, 1}) {
      V n{0, 0, 0};
      n[d] = sg;
      add(n, sg > 0 ? 1 + s : s);
    }
  }
  static Poly quad(const V& n, double c) {
    V a = std::fabs(n[0]) < 0.6 ? V{1, 0, 0} : V{0, 1, 0};
    V u = cross(n, a);
    u = (1.0 / norm(u)) * u;
    const V w = cross(n, u);
    const V m = c * n;
    const double R = 4;
    return {m + (-R) * u + (-R) * w, m + R * u + (-R) * w, m + R * u + R * w,
            m + (-R) * u + R * w};
  }
  bool cuts(const V& n, double c) const {
    for (auto& g : f) for (auto& v : g.p) if (dot(n, v) > c) return true;
    return false;
  }
  void add(const V& n, double c) {
    Poly q = quad(n, c), t;
    for (auto& g : f) {
      clip(q, g.n, g.c, t); q.swap(t);
      clip(g.p, n, c, t); g.p.swap(t);
    }
    if (f.size() >= 6)
      f.erase(std::remove_if(f.begin(), f.end(),
        [](const F& g) { return g.p.empty(); }), f.end());
    f.push_back({q, n, c});
    if (f.size() >= 6) {
      r2 = 0;
      for (auto& g : f) for (auto& v : g.p) r2 = std::max(r2, dist2(v, p));
    }
  }
};

// Classification of all candidate faces of cell i among cand (sorted by
// distance). result[t] belongs to cand[t].
inline std::vector<Face> classify(const std::vector<V>& x, int i,
                                  const std::vector<int>& cand, double u,
                                  double amin) {
  std::vector<Face> r(cand.size(), Face::never);
  const V p = x[(size_t)i];
  double lmin = 0;
  for (int m : cand) if ((lmin = norm(x[(size_t)m] - p)) > 0) break;
  if (lmin == 0) {
    for (auto& f : r) f = Face::may;
    return r;
  }
  const double S = 2 * plane_err(u, lmin) + 1e-12;
  if (S > lmin) { // closer than the type resolves: nothing can be said
    for (auto& f : r) f = Face::may;
    return r;
  }
  Soup soup(p, u + S);
  std::vector<V> nn(cand.size());
  std::vector<double> cc(cand.size(), 0);
  size_t end = cand.size();
  for (size_t t = 0; t < cand.size(); t++) {
    V n = x[(size_t)cand[t]] - p;
    const double l = norm(n);
    if (l == 0) { r[t] = Face::may; continue; }
    if (l > 2 * std::sqrt(soup.r2) + 4 * S + 1e-9) { end = t; break; }
    n = (1.0 / l) * n;
    nn[t] = n;
    cc[t] = dot(n, 0.5 * (p + x[(size_t)cand[t]]));
    if (soup.cuts(n, cc[t] + S)) soup.add(n, cc[t] + S);
  }
  for (size_t t = 0; t < end; t++) {
    if (r[t] == Face::may) continue;
    if (!soup.cuts(nn[t], cc[t] - S)) continue;
    r[t] = classify1(x, i, cand[t], cand, u, amin);
  }
  return r;
}

// ------------------------------------------------------------ exact cell --

using L = long double;

struct Cell {
  bool certain = true;       // every decision clears its error bound
  bool tame = true;          // ... or misses it by no more than planes may move
  bool sr_certain = true;    // ... and so does the stop decision
  bool sr_reached = false;
  int planes = 6;            // planes ever stored, the cube's six included
  int vmax = 8;              // most vertices stored at a time
  int over = 0;              // 1: out of planes, 2: out of vertices
  int used = 0;              // candidates looked at before the stop
  std::vector<int> faces;    // surviving candidates, in order of distance
  V far{};                   // the vertex farthest from the point
};

// Cuts cell i by the bisectors of cand in order. eps: unit roundoff of the
// tested type.
inline Cell exact_cell(const std::vector<V>& x, int i,
                       const std::vector<int>& cand, double eps,
                       int pmax = 1 << 30, int tmax = 1 << 30,
                       bool stop_at_radius = true, double u = 0) {
  auto slack = [&](L n) { return (L)plane_err(u, (double)n); };
  struct Pl { L a, b, c, d, n; };
  struct Vx { int p[3]; L v[3]; L err; };
  Cell r;
  std::vector<Pl> P{{1, 0, 0, 0, 1}, {-1, 0, 0, 1, 1}, {0, 1, 0, 0, 1},
                    {0, -1, 0, 1, 1}, {0, 0, 1, 0, 1}, {0, 0, -1, 1, 1}};
  // a plane keeps a.x + d >= 0 for the cube, and bisectors (towards the
  // neighbour) cut off a.x + d > 0: store bisectors negated
  const L K = GEOM_K * (L)eps;
  auto make = [&](int a, int b, int c) {
    Vx w;
    w.p[0] = a; w.p[1] = b; w.p[2] = c;
    const Pl &A = P[(size_t)a], &B = P[(size_t)b], &C = P[(size_t)c];
    const L n23a = B.b * C.c - C.b * B.c, n23b = C.a * B.c - B.a * C.c,
            n23c = B.a * C.b - C.a * B.b;
    const L n31a = C.b * A.c - A.b * C.c, n31b = A.a * C.c - C.a * A.c,
            n31c = C.a * A.b - A.a * C.b;
    const L n12a = A.b * B.c - B.b * A.c, n12b = B.a * A.c - A.a * B.c,
            n12c = A.a * B.b - B.a * A.b;
    const L t = A.a * n23a + A.b * n23b + A.c * n23c;
    if (t == 0) { r.certain = r.tame = false; w.v[0] = w.v[1] = w.v[2] = 0; w.err = 1;
                  return w; }
    w.v[0] = (-A.d * n23a - B.d * n31a - C.d * n12a) / t;
    w.v[1] = (-A.d * n23b - B.d * n31b - C.d * n12b) / t;
    w.v[2] = (-A.d * n23c - B.d * n31c - C.d * n12c) / t;
    const L cond = A.n * B.n * C.n / std::fabs(t);
    w.err = K * cond * (1 + 1 / std::min({A.n, B.n, C.n}));
    return w;
  };
  std::vector<Vx> T;
  for (int a : {0, 1}) for (int b : {2, 3}) for (int c : {4, 5})
    T.push_back(make(a, b, c));
  const V ps = x[(size_t)i];
  std::vector<int> owner(6, -1);
  for (size_t t = 0; t < cand.size(); t++) {
    const V q = x[(size_t)cand[t]];
    r.used = (int)t + 1;
    Pl b;
    b.a = (L)q[0] - ps[0]; b.b = (L)q[1] - ps[1]; b.c = (L)q[2] - ps[2];
    b.n = std::sqrt(b.a * b.a + b.b * b.b + b.c * b.c);
    if (b.n == 0) { r.certain = false; continue; }
    b.d = -(b.a * ((L)q[0] + ps[0]) + b.b * ((L)q[1] + ps[1]) +
            b.c * ((L)q[2] + ps[2])) / 2;
    std::vector<char> cut(T.size());
    size_t ncut = 0;
    L r2 = 0, r2err = 0;
    for (size_t v = 0; v < T.size(); v++) {
      const L d = b.a * T[v].v[0] + b.b * T[v].v[1] + b.c * T[v].v[2] + b.d;
      const L e = b.n * T[v].err + K * (1 + b.n);
      if (std::fabs(d) <= e) {
        r.certain = false;
        if (e > b.n * slack(b.n)) r.tame = false;
      }
      cut[v] = d > 0;
      ncut += cut[v];
      const L dx = T[v].v[0] - ps[0], dy = T[v].v[1] - ps[1],
              dz = T[v].v[2] - ps[2];
      const L s = dx * dx + dy * dy + dz * dz;
      r2 = std::max(r2, s);
      r2err = std::max(r2err, 4 * T[v].err + 8 * (L)eps);
    }
    if (ncut == T.size()) { r.certain = r.tame = false; break; }
    if (ncut) {
      const int np = (int)P.size();
      if (np >= pmax) { r.over = 1; return r; }
      P.push_back({-b.a, -b.b, -b.c, -b.d, b.n});
      owner.push_back(cand[t]);
      r.planes = (int)P.size();
      std::map<std::pair<int, int>, int> e; // edge -> +1 cut, +16 kept
      for (size_t v = 0; v < T.size(); v++)
        for (int a = 0; a < 3; a++) {
          int p0 = T[v].p[a], p1 = T[v].p[(a + 1) % 3];
          if (p0 > p1) std::swap(p0, p1);
          e[{p0, p1}] += cut[v] ? 1 : 16;
        }
      std::vector<Vx> N;
      for (size_t v = 0; v < T.size(); v++) if (!cut[v]) N.push_back(T[v]);
      for (auto& [k, s] : e) {
        if (s == 17) N.push_back(make(k.first, k.second, np));
        else if (s != 2 && s != 32) r.certain = r.tame = false;
      }
      T.swap(N);
      r.vmax = std::max(r.vmax, (int)T.size());
      if ((int)T.size() > tmax) { r.over = 2; return r; }
    }
    const L d2 = b.n * b.n, lim = 4 * r2;
    if (std::fabs(d2 - lim) <= 4 * r2err + 16 * (L)eps) r.sr_certain = false;
    if (d2 > lim && stop_at_radius) { r.sr_reached = true; break; }
  }
  std::set<int> alive;
  for (auto& v : T) for (int p : v.p) if (owner[(size_t)p] >= 0)
    alive.insert(owner[(size_t)p]);
  for (int c : cand) if (alive.count(c)) r.faces.push_back(c);
  double most = -1;
  for (auto& v : T) {
    const V w{(double)v.v[0], (double)v.v[1], (double)v.v[2]};
    if (dist2(w, ps) > most) { most = dist2(w, ps); r.far = w; }
  }
  return r;
}

// False when the way to cell i passes through vertices that the type cannot
// place to within the slack u that classify() allows every plane, e.g. where
// three almost parallel bisectors meet: a face may then be lost to rounding.
inline bool tame(const std::vector<V>& x, int i, const std::vector<int>& cand,
                 double eps, double u) {
  const Cell r = exact_cell(x, i, cand, eps, 1 << 30, 1 << 30, false, u);
  return r.certain || r.tame;
}

} // namespace geom
#endif
