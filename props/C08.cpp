// Recomputation: whatever k and capacities one starts from, every row is the
// point's complete Voronoi cell.
#include "../lib/gen.hpp"
using namespace gen;

template <typename Tf> static void one(Src& s, Ctx& ctx, bool big,
                                     int only = -1) {
  Cfg c;
  const int cls = only >= 0 ? only : big ? s.pick({(int)uniform, (int)jlattice})
                : s.chance(1, 6) ? (int)sphere
                : s.chance(1, 6) ? (int)wall : generic_class(s);
  const int n = only == tip ? (int)s.range(5, 90)
              : only >= 0 ? (int)s.range(100, 245)
              : big ? (int)s.range(300, 1500) : count(s, 1, 90, 245);
  c.recompute = true;
  switch (s.weighted({4, 2, 2, 1})) {
    case 0: c.k = (int)s.range(1, std::max(1, std::min(n, 12))); break;
    case 1: c.k = (int)s.range(1, std::max(1, n)); break;
    case 2: c.k = std::max(1, n - 1 + (int)s.range(-2, 2)); break;
    default: c.k = n + (int)s.range(0, 60); break;
  }
  if (big) c.k = (int)s.range(4, 60);
  switch (s.weighted({3, 3, 1, 1})) {
    case 0: break; // the defaults, 32 and 32
    case 1: c.p = (int)s.range(6, 40); c.t = (int)s.range(8, 60); break;
    case 2: c.p = (int)s.range(6, 300); c.t = (int)s.range(8, 600); break;
    default: c.p = (int)s.range(1, 8); c.t = (int)s.range(1, 12); break;
  }
  c.gr = any_gr(s);
  c.threads = s.chance(1, 2) ? any_threads(s, n) : 1;
  any_chunking(s, n, c);
  const auto in = points<Tf>(s, n, cls);
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
                        c.str() + " " + show(in, big ? 2 : 12);
  ctx.describe(d);
  ctx.label(cname(cls));
  const bool gpu = s.chance(1, 8);
#ifndef VERIF_REAL_SYCL
  vsycl::config().has_gpu = gpu;
#endif
  const auto r = run<Tf>(in, c, gpu ? votess::device::gpu : votess::device::cpu);
  well_formed(r, in.size());
  const auto x = up(r.x);
  std::vector<int> cells;
  if (n <= 60) for (int i = 0; i < n; i++) cells.push_back(i);
  else for (int i = 0; i < 40; i++) cells.push_back((int)s.u((uint64_t)n));
  if (n) cells.push_back(where(r, in[0]));
  for (int i : cells) {
    const auto o = geom::by_distance(x, i);
    const std::set<long> got(r.rows[(size_t)i].begin(), r.rows[(size_t)i].end());
    ctx.label("cells");
    if (clear_order<Tf>(x, i, o, o.size())) {
      const auto e = geom::exact_cell(x, i, o, FT<Tf>::eps);
      if (e.certain && e.planes <= 255) {
        ctx.label("decided");
        const size_t k0 = (size_t)std::min<long>(c.k, n - 1);
        if (e.planes > c.p || e.vmax > c.t || (size_t)e.used > k0) {
          ctx.nontrivial();
          ctx.label("had-to-recompute");
        }
        const std::set<long> want(e.faces.begin(), e.faces.end());
        PBT_CHECK(want == got, "row " << i << " is " << list(got)
          << ", its cell has the faces " << list(want) << " (" << e.planes
          << " planes, " << e.vmax << " vertices, " << e.used
          << " candidates needed); " << d);
        continue;
      }
    }
    ctx.label("only-completeness");
    const auto f = geom::classify(x, i, o, FT<Tf>::u, FT<Tf>::amin);
    for (size_t t = 0; t < o.size(); t++) {
      if (f[t] != geom::Face::must || got.count(o[t])) continue;
      if (!geom::tame(x, i, o, FT<Tf>::eps, FT<Tf>::u)) {
        ctx.label("ill-conditioned");
        break;
      }
      PBT_FAIL("row " << i << " lacks point " << o[t] << "; row " << list(got)
        << "; " << d);
    }
  }
}

// More than 65536 points, thinning out from the centre so that all but the
// outermost cells are closed by few neighbours; those need nearly all points.
static void huge(Src& s, Ctx& ctx) {
  Cfg c;
  const int n = (int)s.range(65537, 67000);
  c.recompute = true;
  c.k = s.pick({64, 40});
  c.gr = s.pick({64, 50});
  c.chunking = true;
  c.threads = 4;
  Set<double> in;
  uint64_t z = s.u(uint64_t(1) << 40);
  auto uni = [&] { z = pbt::mix64(z + 1); return (double)(z >> 14) /
                                                 1125899906842624.0; };
  for (int i = 0; i < n; i++) {
    const double h = 2 * uni() - 1, a = 6.283185307179586 * uni(),
                 r = 0.45 * std::pow(10, -2 * uni()), q = std::sqrt(1 - h * h);
    in.push_back({0.5 + r * q * std::cos(a), 0.5 + r * q * std::sin(a),
                  0.5 + r * h});
  }
  const std::string d = "radial double " + c.str() + " " + show(in, 2);
  ctx.describe(d);
  const auto r = run<double>(in, c);
  well_formed(r, in.size());
  const auto x = up(r.x);
  std::vector<std::pair<double, int>> far;
  for (int i = 0; i < n; i++)
    far.push_back({-geom::dist2(x[(size_t)i], {0.5, 0.5, 0.5}), i});
  std::sort(far.begin(), far.end());
  for (int t = 0; t < 60; t++) {
    const int i = t < 40 ? far[(size_t)t].second : (int)s.u((uint64_t)n);
    auto o = geom::by_distance(x, i);
    if (!clear_order<double>(x, i, o, o.size())) {
      ctx.label("tied");
      if (!clear_order<double>(x, i, o, 3000)) continue;
    }
    const auto e = geom::exact_cell(x, i, o, FT<double>::eps);
    ctx.label("cells");
    if (!e.certain || e.planes > 255) continue;
    ctx.label("decided");
    if ((size_t)e.used > 32768) { ctx.nontrivial(); ctx.label("needs-most-points"); }
    const std::set<long> want(e.faces.begin(), e.faces.end()),
      got(r.rows[(size_t)i].begin(), r.rows[(size_t)i].end());
    PBT_CHECK(want == got, "row " << i << " has " << got.size() << " entries,"
      " its cell has the faces " << list(want) << " (" << e.used
      << " candidates needed); " << d);
  }
}

// A dense swarm and a few points far away: the cells at the rim of the swarm
// have faces with points that come after all of the swarm by distance.
static void swarm(Src& s, Ctx& ctx, bool big) {
  Cfg c;
  const int m = big ? (int)s.range(65400, 66600) : (int)std::exp(s.real(5, 8.5, 20));
  const int far = (int)s.range(4, 50);
  c.recompute = true;
  c.k = (int)s.range(4, 64);
  c.gr = big ? 64 : (int)s.range(8, 40);
  c.threads = (int)s.range(4, 8);
  if (s.chance(1, 2)) { c.chunking = true; c.chunk = (int)s.range(200, 3000); }
  Set<double> in;
  uint64_t z = s.u(uint64_t(1) << 40);
  auto uni = [&] { z = pbt::mix64(z + 1); return (double)(z >> 14) /
                                                 1125899906842624.0; };
  const double R = s.pick({0.1, 0.02}), o[3] = {0.3 + 0.4 * uni(),
    0.3 + 0.4 * uni(), 0.3 + 0.4 * uni()};
  for (int i = 0; i < m + far; i++) {
    if (i % (m / far + 1) == 0) { in.push_back({uni(), uni(), uni()}); continue; }
    const double h = 2 * uni() - 1, a = 6.283185307179586 * uni(),
                 r = R * std::pow(10, -1.5 * uni()), q = std::sqrt(1 - h * h);
    in.push_back({o[0] + r * q * std::cos(a), o[1] + r * q * std::sin(a),
                  o[2] + r * h});
  }
  for (auto& p : in) for (auto& v : p) v = inside<double>(v);
  const int n = (int)in.size();
  const std::string d = "swarm double " + c.str() + " " + show(in, 2);
  ctx.describe(d);
  const auto r = run<double>(in, c);
  well_formed(r, in.size());
  const auto x = up(r.x);
  std::vector<std::pair<double, int>> rim;
  for (int i = 0; i < n; i++) {
    const double d2 = geom::dist2(x[(size_t)i], {o[0], o[1], o[2]});
    rim.push_back({std::fabs(d2 - 0.8 * R * R), i});
  }
  std::sort(rim.begin(), rim.end());
  for (int t = 0; t < (big ? 40 : 60); t++) {
    const int i = t < 40 ? rim[(size_t)t].second : (int)s.u((uint64_t)n);
    const auto q = geom::by_distance(x, i);
    const auto e = geom::exact_cell(x, i, q, FT<double>::eps);
    ctx.label("cells");
    if (!e.certain || e.planes > 255) continue;
    ctx.label("decided");
    const std::set<long> want(e.faces.begin(), e.faces.end()),
      got(r.rows[(size_t)i].begin(), r.rows[(size_t)i].end());
    size_t last = 0;
    for (size_t k = 0; k < q.size(); k++) if (want.count(q[k])) last = k;
    if (last > (size_t)c.k) { ctx.nontrivial(); ctx.label("face-beyond-k"); }
    if (last > 60000) ctx.label("face-beyond-60000");
    else if (last > 1000) ctx.label("face-beyond-1000");
    PBT_CHECK(want == got, "row " << i << " is " << list(got) << ", its cell has"
      " the faces " << list(want) << ", the last of them number " << last + 1
      << " by distance; " << d);
  }
}

static Set<double> ball(int n) { // cells of the centre with n - 1 faces
  Set<double> x{{0.5, 0.5, 0.5}};
  for (int i = 0; i + 1 < n; i++) {
    const double z = 1 - (2.0 * i + 1) / (n - 1), a = 2.399963229728653 * i;
    const double q = std::sqrt(1 - z * z);
    x.push_back({0.5 + 0.4 * q * std::cos(a), 0.5 + 0.4 * q * std::sin(a),
                 0.5 + 0.4 * z});
  }
  return x;
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C08";
  const std::string rule = "1-245 points, recomputation on, any starting k and"
    " capacities (also below the six planes and eight vertices of the cube);"
    " rows compared with the exact cell; non-trivial when some judged cell did"
    " not fit k or the capacities";
  p.subs = {
    {"double", rule, [](Src& s, Ctx& c) { one<double>(s, c, false); },
     5000, 120000, 60},
    {"float", rule, [](Src& s, Ctx& c) { one<float>(s, c, false); },
     5000, 120000, 60},
    {"big-cells", "100-245 points around a centre whose cell has up to 244"
     " faces; " + rule, [](Src& s, Ctx& c) { one<double>(s, c, false, shell); },
     400, 9000, 60},
    {"tip", "5-90 points; the last neighbour of one of them barely cuts off the"
     " farthest vertex of its cell, just after others as far that do not",
     [](Src& s, Ctx& c) { one<double>(s, c, false, tip); }, 2500, 50000, 60},
    {"large", "300-1500 points; " + rule,
     [](Src& s, Ctx& c) { one<double>(s, c, true); }, 300, 1500, 180},
    {"swarm", "150-5000 points close together and 4-50 far away, 60 cells, most"
     " of them at the rim; non-trivial when a face is with a point that is not"
     " among the k nearest", [](Src& s, Ctx& c) { swarm(s, c, false); },
     60, 2000, 180},
    {"huge-swarm", "as swarm with more than 65400 points",
     [](Src& s, Ctx& c) { swarm(s, c, true); }, 2, 16, 400},
    {"huge", "65537-67000 points thinning out from the centre, 60 sampled"
     " cells, 40 of them outermost; non-trivial when a judged cell needs more"
     " than 32768 candidates", huge, 2, 16, 400},
  };
  p.assumptions = {"cells needing more than 255 planes are excluded: listed as"
    " known finding K1"};
  p.known = {{"K1", "a cell cut by more than 249 bisectors (301 points, 300 of"
    " them on a sphere around the first) keeps its whole candidate list even"
    " with use_recompute", [] {
      Cfg c;
      c.k = 300; c.p = 255; c.t = 512; c.recompute = true; c.gr = 4;
      const auto in = ball(301);
      const auto r = run<double>(in, c);
      const auto A = by_input(in, r);
      // the points of the sphere see few others: their true rows are short
      // and the centre's has all 300; the finding shows as long rows of
      // points on the sphere or as a reported overflow
      Cfg v = c;
      v.suppress = false;
      const auto q = parse_summary(run<double>(in, v).out);
      return q.p > 0 || q.t > 0;
    }}};
  return p;
}
PBT_MAIN(make)
