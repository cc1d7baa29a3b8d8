// The summary tells the truth: the numbers of cells reported as not closed by
// the k neighbours, short of planes, short of vertices or otherwise failed are
// the numbers of such cells.
#include "../lib/gen.hpp"
using namespace gen;

template <typename Tf>
static void one(Src& s, Ctx& ctx, int only = -1) {
  Cfg c;
  const int cls = only >= 0 ? only : generic_class(s);
  const int n = only >= 0 ? (int)s.range(100, 245) : count(s, 1, 60, 160);
  switch (s.weighted({3, 2, 1})) {
    case 0: c.k = (int)s.range(1, std::max(1, n)); break;
    case 1: c.k = std::max(1, n - 1); break;
    default: c.k = n + (int)s.range(0, 60); break;
  }
  c.gr = any_gr(s);
  switch (s.weighted({3, 3, 2})) {
    case 0: c.p = 255; c.t = 512; break;
    case 1: c.p = (int)s.range(6, 36); c.t = (int)s.range(8, 60); break;
    default: break;
  }
  if (only >= 0 && s.chance(1, 2)) {
    c.p = (int)s.range(60, 255); c.t = (int)s.range(100, 512);
  }
  c.threads = s.chance(1, 2) ? any_threads(s, n) : 1;
  any_chunking(s, n, c);
  c.recompute = s.chance(1, 4);
  c.suppress = false;
  const bool gpu = s.chance(1, 4);
#ifndef VERIF_REAL_SYCL
  vsycl::config().has_gpu = gpu;
#endif
  const auto in = points<Tf>(s, n, cls);
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
    c.str() + (gpu ? " gpu " : " ") + show(in);
  ctx.describe(d);
  ctx.label(c.recompute ? "recompute" : "plain");
  const auto r = run<Tf>(in, c, gpu ? votess::device::gpu : votess::device::cpu);
  const auto q = parse_summary(r.out);
  PBT_CHECK(q.sr >= 0 && q.p >= 0 && q.t >= 0 && q.inf >= 0 && q.nv >= 0 &&
            q.nn >= 0 && q.err >= 0, "no summary in " << r.out << "; " << d);
  const auto x = up(r.x);
  const size_t k = (size_t)std::min<long>(c.k, (long)n - 1);
  long sr = 0, po = 0, to = 0, unsure = 0, sr_unsure = 0;
  for (size_t i = 0; i < x.size(); i++) {
    // with recompute a cell may stop only after k doublings and enlargements:
    // only the end state is told: everything that can be closed is closed
    const size_t kk = c.recompute ? x.size() - 1 : k;
    auto o = geom::by_distance(x, (int)i, kk + 1);
    const bool clear = clear_order<Tf>(x, (int)i, o, kk);
    if (o.size() > kk) o.resize(kk);
    const auto e = geom::exact_cell(x, (int)i, o, FT<Tf>::eps,
      c.recompute ? 255 : std::min(255, std::max(6, c.p)),
      c.recompute ? 512 : std::min(512, std::max(8, c.t)));
    if (!clear || !e.certain || (!e.sr_certain && e.over)) { unsure++; continue; }
    if (e.over == 1) { po++; sr++; }
    else if (e.over == 2) { to++; sr++; }
    else if (!e.sr_certain) sr_unsure++;
    else if (!e.sr_reached) sr++;
  }
  ctx.label("cells", (uint64_t)n);
  ctx.label("unsure", (uint64_t)(unsure + sr_unsure));
  if (po) ctx.label("with-plane-overflow");
  if (to) ctx.label("with-vertex-overflow");
  if (sr && sr < n) ctx.label("with-some-open");
  auto within = [&](const char* what, long got, long lo, long slack) {
    PBT_CHECK(got >= lo && got <= lo + slack, "reported " << what << ": " << got
      << ", counted " << lo << " to " << lo + slack << "; " << d);
  };
  within("sradius", q.sr, sr, unsure + sr_unsure);
  within("p overflow", q.p, po, unsure);
  within("t overflow", q.t, to, unsure);
  within("inf boundary", q.inf, 0, unsure);
  within("nvalid vertice", q.nv, 0, unsure);
  within("nvalid neighbor", q.nn, 0, unsure);
  within("nerrors", q.err, 0, unsure);
  ctx.nontrivial((sr > 0 || po > 0 || to > 0) && unsure * 4 <= n);
}

// with six planes nothing fits: every cell of two or more points overflows
template <typename Tf> static void noroom(Src& s, Ctx& ctx) {
  Cfg c;
  const int cls = generic_class(s), n = count(s, 1, 60, 300);
  c.k = (int)s.range(1, std::max(1, n));
  c.gr = any_gr(s);
  c.p = (int)s.range(0, 6); c.t = (int)s.range(0, 40);
  c.threads = any_threads(s, n);
  any_chunking(s, n, c);
  c.suppress = false;
  const auto in = points<Tf>(s, n, cls);
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
    c.str() + " " + show(in);
  ctx.describe(d);
  ctx.nontrivial(n >= 2);
  const auto q = parse_summary(run<Tf>(in, c).out);
  long pairs = 0; // points that coincide with their nearest
  const auto x = up(in);
  for (int i = 0; i < n; i++) {
    const auto o = geom::by_distance(x, i, 1);
    if (!o.empty() && geom::dist2(x[(size_t)i], x[(size_t)o[0]]) <
        1e4 * FT<Tf>::eps * FT<Tf>::eps) pairs++;
  }
  if (n < 2) PBT_CHECK(q.p == 0, "overflow without neighbours; " << d);
  else PBT_CHECK(q.p <= n && q.p >= n - pairs && q.sr == n, "reported "
    << q.p << " overflows and " << q.sr << " open cells of " << n << "; " << d);
}

// More failing cells than 15 or 16 bits count: one neighbour closes no cell.
template <typename Tf> static void many(Src& s, Ctx& ctx) {
  Cfg c;
  const int m = s.pick({41, 33, 40}); // 68921, 35937, 64000 points
  const int n = m * m * m - (int)s.range(0, 400);
  c.k = 1;
  c.gr = s.pick({24, 30, 41, 12});
  const int kind = (int)s.u(3); // ample, no planes, hardly any vertices
  c.p = kind == 1 ? 6 : s.pick({7, 32, 255});
  c.t = kind == 2 ? 8 : s.pick({16, 32, 512});
  c.threads = (int)s.range(1, 8);
  any_chunking(s, n, c);
  if (c.chunking && c.chunk > 0 && c.chunk < n / 40) c.chunk = n / 7;
  c.suppress = false;
  const bool gpu = s.chance(1, 4);
#ifndef VERIF_REAL_SYCL
  vsycl::config().has_gpu = gpu;
#endif
  uint64_t z = s.u(uint64_t(1) << 40);
  Set<Tf> in;
  for (int i = 0; i < n; i++) {
    const int at[3] = {i % m, i / m % m, i / m / m};
    std::array<Tf, 3> p;
    for (size_t q = 0; q < 3; q++) {
      z = pbt::mix64(z + 1);
      p[q] = inside<Tf>((at[q] + 0.2 + 0.6 * (double)(z >> 40) / 16777216.0) / m);
    }
    in.push_back(p);
  }
  const std::string d = std::string("jittered-lattice ") + FT<Tf>::name() + " " +
    c.str() + (gpu ? " gpu " : " ") + show(in, 2);
  ctx.describe(d);
  ctx.nontrivial();
  ctx.label(kind == 1 ? "no-planes" : kind == 2 ? "few-vertices" : "ample");
  const auto r = run<Tf>(in, c, gpu ? votess::device::gpu : votess::device::cpu);
  const auto q = parse_summary(r.out);
  long to = 0, unsure = 0;
  if (kind == 2) { // the row is the nearest point whether it fits or not
    const auto x = up(r.x);
    for (size_t i = 0; i < x.size(); i++) {
      PBT_CHECK(r.rows[i].size() == 1 && r.rows[i][0] >= 0 && r.rows[i][0] < n,
                "row " << i << " has not one entry; " << d);
      const auto e = geom::exact_cell(x, (int)i, {(int)r.rows[i][0]},
                                      FT<Tf>::eps, c.p, c.t);
      if (!e.certain) unsure++;
      else if (e.over == 2) to++;
    }
  }
  PBT_CHECK(q.sr == n, "reported " << q.sr << " open cells of " << n
            << " with one neighbour each; " << d);
  PBT_CHECK(q.p == (kind == 1 ? n : 0), "reported p overflow " << q.p << " of "
            << n << "; " << d);
  PBT_CHECK(q.t >= to && q.t <= to + unsure, "reported t overflow " << q.t
            << ", counted " << to << " to " << to + unsure << "; " << d);
  PBT_CHECK(q.inf == 0 && q.nv == 0 && q.nn == 0 && q.err == 0,
            "reported other failures: " << r.out << "; " << d);
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C19";
  const std::string rule = "1-160 points in general position, any k,"
    " capacities, chunks, threads, recompute, both devices; every count"
    " compared with an exact account, cells within rounding as slack;"
    " non-trivial when something is to be reported and at most a quarter of"
    " the cells is slack";
  p.subs = {
    {"double", rule, [](Src& s, Ctx& c) { one<double>(s, c); },
     6000, 120000, 60},
    {"float", rule, [](Src& s, Ctx& c) { one<float>(s, c); },
     6000, 120000, 60},
    {"big-cells", "100-245 points around a centre whose cell has up to 244"
     " faces, or faces with as many edges; " + rule,
     [](Src& s, Ctx& c) { one<double>(s, c, shell); }, 800, 20000, 60},
    {"no-room", "six planes or fewer; non-trivial with two points or more",
     noroom<double>, 4000, 60000, 60},
    {"many", "35000-69000 points with one neighbour each, which closes no cell;"
     " with ample, no or hardly any room; always non-trivial", many<float>, 32,
     400, 60},
  };
  for (auto& s : p.subs) s.deterministic = false;
  return p;
}
PBT_MAIN(make)
