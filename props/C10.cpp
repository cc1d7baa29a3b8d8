// Memory safety and termination: whatever the coordinates and the parameters,
// a tessellation returns, without undefined behaviour, and with a result of
// the right shape. Built with the address and undefined-behaviour sanitizers.
#include "../lib/gen.hpp"
using namespace gen;

static Cfg config(Src& s, int n, Ctx& ctx) {
  Cfg c;
  switch (s.weighted({4, 2, 2, 1})) {
    case 0: c.k = (int)s.range(1, std::max(1, n)); break;
    case 1: c.k = (int)s.range(1, 30); break;
    case 2: c.k = std::max(1, n + (int)s.range(-2, 3)); break;
    default: c.k = (int)s.logrange(1, 5000); break;
  }
  c.gr = any_gr(s);
  switch (s.weighted({3, 3, 2, 1})) {
    case 0: break;
    case 1: c.p = (int)s.range(6, 64); c.t = (int)s.range(8, 64); break;
    case 2: c.p = (int)s.range(6, 255); c.t = (int)s.range(8, 512); break;
    default:
      c.p = s.pick({0, -1, 1, 5, 6, 7, 254, 255, 256, 257, 300, 65535, 65536});
      c.t = s.pick({0, -1, 1, 7, 8, 9, 255, 256, 511, 512, 513, 700, 65536});
  }
  c.threads = any_threads(s, n);
  any_chunking(s, n, c);
  c.recompute = s.chance(1, 4);
  c.nd = s.chance(1, 3) ? s.pick({0, -1, 2, 3, 16, 64}) : 1;
  c.suppress = !s.chance(1, 8);
  ctx.label(c.recompute ? "recompute" : "no-recompute");
  return c;
}

template <typename Tf>
static void go(Src& s, Ctx& ctx, const Set<Tf>& in, const Cfg& c,
               const std::string& what) {
  const bool gpu = s.chance(1, 3);
#ifndef VERIF_REAL_SYCL
  vsycl::config().has_gpu = gpu;
  vsycl::config().order_seed = s.u(3);
  vsycl::config().poison = (uint8_t)s.pick({0xA5, 0x00, 0xFF, 0x7F, 0x01});
#endif
  ctx.describe(what + " " + FT<Tf>::name() + " " + c.str() +
               (gpu ? " gpu " : " ") + show(in));
  ctx.label(gpu ? "gpu" : "cpu");
  const auto r = run<Tf>(in, c, gpu ? votess::device::gpu : votess::device::cpu);
  PBT_CHECK(r.rows.size() == in.size(), "result has " << r.rows.size()
            << " rows; " << ctx.desc);
  for (size_t i = 0; i < r.rows.size(); i++) for (long j : r.rows[i])
    PBT_CHECK(j >= 0 && (size_t)j < in.size(), "row " << i << " holds " << j
              << "; " << ctx.desc);
}

template <typename Tf> static void domain(Src& s, Ctx& ctx) {
  const int cls = any_class(s);
  const int n = count(s, 0, 40, 150);
  const Cfg c = config(s, n, ctx);
  const auto in = points<Tf>(s, n, cls);
  ctx.label(cname(cls));
  ctx.nontrivial(n >= 2);
  go(s, ctx, in, c, cname(cls));
}

template <typename Tf> static void hostile(Src& s, Ctx& ctx) {
  const int n = count(s, 0, 30, 80);
  const Cfg c = config(s, n, ctx);
  auto in = points<Tf>(s, n, any_class(s));
  const Tf odd[] = {0, 1, (Tf)-0.0, -1, 2, (Tf)1e-30, (Tf)-1e-30, (Tf)1e30,
    (Tf)-1e30, std::numeric_limits<Tf>::infinity(),
    -std::numeric_limits<Tf>::infinity(), std::numeric_limits<Tf>::quiet_NaN(),
    std::numeric_limits<Tf>::denorm_min(), std::numeric_limits<Tf>::max(),
    std::numeric_limits<Tf>::lowest(), (Tf)1.5, (Tf)-0.25,
    std::nextafter((Tf)1, (Tf)2), std::nextafter((Tf)0, (Tf)-1)};
  size_t bad = 0;
  for (auto& p : in) for (auto& v : p) if (s.chance(1, 6)) {
    v = odd[s.u(sizeof odd / sizeof *odd)];
    bad++;
  }
  ctx.nontrivial(bad > 0 && n >= 2);
  go(s, ctx, in, c, "out-of-range coordinates");
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C10";
  const std::string a = "0-150 points of 16 classes, k up to 5000, capacities"
    " and chunk, group and thread counts in and out of range, both devices;"
    " non-trivial with two points or more";
  const std::string b = "as domain, with coordinates that are 0, 1, outside,"
    " infinite, NaN, denormal or huge; non-trivial with at least one of those";
  p.subs = {
    {"domain", a, domain<float>, 8000, 80000, 60},
    {"domain-double", a, domain<double>, 6000, 60000, 60},
    {"hostile", b, hostile<float>, 6000, 60000, 60},
    {"hostile-double", b, hostile<double>, 4000, 60000, 60},
  };
  p.assumptions = {"k >= 1 and knn_grid_resolution >= 1"};
  for (auto& s : p.subs) s.deterministic = false;
  return p;
}
PBT_MAIN(make)
