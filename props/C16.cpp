// The device path computes what the host path computes, however the work is
// grouped, chunked and ordered, and whatever uninitialised memory holds.
#include "../lib/gen.hpp"
using namespace gen;

template <typename Tf> static void one(Src& s, Ctx& ctx, int size) {
  Cfg c;
  const int cls = size == 2 ? s.pick({(int)uniform, (int)jlattice, (int)cluster})
                            : size == 3 ? (int)shell : any_class(s);
  int n = size == 4 ? (int)s.range(66000, 69000)
        : size == 5 ? (int)s.range(2, 12) : size == 3 ? (int)s.range(100, 245) : size == 0 ? count(s, 0, 60, 150) : (int)s.range(300, 2000);
  switch (s.weighted({3, 3, 1})) {
    case 0: c.k = (int)s.range(1, std::max(1, std::min(n, 60))); break;
    case 1: c.k = std::max(1, n - 1 + (int)s.range(-1, 2)); break;
    default: c.k = n + (int)s.range(0, 90); break;
  }
  if (size == 2) c.k = (int)s.pick({24, 40, 64, 128, 260, 300, 520, 1100});
  c.gr = size == 2 ? (int)s.range(4, 20)
       : size == 5 ? s.pick({97, 129, 255, 256, 257, 257, 280, 300}) : any_gr(s);
  switch (s.weighted({2, 2, 2})) {
    case 0: c.p = 255; c.t = 512; break;
    case 1: break;
    default: c.p = (int)s.range(6, 255); c.t = (int)s.range(8, 300);
  }
  any_chunking(s, n, c);
  c.recompute = s.chance(1, 5);
  c.suppress = !s.chance(1, 6);
  Cfg g = c;
  switch (s.weighted({3, 3, 2, 1})) {
    case 0: g.nd = (int)s.range(1, 16); break;
    case 1: g.nd = s.pick({2, 4, 8, 16, 32, 64, 128, 256}); break;
    case 2: g.nd = std::max(1, n + (int)s.range(-1, 2)); break;
    default: g.nd = s.pick({0, -1, 33, 1000}); break;
  }
  g.threads = c.threads = (int)s.range(1, 4);
  // the host run may be divided otherwise
  if (s.chance(1, 2)) { c.chunking = false; }
  if (size == 4) {
    c.k = g.k = (int)s.range(8, 24);
    c.gr = g.gr = (int)s.range(24, 44);
    c.p = g.p = 48; c.t = g.t = 90;
    c.threads = 8;
    g.nd = std::min(g.nd, 1000);
    g.recompute = c.recompute = false;
    if (g.chunk > 0) c.chunk = g.chunk = std::max(g.chunk, 501);
  }
  if (size == 5) { // searching all of a fine grid takes its time
    c.k = g.k = (int)s.range(1, 3);
    c.recompute = g.recompute = false;
  }
  auto& v = vsycl::config();
  v.has_gpu = true;
  v.order_seed = s.u(5);
  v.poison = (uint8_t)s.pick({0xA5, 0x00, 0xFF, 0x7F, 0x01, 0x80});
  v.poison_noinit = s.chance(1, 2);
  const auto in = size == 4 ? crowd<Tf>(s, n) : points<Tf>(s, n, cls);
  n = (int)in.size();
  std::ostringstream o;
  o << cname(cls) << " " << FT<Tf>::name() << " " << g.str() << " order "
    << v.order_seed << " poison " << (int)v.poison << " " << show(in);
  const std::string d = o.str();
  ctx.describe(d);
  ctx.label(cname(cls));
  ctx.nontrivial(n >= 3 && (g.nd > 1 || g.chunking));
  const auto a = run<Tf>(in, c);
  v.items = 0;
  const auto b = run<Tf>(in, g, votess::device::gpu);
  PBT_CHECK(n == 0 || v.items > 0, "nothing ran on the device; " << d);
  well_formed(a, in.size());
  well_formed(b, in.size());
  PBT_CHECK(a.x == b.x, "the points are left in another order; " << d);
  size_t diff = 0;
  std::vector<geom::V> x;
  for (size_t i = 0; i < in.size(); i++) {
    if (a.rows[i] == b.rows[i]) continue;
    if (x.empty()) x = up(a.x);
    if (diff++ > 20) break;
    // one of them may round otherwise: judge cells beyond rounding
    const size_t k = c.recompute ? in.size() - 1
                   : (size_t)std::min<long>(c.k, n - 1);
    auto q = geom::by_distance(x, (int)i, k + 1);
    const bool clear = clear_order<Tf>(x, (int)i, q, k);
    if (q.size() > k) q.resize(k);
    const auto e = geom::exact_cell(x, (int)i, q, FT<Tf>::eps,
                     std::min(255, std::max(6, c.p)),
                     std::min(512, std::max(8, c.t)));
    if (!clear || !e.certain || (!e.sr_certain && e.over)) {
      ctx.label("differs-within-rounding");
      continue;
    }
    PBT_FAIL("row " << i << " is " << list(b.rows[i]) << " on the device and "
      << list(a.rows[i]) << " on the host; " << d);
  }
  if (c.suppress) PBT_CHECK(b.out.empty(), "printed " << b.out << "; " << d);
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C16";
  const std::string rule = "0-150 points of 16 classes; group sizes 1-1000 and"
    " invalid, chunks, five execution orders, six patterns of uninitialised"
    " memory; rows compared with the host's; non-trivial with 3 points and"
    " groups or chunks";
  p.subs = {
    {"double", rule, [](Src& s, Ctx& c) { one<double>(s, c, 0); },
     6000, 120000, 60},
    {"float", rule, [](Src& s, Ctx& c) { one<float>(s, c, 0); },
     6000, 120000, 60},
    {"big-cells", "100-245 points around a centre whose cell has up to 244"
     " faces; " + rule, [](Src& s, Ctx& c) { one<double>(s, c, 3); },
     500, 9000, 60},
    {"large", "300-2000 points; " + rule,
     [](Src& s, Ctx& c) { one<float>(s, c, 2); }, 120, 3000, 120},
    {"fine-grid", "2-12 points, k 1-3, grids of 97-300 cells a side; " + rule,
     [](Src& s, Ctx& c) { one<double>(s, c, 5); }, 16, 400, 180},
    {"huge", "66000-69000 points; " + rule,
     [](Src& s, Ctx& c) { one<float>(s, c, 4); }, 3, 40, 300},
  };
  p.assumptions = {"device kernels run on a host emulation of SYCL: work-items"
    " one after the other, every access checked"};
  return p;
}
PBT_MAIN(make)
