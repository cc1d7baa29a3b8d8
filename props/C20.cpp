// Too small a capacity costs precision of the cell it concerns, and nothing
// else: such a row is the whole list of the k nearest points, in order; every
// other row is what ample capacities give.
#include "../lib/gen.hpp"
using namespace gen;

template <typename Tf> static void one(Src& s, Ctx& ctx, int big,
                                     int only = -1) {
  Cfg c;
  const int cls = only >= 0 ? only : big ? s.pick({(int)uniform, (int)cluster, (int)jlattice})
                      : any_class(s);
  int n = only >= 0 ? (int)s.range(100, 245)
              : big == 2 ? (int)s.range(66000, 69000)
              : big ? (int)s.range(300, 2500) : count(s, 2, 80, 220);
  c.k = big && s.chance(1, 8) ? 257 : big ? (int)s.range(10, 90)
      : s.chance(1, 2) ? std::max(1, n - 1) : (int)s.range(1, std::max(1, n));
  c.gr = big ? (int)s.range(3, 20) : any_gr(s);
  switch (s.weighted({4, 2, 2, 2, 1})) {
    case 0: c.p = (int)s.range(6, 40); c.t = (int)s.range(8, 70); break;
    case 1: c.p = (int)s.range(6, 40); c.t = 512; break;
    case 2: c.p = 255; c.t = (int)s.range(8, 70); break;
    case 3: break;
    default: c.p = (int)s.range(-2, 8); c.t = (int)s.range(-2, 12);
  }
  if (only >= 0) { c.p = (int)s.range(60, 255); c.t = (int)s.range(100, 512); }
  c.threads = any_threads(s, n);
  any_chunking(s, n, c);
  if (big == 2) {
    c.gr = (int)s.range(20, 44);
    c.threads = 8;
    if (c.chunk > 0) c.chunk = std::max(c.chunk, 301);
    c.p = (int)s.range(20, 32);
    c.t = (int)s.range(30, 60);
    c.k = (int)s.range(20, 36);
  }
  const bool gpu = s.chance(1, 5);
#ifndef VERIF_REAL_SYCL
  vsycl::config().has_gpu = gpu;
#endif
  Cfg ample = c, none = c;
  ample.p = 255; ample.t = 512;
  none.p = 6; none.t = 8;
  const auto in = big == 2 ? crowd<Tf>(s, n) : points<Tf>(s, n, cls);
  n = (int)in.size();
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
    c.str() + (gpu ? " gpu " : " ") + show(in, big ? 2 : 12);
  ctx.describe(d);
  ctx.label(cname(cls));
  const auto dev = gpu ? votess::device::gpu : votess::device::cpu;
  const auto A = run<Tf>(in, c, dev), B = run<Tf>(in, ample, dev),
             R = run<Tf>(in, none, dev);
  well_formed(A, in.size());
  well_formed(B, in.size());
  well_formed(R, in.size());
  PBT_CHECK(A.x == B.x && A.x == R.x, "capacities change the order of the"
            " points; " << d);
  const auto x = up(A.x);
  const size_t k = (size_t)std::min<long>(c.k, (long)n - 1);
  const int p = std::min(255, std::max(6, c.p)),
            t = std::min(512, std::max(8, c.t));
  bool full = false, kept = false;
  size_t judged = 0;
  for (size_t i = 0; i < x.size(); i++) {
    const bool is_full = A.rows[i] == R.rows[i], is_same = A.rows[i] == B.rows[i];
    PBT_CHECK(is_full || is_same, "row " << i << " is " << list(A.rows[i])
      << ": neither the row with ample capacities " << list(B.rows[i])
      << " nor the list of nearest points " << list(R.rows[i]) << "; " << d);
    full = full || !is_same;
    kept = kept || !is_full;
    if (judged >= (big ? 30u : 80u) || (big && i % (big == 2 ? 2203 : 37) != 0)) continue;
    auto o = geom::by_distance(x, (int)i, k + 1);
    if (!clear_order<Tf>(x, (int)i, o, k)) continue;
    if (o.size() > k) o.resize(k);
    const std::vector<long> raw(o.begin(), o.end());
    // the first bisector cuts for certain: with six planes nothing fits
    const auto er = geom::exact_cell(x, (int)i, o, FT<Tf>::eps, 6, 8);
    if (er.certain && er.over && er.sr_certain) PBT_CHECK(R.rows[i] == raw, "row " << i << " with no room is "
      << list(R.rows[i]) << ", the nearest points are " << list(raw) << "; "
      << d);
    const auto e = geom::exact_cell(x, (int)i, o, FT<Tf>::eps, p, t);
    if (!e.certain || (e.over && !e.sr_certain)) { ctx.label("uncertain");
                                                   continue; }
    judged++;
    ctx.label(e.over == 1 ? "too-few-planes" : e.over == 2 ? "too-few-vertices"
              : "fits");
    if (e.over) PBT_CHECK(is_full, "row " << i << " is " << list(A.rows[i])
      << " although its cell does not fit; the nearest points are "
      << list(raw) << "; " << d);
    else {
      std::vector<long> want(e.faces.begin(), e.faces.end());
      PBT_CHECK(A.rows[i] == want, "row " << i << " is " << list(A.rows[i])
        << " although its cell fits (" << e.planes << " planes, " << e.vmax
        << " vertices) and has the faces " << list(want) << "; " << d);
    }
  }
  ctx.nontrivial(full && kept);
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C20";
  const std::string rule = "2-220 points of 16 classes, capacities from below"
    " the minimum to ample, both devices, threads, chunks; every row compared"
    " with the ample and the no-room runs, and with an exact account of planes"
    " and vertices; non-trivial when some rows fit and some do not";
  p.subs = {
    {"double", rule, [](Src& s, Ctx& c) { one<double>(s, c, false); },
     4000, 100000, 60},
    {"float", rule, [](Src& s, Ctx& c) { one<float>(s, c, false); },
     4000, 100000, 60},
    {"big-cells", "100-245 points around a centre whose cell has up to 244"
     " faces, capacities of 60-255 and 100-512; " + rule,
     [](Src& s, Ctx& c) { one<double>(s, c, false, shell); }, 700, 12000, 60},
    {"large", "300-2500 points; " + rule,
     [](Src& s, Ctx& c) { one<float>(s, c, true); }, 100, 2500, 120},
    {"huge", "66000-69000 points; " + rule,
     [](Src& s, Ctx& c) { one<float>(s, c, 2); }, 3, 40, 300},
  };
  for (auto& s : p.subs) s.deterministic = false;
  return p;
}
PBT_MAIN(make)
