// Chunking bounds the working memory: what a call needs at its peak beyond the
// points and rows themselves grows with the size of the chunk, not with the
// number of points.
#include "../lib/heapcount.hpp"
#include "../lib/gen.hpp"
using namespace gen;

template <typename Ti, typename Tf>
static long peak(const Set<Tf>& in, const Cfg& c, bool gpu, Rows& rows) {
#ifndef VERIF_REAL_SYCL
  vsycl::config().has_gpu = gpu;
#endif
  auto x = in;
  auto a = gen::args(c);
  Silence s;
  const long before = heapcount::live();
  heapcount::reset_peak();
  long top;
  {
    auto d = votess::tesellate<Ti, Tf>(x, a, gpu ? votess::device::gpu
                                                 : votess::device::cpu);
    top = heapcount::peak() - before;
    rows = rows_of(d);
  }
  return top;
}

template <typename Ti, typename Tf, bool lists = false>
static void one(Src& s, Ctx& ctx) {
  Cfg c;
  const int cls = s.pick({(int)uniform, (int)jlattice, (int)cluster,
                          (int)twoscale, (int)dups, (int)plane});
  const int n = (int)s.range(500, 2500);
  c.k = (int)s.range(60, 200);
  c.gr = (int)s.range(1, 12);
  // the room for a cell dwarfs a point and its row
  c.p = (int)s.range(120, 255);
  c.t = (int)s.range(128, 512);
  if (lists) { // the lists of nearest points are what takes room
    c.k = (int)s.range(400, std::min(n - 1, 1000));
    c.p = (int)s.range(48, 64);
    c.t = (int)s.range(80, 128);
  }
  c.threads = (int)s.range(1, 8);
  c.nd = (int)s.range(1, 16);
  const bool gpu = s.chance(1, 3);
  const auto in = points<Tf>(s, n, cls);
  Cfg q = c;
  q.chunking = true;
  q.chunk = (int)s.range(1, n / 8);
  if (gpu || s.chance(2, 3)) q.chunk = (int)s.range(n / 40 + 1, n / 8);
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
    q.str() + (gpu ? " gpu " : " ") + show(in, 2);
  ctx.describe(d);
  ctx.label(gpu ? "device" : "host");
  Rows whole, parts;
  const long a = peak<Ti, Tf>(in, c, gpu, whole);
  const long b = peak<Ti, Tf>(in, q, gpu, parts);
  // a row is no part of the working memory
  long fixed = 0;
  for (auto& r : whole) fixed += 48 + 6 * (long)r.size() * (long)sizeof(Ti);
  fixed += (long)n * 200 + (long)c.gr * c.gr * c.gr * 3 * (long)sizeof(Ti) + 65536;
  const long cell = (a - fixed) / n; // at least this much working memory a cell
  if (cell < 1000) { ctx.label("small-cells"); return; }
  ctx.nontrivial();
  PBT_CHECK(parts == whole, "the rows differ; " << d);
  PBT_CHECK(b <= a / 2 + fixed, "chunks of " << q.chunk << " of " << n << " points need "
    << b << " bytes, all at once " << a << "; " << d);
  PBT_CHECK(b <= 2 * fixed + 3 * (a / n) * q.chunk, "chunks of " << q.chunk
    << " of " << n << " points need " << b << " bytes, all at once " << a
    << " (" << a / n << " a point); " << d);
}

// More room for each cell is more room for the cells of a chunk only.
template <typename Ti, typename Tf>
static void room(Src& s, Ctx& ctx) {
  Cfg c;
  const int cls = s.pick({(int)uniform, (int)jlattice, (int)cluster});
  const int n = (int)s.range(3000, 8000);
  c.k = (int)s.range(2, 4);
  c.gr = (int)s.range(6, 14);
  c.p = (int)s.range(200, 255);
  c.t = (int)s.range(350, 512);
  c.threads = (int)s.range(1, 4);
  c.nd = (int)s.range(1, 16);
  const bool gpu = s.chance(1, 3);
  const auto in = points<Tf>(s, n, cls);
  Cfg q = c, c0 = c, q0;
  q.chunking = true;
  q.chunk = (int)s.range(n / 1000 + 1, n / 400);
  q0 = q;
  c0.p = q0.p = (int)s.range(6, 9);
  c0.t = q0.t = (int)s.range(8, 12);
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
    q.str() + (gpu ? " gpu " : " ") + show(in, 2);
  ctx.describe(d);
  ctx.label(gpu ? "device" : "host");
  Rows r;
  const long a = peak<Ti, Tf>(in, c, gpu, r), a0 = peak<Ti, Tf>(in, c0, gpu, r),
             b = peak<Ti, Tf>(in, q, gpu, r), b0 = peak<Ti, Tf>(in, q0, gpu, r);
  // rows may be shorter or longer, by k entries at most
  const long rows = (long)n * c.k * (long)sizeof(Ti) * 6 + 16384;
  if (a - a0 < 4 * rows) { ctx.label("small-cells"); return; }
  ctx.nontrivial();
  PBT_CHECK(b - b0 <= 2 * ((a - a0) / n + 1) * q.chunk + rows, "room for "
    << c.p << " planes and " << c.t << " vertices instead of " << c0.p << " and "
    << c0.t << " takes " << b - b0 << " bytes more with chunks of " << q.chunk
    << " of " << n << " points, and " << a - a0 << " without; " << d);
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C24";
  const std::string rule = "500-2500 points, k 60-200, generous capacities,"
    " chunks of at most an eighth; peak of what operator new hands out, against"
    " the same call without chunks; non-trivial when a cell's working memory"
    " dwarfs its row";
  p.subs = {
    {"float", rule, one<int, float>, 160, 4000, 60},
    {"double", rule, one<int, double>, 120, 4000, 60},
    {"lists", "k 400-1000, modest capacities; " + rule,
     one<int, float, true>, 80, 2000, 60},
    {"room", "3000-8000 points, k 2-4, chunks of at most 1 in 400; peak with"
     " capacities of 200-255 and 350-512 against the least; non-trivial when"
     " the room dwarfs the rows", room<int, float>, 40, 1000, 60},
    {"wide", "64-bit indices; " + rule, one<long, float>, 80, 2000, 60},
  };
  return p;
}
PBT_MAIN(make)
