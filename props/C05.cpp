// The way the work is divided never shows: threads, chunks, the device
// fallback, output suppression, the index type and repetition leave rows, row
// order and the order of the points exactly the same.
#include "../lib/gen.hpp"
using namespace gen;

template <typename Tf>
static void same(const Run<Tf>& a, const Run<Tf>& b, const std::string& what,
                 const std::string& d) {
  PBT_CHECK(a.x == b.x, "the order of the points differs " << what << "; " << d);
  PBT_CHECK(a.rows.size() == b.rows.size(), "number of rows differs: "
    << a.rows.size() << " and " << b.rows.size() << " " << what << "; " << d);
  for (size_t i = 0; i < a.rows.size(); i++)
    PBT_CHECK(a.rows[i] == b.rows[i], "row " << i << " is " << list(a.rows[i])
      << " and " << list(b.rows[i]) << " " << what << "; " << d);
}

template <typename Tf> static void one(Src& s, Ctx& ctx, bool big) {
  Cfg c;
  const int cls = any_class(s);
  const int n = big ? (int)s.range(300, 2500) : count(s, 0, 80, 300);
  c.k = s.chance(1, 4) ? std::max(1, n - 1) : (int)s.range(1, 40);
  if (big) c.k = s.chance(1, 8) ? (int)s.range(250, 300) : (int)s.range(1, 64);
  c.gr = any_gr(s);
  switch (s.weighted({2, 2, 1})) {
    case 0: c.p = 64; c.t = 128; break;
    case 1: break;
    default: c.p = (int)s.range(6, 60); c.t = (int)s.range(8, 80); break;
  }
  const bool re = s.chance(1, 3) && (!big || cls == uniform || cls == jlattice);
  c.recompute = re;
  c.threads = 1;
  const auto in = points<Tf>(s, n, cls);
  Cfg b = c;
  b.threads = any_threads(s, n);
  any_chunking(s, n, b);
  if (s.chance(1, 16)) b.threads = 0;
  if (big && b.chunking && b.chunk > 0) b.chunk = std::max(b.chunk, 11);
  b.suppress = !s.chance(1, 4);
  int how = (int)s.weighted({6, 1, 1, 1, 1});
  // points, entries and grid cells have to be countable
  if (how == 4 && ((int64_t)n * std::min(c.recompute ? n : c.k, n) > 32000 ||
                   c.gr > 31)) how = 0;
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
    c.str() + " vs " + b.str() + " mode " + std::to_string(how) + " " +
    show(in, big ? 2 : 12);
  ctx.describe(d);
  ctx.label(b.chunking ? "chunked" : "unchunked");
  ctx.label(b.threads > n ? "more-threads-than-points" : "threads");
  ctx.nontrivial(n > 3 && (b.threads > 1 || (b.chunking && b.chunk > 0 &&
                                              b.chunk < n)));
  const auto A = run<Tf>(in, c);
  well_formed(A, in.size());
  Run<Tf> B;
  std::string what = "with " + b.str();
  if (how == 1) {
#ifndef VERIF_REAL_SYCL
    vsycl::config().has_gpu = false;
    B = run<Tf>(in, b, votess::device::gpu);
#else
    B = run<Tf>(in, b);
#endif
    what += " when the GPU is asked for and there is none";
  } else if (how == 2) {
    B = run<Tf, int64_t>(in, b);
    what += " with 64-bit indices";
  } else if (how == 4) {
#ifndef VERIF_REAL_SYCL
    const bool gpu = s.chance(1, 2);
    vsycl::config().has_gpu = gpu;
#else
    const bool gpu = false;
#endif
    B = run<Tf, int16_t>(in, b, gpu ? votess::device::gpu : votess::device::cpu);
    what += gpu ? " with 16-bit indices on the device" : " with 16-bit indices";
    ctx.label("16-bit");
  } else if (how == 3) {
    (void)run<Tf>(in, b);
    B = run<Tf>(in, b);
    what += " the second time";
  } else B = run<Tf>(in, b);
  same(A, B, what, d);
}

// More working memory than 2^31 entries, with 32-bit indices and no chunks.
static void bulk(Src& s, Ctx& ctx, bool gpu) {
  const int n = (int)s.range(1399000, 1440000);
  Cfg c;
  c.k = (int)s.range(2, 6);
  c.gr = (int)s.range(40, 64);
  c.p = (int)s.range(6, 9);
  c.t = (int)s.range(512, 520);
  c.threads = 8;
  c.nd = (int)s.range(1, 64);
  c.recompute = !gpu && s.chance(1, 3);
  if (c.recompute) { c.k = (int)s.range(20, 30); c.p = 20; }
  uint64_t z = s.u(1u << 30);
  Set<float> in((size_t)n);
  for (auto& q : in) for (auto& v : q) {
    z += 0x9e3779b97f4a7c15ull;
    uint64_t h = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    h = (h ^ (h >> 27)) * 0x94d049bb133111ebull;
    v = ((float)(h >> 42) + 0.5f) / 4194304.0f;
  }
  Cfg b = c;
  b.chunking = true;
  b.chunk = (int)s.range(5000, 100000);
  const std::string d = std::to_string(n) + " uniform points " + c.str() +
    (gpu ? " gpu" : "") + " vs 64-bit indices, chunks of " +
    std::to_string(b.chunk);
  ctx.describe(d);
  ctx.label(gpu ? "device" : c.recompute ? "recompute" : "host");
  ctx.nontrivial();
#ifndef VERIF_REAL_SYCL
  vsycl::config().has_gpu = gpu;
#endif
  const auto dev = gpu ? votess::device::gpu : votess::device::cpu;
  const auto A = run<float, int64_t>(in, b, dev);
  const auto B = run<float>(in, c, dev);
  same(A, B, "without chunks", d);
}

// more points than 16 bits can number
static void huge(Src& s, Ctx& ctx) {
  Cfg c;
  c.k = (int)s.range(3, 24);
  c.gr = (int)s.range(24, 44);
  c.p = s.pick({6, 20, 48});
  c.t = s.pick({20, 90});
  const auto in = crowd<float>(s, (int)s.range(66000, 69000));
  const int n = (int)in.size();
  c.recompute = c.k > 15 && c.p > 6 && s.chance(1, 3);
  Cfg b = c;
  c.threads = s.chance(1, 2) ? 1 : 8;
  b.threads = (int)s.range(1, 40);
  if (s.chance(3, 4)) {
    b.chunking = true;
    b.chunk = s.chance(1, 2) ? (int)s.range(300, 9000)
            : s.chance(1, 2) ? s.pick({32768, 65535, 65536, 65537, n - 1, n})
                             : (int)s.range(9000, n);
  }
  const bool gpu = s.chance(1, 4);
#ifndef VERIF_REAL_SYCL
  vsycl::config().has_gpu = gpu;
#endif
  const std::string d = FT<float>::name() + std::string(" ") + c.str() + " vs " +
    b.str() + (gpu ? " gpu " : " ") + show(in, 2);
  ctx.describe(d);
  ctx.label(gpu ? "device" : c.recompute ? "recompute" : "host");
  ctx.nontrivial();
  const auto dev = gpu ? votess::device::gpu : votess::device::cpu;
  const auto A = run<float>(in, c, dev);
  const auto B = s.chance(1, 4) ? run<float, int64_t>(in, b, dev)
                                : run<float>(in, b, dev);
  same(A, B, "with " + b.str(), d);
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C05";
  const std::string rule = "one thread, no chunks against generated threads"
    " (0..64, more than points) and chunk sizes (1, N-2..N+2, divisors, 0,"
    " negative); device fallback, 64- and 16-bit indices, repetition; rows compared"
    " entry by entry; non-trivial when more than 3 points are really divided";
  p.subs = {
    {"double", rule, [](Src& s, Ctx& c) { one<double>(s, c, false); },
     8000, 150000, 60},
    {"float", rule, [](Src& s, Ctx& c) { one<float>(s, c, false); },
     8000, 150000, 60},
    {"large", "300-2500 points; " + rule,
     [](Src& s, Ctx& c) { one<float>(s, c, true); }, 200, 5000, 180},
    {"huge", "66000-69000 points; " + rule, huge, 12, 200, 300},
    {"bulk", "1.4 million points at the largest vertex capacity, so that the"
     " working memory has more than 2^31 entries; host, recompute;"
     " always non-trivial",
     [](Src& s, Ctx& c) { bulk(s, c, false); }, 1, 4, 600},
    {"bulk-device", "as bulk on the device",
     [](Src& s, Ctx& c) { bulk(s, c, true); }, 1, 3, 600},
  };
  for (auto& s : p.subs) s.deterministic = false;
  return p;
}
PBT_MAIN(make)
