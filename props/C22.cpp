// Threads share nothing they write: with any number of threads, any chunks and
// recompute, no two threads touch the same memory with one of them writing
// (ThreadSanitizer is the oracle), and the rows are those of one thread.
#include "../lib/gen.hpp"
using namespace gen;

template <typename Ti, typename Tf> static void one(Src& s, Ctx& ctx, bool big) {
  Cfg c;
  const int cls = any_class(s);
  const int n = big ? (int)s.range(150, 900) : count(s, 1, 40, 110);
  c.k = (int)s.range(1, big ? 40 : n + 2);
  c.gr = big ? (int)s.range(2, 12) : (int)s.range(1, 8);
  switch (s.u(3)) {
    case 0: break;
    case 1: c.p = 255; c.t = 512; break;
    default: c.p = (int)s.range(5, 30); c.t = (int)s.range(7, 50);
  }
  c.threads = s.chance(1, 6) ? 0 : (int)s.range(2, 12);
  any_chunking(s, n, c);
  c.recompute = s.chance(1, 2);
  const bool gpu = s.chance(1, 10);
#ifndef VERIF_REAL_SYCL
  vsycl::config().has_gpu = gpu;
#endif
  Cfg single = c;
  single.threads = 1;
  const auto in = points<Tf>(s, n, cls);
  const std::string d = std::string(cname(cls)) + " " + FT<Tf>::name() + " " +
    c.str() + (gpu ? " gpu " : " ") + show(in, big ? 3 : 12);
  ctx.describe(d);
  ctx.label(c.recompute ? "recompute" : "plain");
  ctx.label(c.chunking ? "chunks" : "whole");
  ctx.nontrivial(n >= 2 && c.threads != 1);
  const auto dev = gpu ? votess::device::gpu : votess::device::cpu;
  const auto A = run<Tf, Ti>(in, c, dev), B = run<Tf, Ti>(in, single, dev);
  PBT_CHECK(A.x == B.x, "threads change the order of the points; " << d);
  PBT_CHECK(A.rows.size() == B.rows.size(), "threads change the number of rows; "
            << d);
  for (size_t i = 0; i < A.rows.size(); i++)
    PBT_CHECK(A.rows[i] == B.rows[i], "row " << i << " is " << list(A.rows[i])
      << ", with one thread " << list(B.rows[i]) << "; " << d);
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C22";
  const std::string rule = "points of 16 classes, 2-12 threads or as many as"
    " there are processors, any k, capacities, chunks, recompute; run under"
    " ThreadSanitizer and compared with one thread; non-trivial with two"
    " points or more";
  p.subs = {
    {"float", "1-110 " + rule,
     [](Src& s, Ctx& c) { one<int, float>(s, c, false); }, 5000, 30000, 120},
    {"double", "1-110 " + rule,
     [](Src& s, Ctx& c) { one<long, double>(s, c, false); }, 4000, 30000, 120},
    {"large", "150-900 " + rule,
     [](Src& s, Ctx& c) { one<int, float>(s, c, true); }, 48, 2500, 240},
  };
  for (auto& s : p.subs) s.deterministic = false;
  p.assumptions = {"ThreadSanitizer sees the accesses of the generated runs"
    " only; kernels run on one thread in the emulation of SYCL"};
  return p;
}
PBT_MAIN(make)
