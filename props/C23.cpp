// Calls leave no memory behind: after the results are gone, repeating the same
// calls, failing ones included, leaves exactly as much memory in use as before.
#include "../lib/heapcount.hpp"
#include "../lib/gen.hpp"
using namespace gen;

static const char* keys[] = {"k", "cc_p_maxsize", "dev_suppress_stdout",
  "knn_grid_resolution", "chunksize", "cpu_nthreads", "gpu_ndsize",
  "use_chunking", "use_recompute", "cc_t_maxsize"};

struct Call {
  Cfg c;
  bool gpu = false;
  int type = 0;   // float/int, double/int, float/long
  int breaks = 0; // a parameter that cannot be read: the call throws
  int oom = 0;    // this request for memory is refused: the call throws
  Set<double> in;
  std::string str() const {
    static const char* t[] = {"float/int ", "double/int ", "float/long "};
    return t[type] + c.str() + (c.suppress ? "" : " verbose") +
      (gpu ? " gpu" : "") +
      (breaks ? std::string(" ") + keys[breaks - 1] + "=?" : "") +
      (oom ? " refused=" + std::to_string(oom) : "") + " " + show(in, 4);
  }
};

template <typename Ti, typename Tf> static bool call(const Call& q) {
#ifndef VERIF_REAL_SYCL
  vsycl::config().has_gpu = q.gpu;
#endif
  Set<Tf> x;
  for (auto& p : q.in) x.push_back({(Tf)p[0], (Tf)p[1], (Tf)p[2]});
  auto a = gen::args(q.c);
  if (q.breaks == 5) a["use_chunking"] = true;
  if (q.breaks) a[keys[q.breaks - 1]] = std::string("?");
  Silence s;
  struct Refuse { Refuse(long n) { heapcount::refuse = n; }
                  ~Refuse() { heapcount::refuse = 0; } };
  try {
    Refuse r(q.oom);
    auto d = votess::tesellate<Ti, Tf>(x, a, q.gpu ? votess::device::gpu
                                                   : votess::device::cpu);
    heapcount::refuse = 0;
    // the container's own operations take part
    if (d.size() > 0) {
      auto e = d;
      if (e[0].size() > 0) e[0][0] = 0;
      d = std::move(e);
      d.print();
    }
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

static bool make_call(const Call& q) {
  return q.type == 0 ? call<int, float>(q) : q.type == 1 ? call<int, double>(q)
                                           : call<long, float>(q);
}

static void repeat(Src& s, Ctx& ctx, bool big) {
  const int m = (int)s.range(1, big ? 2 : 4);
  std::vector<Call> h;
  for (int i = 0; i < m; i++) {
    Call q;
    const int n = big ? (int)s.range(200, 1500) : count(s, 0, 40, 150);
    for (auto& p : points<float>(s, n, any_class(s)))
      q.in.push_back({p[0], p[1], p[2]});
    q.c.k = (int)s.range(1, n + 2);
    if (big) q.c.k = (int)s.range(1, 80);
    q.c.gr = any_gr(s);
    switch (s.u(3)) {
      case 0: break;
      case 1: q.c.p = 255; q.c.t = 512; break;
      default: q.c.p = (int)s.range(5, 40); q.c.t = (int)s.range(7, 70);
    }
    q.c.threads = any_threads(s, n);
    any_chunking(s, n, q.c);
    q.c.recompute = s.chance(1, 3) && !big;
    q.c.nd = (int)s.range(1, 20);
    q.c.suppress = !s.chance(1, 3);
    q.gpu = s.chance(1, 4);
    q.type = (int)s.u(3);
    q.breaks = s.chance(1, 5) ? (int)s.range(1, 10) : 0;
    if (!q.gpu && s.chance(1, 4)) q.oom = (int)s.range(1, 24);
    h.push_back(q);
  }
  std::string d;
  for (size_t i = 0; i < h.size(); i++)
    d += (i ? " THEN " : "") + h[i].str();
  ctx.describe(d);
  ctx.nontrivial();
  ctx.label("calls", (uint64_t)m);
  // two rounds to fill whatever is kept on purpose, then three that may add
  // nothing
  for (int r = 0; r < 2; r++) for (auto& q : h) if (make_call(q)) ctx.label("threw");
  const long b0 = heapcount::live(), n0 = heapcount::blocks();
  const long m0 = heapcount::system();
  for (int r = 0; r < 3; r++) for (auto& q : h) make_call(q);
  const long b1 = heapcount::live(), n1 = heapcount::blocks();
  PBT_CHECK(b1 <= b0 && n1 <= n0, "three more rounds leave " << b1 - b0
    << " bytes in " << n1 - n0 << " blocks behind; " << d);
  // memory taken past operator new: the C library's own caching is slack
  long grown = heapcount::system() - m0;
  if (grown > 65536) {
    const long m1 = heapcount::system();
    for (int r = 0; r < 30; r++) for (auto& q : h) make_call(q);
    grown = heapcount::system() - m1;
    PBT_CHECK(grown < 30 * 4096, "thirty more rounds take " << grown
      << " bytes from the C library that do not come back; " << d);
  }
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C23";
  const std::string rule = "1-4 calls (float and double, int and long, both"
    " devices, any parameters, unreadable ones included, refused memory) on 0-150 points of any"
    " class; repeated twice, then three times with all allocations counted;"
    " always non-trivial";
  p.subs = {
    {"small", rule, [](Src& s, Ctx& c) { repeat(s, c, false); }, 3000, 60000, 60},
    {"big", "1-2 calls on 200-1500 points; " + rule,
     [](Src& s, Ctx& c) { repeat(s, c, true); }, 200, 4000, 60},
  };
  for (auto& s : p.subs) s.deterministic = false;
  return p;
}
PBT_MAIN(make)
