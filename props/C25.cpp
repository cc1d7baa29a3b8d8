// Work runs where it was asked for, with the threads it was given: never more
// threads at a time than cpu_nthreads, none left behind, kernels on a device
// exactly when a GPU was asked for and is there.
#include <dlfcn.h>
#include <pthread.h>
#include <atomic>
#include "../lib/gen.hpp"
using namespace gen;

namespace count_threads {
static std::atomic<long> alive{0}, most{0}, made{0};
struct Start { void* (*f)(void*); void* a; };
static void* run(void* p) {
  const Start s = *(Start*)p;
  delete (Start*)p;
  struct End { ~End() { alive--; } } e;
  return s.f(s.a);
}
static void reset() { most = alive.load(); made = 0; }
}

// every way of starting a thread ends here
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* at,
                              void* (*f)(void*), void* a) {
  using F = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  static const F real = (F)dlsym(RTLD_NEXT, "pthread_create");
  using namespace count_threads;
  made++;
  const long n = ++alive;
  long m = most.load();
  while (n > m && !most.compare_exchange_weak(m, n)) {}
  const int r = real(t, at, run, new Start{f, a});
  if (r) alive--;
  return r;
}

template <typename Ti, typename Tf> static void one(Src& s, Ctx& ctx, bool big) {
  Cfg c;
  const int cls = any_class(s);
  const int n = big ? (int)s.range(300, 3000) : count(s, 0, 60, 200);
  const auto in = points<Tf>(s, n, cls);
  c.k = big ? (int)s.range(4, 60) : (int)s.range(1, n + 2);
  c.gr = any_gr(s);
  switch (s.u(3)) {
    case 0: break;
    case 1: c.p = 255; c.t = 512; break;
    default: c.p = (int)s.range(5, 40); c.t = (int)s.range(7, 70);
  }
  c.threads = s.chance(1, 8) ? 0 : any_threads(s, n);
  any_chunking(s, n, c);
  c.recompute = s.chance(1, 2);
  c.nd = (int)s.range(1, 20);
  c.suppress = !s.chance(1, 4);
  const bool ask = s.chance(1, 3), there = s.chance(1, 2);
  const bool breaks = s.chance(1, 12);
  const std::string d = std::string(cname(cls)) + " " + c.str() +
    (ask ? " gpu" : " cpu") + (there ? " with a GPU" : " without a GPU") +
    (breaks ? " use_recompute=?" : "") + " " + show(in, 4);
  ctx.describe(d);
  const long allowed = c.threads ? c.threads
    : std::max(1L, (long)std::thread::hardware_concurrency());
  auto a = gen::args(c);
  if (breaks) a["use_recompute"] = std::string("?");
  auto x = in;
  long before, after, most, made;
  bool threw = false;
  std::string err;
#ifndef VERIF_REAL_SYCL
  vsycl::config().has_gpu = there;
  const size_t l0 = vsycl::config().launches;
#endif
  {
    Silence q;
    before = count_threads::alive;
    count_threads::reset();
    try {
      auto r = votess::tesellate<Ti, Tf>(x, a, ask ? votess::device::gpu
                                                   : votess::device::cpu);
      (void)r;
    } catch (const std::invalid_argument&) { threw = true; }
    after = count_threads::alive;
    most = count_threads::most;
    made = count_threads::made;
    err = q.err.str();
  }
  PBT_CHECK(threw == breaks, (threw ? "the call throws" : "an unreadable"
    " parameter is accepted") << "; " << d);
  PBT_CHECK(after <= before, after - before << " threads are still running"
    " after the call; " << d);
  PBT_CHECK(most - before <= allowed, most - before << " threads at a time,"
    " allowed are " << allowed << "; " << d);
  ctx.nontrivial(n >= 2 && allowed >= 2 && most > before);
  if (c.recompute) ctx.label("recompute");
#ifndef VERIF_REAL_SYCL
  const size_t launches = vsycl::config().launches - l0;
  const bool device = ask && there;
  if (!threw || launches) PBT_CHECK(n == 0 || (launches > 0) == device, launches
    << " kernels launched; " << d);
  const bool warned = err.find("GPU") != std::string::npos;
  PBT_CHECK(warned == (ask && !there), (warned ? "a warning about the GPU"
    " although none is called for: " : "no warning about the absent GPU: ")
    << err << "; " << d);
#else
  const bool device = ask;
#endif
  // the work is shared out
  if (!device && !threw && n >= allowed)
    PBT_CHECK(made >= allowed - 1, made << " threads started, asked for were "
      << allowed << "; " << d);
  if (device) ctx.label("device");
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C25";
  const std::string rule = "0-200 points of any class, threads 0-300, any"
    " chunking, recompute, device asked for or not and there or not; every"
    " thread started and every kernel launched is counted; non-trivial when"
    " several threads are allowed and some run";
  p.subs = {
    {"float", rule, [](Src& s, Ctx& c) { one<int, float>(s, c, false); },
     3000, 60000, 60},
    {"double", rule, [](Src& s, Ctx& c) { one<int, double>(s, c, false); },
     2000, 60000, 60},
    {"wide", "64-bit indices; " + rule,
     [](Src& s, Ctx& c) { one<long, float>(s, c, false); }, 1000, 30000, 60},
    {"big", "300-3000 points; " + rule,
     [](Src& s, Ctx& c) { one<int, float>(s, c, true); }, 120, 3000, 120},
  };
  for (auto& s : p.subs) s.deterministic = false;
  return p;
}
PBT_MAIN(make)
