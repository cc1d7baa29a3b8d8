// A call depends on its arguments alone: whatever was computed before in the
// process, the rows are those of a process that makes this call first, earlier
// results stay as they were, and so do the arguments and std::cout.
#include "../lib/heapcount.hpp"
#include "../lib/gen.hpp"
using namespace gen;

static const char* keys[] = {"k", "cpu_nthreads", "gpu_ndsize", "chunksize",
  "use_chunking", "use_recompute", "knn_grid_resolution", "cc_p_maxsize",
  "cc_t_maxsize", "dev_suppress_stdout"};

struct Call {
  Cfg c;
  bool gpu = false, dbl = false, wide = false, same_obj = false;
  int breaks = 0; // a parameter that cannot be read: the call throws
  int oom = 0;    // this request for memory is refused
  Set<double> in; // exact in either type
  std::string str() const {
    static const char* b[] = {"", " k=abc", " p=?", " suppress=x", " gr=none"};
    return std::string(dbl ? "double" : "float") + (wide ? "/long " : "/int ") +
      c.str() + (c.suppress ? "" : " verbose") + (gpu ? " gpu" : "") +
      (breaks > 4 ? std::string(" ") + keys[breaks - 5] + "=?" : b[breaks]) +
      (oom ? " refused=" + std::to_string(oom) : "") +
      (same_obj ? " same-vector" : "") + " " + show(in, 4);
  }
};

struct Sink : std::streambuf { // what is printed; its own memory is not refused
  std::string s;
  int_type overflow(int_type c) override {
    if (c != traits_type::eof()) { const char b = (char)c; xsputn(&b, 1); }
    return 0;
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    const long r = heapcount::refuse;
    heapcount::refuse = 0;
    s.append(p, (size_t)n);
    heapcount::refuse = r;
    return n;
  }
};

struct Got {
  bool threw = false, refused = false;
  Rows rows;
  Set<double> x;
  std::string out, err;
};

struct Keep { virtual ~Keep() {} virtual Rows rows() = 0; };
template <typename D> struct KeepD : Keep {
  D d;
  explicit KeepD(D&& q) : d(std::move(q)) {}
  Rows rows() override { return rows_of(d); }
};

template <typename Ti, typename Tf>
static Got call(const Call& q, Set<Tf>& x, std::unique_ptr<Keep>* keep) {
  Got g;
#ifndef VERIF_REAL_SYCL
  vsycl::config().has_gpu = q.gpu;
#endif
  auto a = gen::args(q.c);
  if (q.breaks == 1) a["k"] = std::string("abc");
  if (q.breaks == 2) a["cc_p_maxsize"] = std::string("?");
  if (q.breaks == 3) a["dev_suppress_stdout"] = std::string("x");
  if (q.breaks == 4) a["knn_grid_resolution"] = std::string("none");
  if (q.breaks > 4) a[keys[q.breaks - 5]] = std::string("?");
  std::vector<std::string> before;
  for (auto k : keys) before.push_back(a[k].template get<std::string>());
  Sink out, err;
  std::streambuf* const o0 = std::cout.rdbuf(&out);
  std::streambuf* const e0 = std::cerr.rdbuf(&err);
  std::cout.clear();
  const auto fl = std::cout.flags();
  const auto pr = std::cout.precision();
  std::streambuf* after = nullptr;
  std::string broken;
  {
    struct Back { std::streambuf *o, *e; ~Back() { std::cout.rdbuf(o);
                                                   std::cerr.rdbuf(e); } }
      back{o0, e0};
    try {
      heapcount::refuse = q.oom;
      auto d = votess::tesellate<Ti, Tf>(x, a, q.gpu ? votess::device::gpu
                                                     : votess::device::cpu);
      heapcount::refuse = 0;
      after = std::cout.rdbuf();
      g.rows = rows_of(d);
      if (keep) keep->reset(new KeepD<decltype(d)>(std::move(d)));
    } catch (const std::invalid_argument&) {
      heapcount::refuse = 0;
      after = std::cout.rdbuf();
      g.threw = true;
    } catch (const std::bad_alloc&) {
      heapcount::refuse = 0;
      after = std::cout.rdbuf();
      if (!q.oom) throw;
      g.threw = g.refused = true;
    }
    if (after != &out) broken = "std::cout writes elsewhere after the call";
    else if (!std::cout.good()) broken = "std::cout is in a failed state";
    else if (std::cout.flags() != fl || std::cout.precision() != pr)
      broken = "the format of std::cout has changed";
    else if (std::cerr.rdbuf() != &err)
      broken = "std::cerr writes elsewhere after the call";
  }
  PBT_CHECK(broken.empty(), broken << "; " << q.str());
  g.out = out.s;
  g.err = err.s;
  for (size_t i = 0; i < before.size(); i++)
    PBT_CHECK(a[keys[i]].template get<std::string>() == before[i], "the caller's "
      << keys[i] << " changed from " << before[i] << " to "
      << a[keys[i]].template get<std::string>() << "; " << q.str());
  for (auto& p : x) g.x.push_back({(double)p[0], (double)p[1], (double)p[2]});
  return g;
}

struct Objects { Set<float> f; Set<double> d; };

static Got make_call(const Call& q, Objects& ob, std::unique_ptr<Keep>* keep) {
  if (q.dbl) {
    Set<double> fresh, &x = q.same_obj ? ob.d : fresh;
    x.assign(q.in.begin(), q.in.end());
    return q.wide ? call<long, double>(q, x, keep) : call<int, double>(q, x, keep);
  }
  Set<float> fresh, &x = q.same_obj ? ob.f : fresh;
  x.clear();
  for (auto& p : q.in) x.push_back({(float)p[0], (float)p[1], (float)p[2]});
  return q.wide ? call<long, float>(q, x, keep) : call<int, float>(q, x, keep);
}

static void blob(std::string& o, const void* p, size_t n) {
  o.append((const char*)p, n);
}
static std::string pack(const Got& g) {
  std::string o;
  auto num = [&](uint64_t v) { blob(o, &v, 8); };
  num(g.threw);
  num(g.rows.size());
  for (auto& r : g.rows) { num(r.size()); blob(o, r.data(), r.size() * 8); }
  num(g.x.size());
  blob(o, g.x.data(), g.x.size() * sizeof(g.x[0]));
  num(g.out.size()); o += g.out;
  num(g.err.size()); o += g.err;
  return o;
}
static bool unpack(const std::string& s, Got& g) {
  size_t at = 0;
  bool ok = true;
  auto num = [&]() -> uint64_t { uint64_t v = 0;
    if (at + 8 > s.size()) { ok = false; return 0; }
    std::memcpy(&v, s.data() + at, 8); at += 8; return v; };
  auto raw = [&](void* p, size_t n) { if (n > s.size() - at) { ok = false; return; }
    std::memcpy(p, s.data() + at, n); at += n; };
  g.threw = num();
  const uint64_t n = num();
  for (uint64_t i = 0; ok && i < n; i++) {
    const uint64_t m = num();
    if (!ok || m > s.size()) return false;
    g.rows.emplace_back(m);
    raw(g.rows.back().data(), m * 8);
  }
  const uint64_t m = num();
  if (!ok || m > s.size()) return false;
  g.x.resize(m);
  raw(g.x.data(), m * sizeof(g.x[0]));
  for (auto* t : {&g.out, &g.err}) {
    const uint64_t l = num();
    if (!ok || l > s.size()) return false;
    t->resize(l);
    raw(&(*t)[0], l);
  }
  return ok;
}

// the call made alone, in a child forked before any of the history
static Got alone(const Call& q) {
  int fd[2];
  if (pipe(fd)) _exit(2);
  std::fflush(nullptr);
  const pid_t p = fork();
  if (p == 0) {
    close(fd[0]);
    std::string o;
    try { Objects ob; o = "+" + pack(make_call(q, ob, nullptr)); }
    catch (const std::exception& e) { o = std::string("-") + e.what(); }
    for (size_t w = 0; w < o.size();) {
      const ssize_t k = write(fd[1], o.data() + w, o.size() - w);
      if (k <= 0) break;
      w += (size_t)k;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string o;
  char b[65536];
  ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0) o.append(b, (size_t)k);
  close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  if (!o.empty() && o[0] == '-') PBT_FAIL(o.substr(1));
  Got g;
  PBT_CHECK(!o.empty() && unpack(o.substr(1), g), "the call alone ends the"
            " process; " << q.str());
  return g;
}

static void history(Src& s, Ctx& ctx, bool big) {
  const int m = (int)s.range(2, big ? 4 : 7);
  std::vector<Call> h;
  for (int i = 0; i < m; i++) {
    Call q;
    if (i && s.chance(2, 5)) {
      // like an earlier call, with something changed
      q = h[s.u((uint64_t)i)];
      switch (s.u(9)) {
        case 0: break;
        case 1: q.c.k = (int)s.range(1, (int)q.in.size() + 2); break;
        case 2: q.c.gr = any_gr(s); break;
        case 3: { const auto z = points<float>(s, (int)q.in.size(), any_class(s));
                  q.in.clear();  // as many other points
                  for (auto& p : z) q.in.push_back({p[0], p[1], p[2]}); break; }
        case 4: q.dbl = !q.dbl; break;
        case 5: q.c.threads = any_threads(s, (int)q.in.size()); break;
        case 6: q.c.recompute = !q.c.recompute; break;
        case 7: any_chunking(s, (int)q.in.size(), q.c); break;
        default: { auto& p = q.in[s.u(q.in.size())]; // one point moved
                   p = {(double)inside<float>(s.unit(20)),
                        (double)inside<float>(s.unit(20)),
                        (double)inside<float>(s.unit(20))}; }
      }
    } else {
      const int cls = any_class(s);
      const int n = big ? (int)s.range(100, 1500) : count(s, 1, 60, 150);
      for (auto& p : points<float>(s, n, cls)) q.in.push_back({p[0], p[1], p[2]});
      q.c.k = (int)s.range(1, n + 2);
      q.c.gr = any_gr(s);
      switch (s.u(3)) {
        case 0: break;
        case 1: q.c.p = 255; q.c.t = 512; break;
        default: q.c.p = (int)s.range(5, 40); q.c.t = (int)s.range(7, 70);
      }
      q.c.threads = any_threads(s, n);
      any_chunking(s, n, q.c);
      q.c.recompute = s.chance(1, 3);
      q.c.nd = (int)s.range(1, 20);
      q.dbl = s.chance(1, 2);
      q.wide = s.chance(1, 4);
    }
    q.c.suppress = !s.chance(i && h[(size_t)i - 1].breaks ? 2 : 1, 3);
    q.gpu = s.chance(1, 4);
    q.same_obj = s.chance(1, 3);
    q.breaks = s.chance(1, 5) ? (int)s.range(1, 14) : 0;
    q.oom = !q.gpu && s.chance(1, 6) ? (int)s.range(1, 24) : 0;
    h.push_back(q);
  }
  std::string d;
  for (size_t i = 0; i < h.size(); i++)
    d += (i ? " THEN " : "") + h[i].str();
  ctx.describe(d);
  ctx.nontrivial();
  ctx.label("calls", (uint64_t)m);
  std::vector<Got> want;
  for (auto& q : h) { // with all the memory it asks for
    Call r = q;
    r.oom = 0;
    want.push_back(alone(r));
  }
  Objects ob;
  std::vector<std::unique_ptr<Keep>> kept(h.size());
  for (size_t i = 0; i < h.size(); i++) {
    const Got g = make_call(h[i], ob, &kept[i]);
    const Got& w = want[i];
    if (g.threw) ctx.label(g.refused ? "out-of-memory" : "threw");
    if (h[i].oom && (g.refused || g.threw || !g.out.empty())) {
      // no more is asked than that the points are still there
      auto a = h[i].in, b = g.x;
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
      PBT_CHECK(a == b, "call " << i << ", refused memory, changes the points; "
        << d);
      continue;
    }
    PBT_CHECK(g.threw == w.threw, "call " << i << (g.threw ? " throws" :
      " does not throw") << ", alone it does the opposite; " << d);
    if (h[i].breaks <= 4) PBT_CHECK(g.threw == (h[i].breaks != 0), "call " << i << (g.threw ?
      " throws" : " accepts a parameter that is no number") << "; " << d);
    PBT_CHECK(g.x == w.x, "call " << i << " leaves the points in another order"
              " than alone; " << d);
    auto a = h[i].in, b = g.x;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    PBT_CHECK(a == b, "call " << i << " changes the points; " << d);
    PBT_CHECK(g.rows.size() == w.rows.size(), "call " << i << " has "
      << g.rows.size() << " rows, alone " << w.rows.size() << "; " << d);
    for (size_t r = 0; r < g.rows.size(); r++)
      PBT_CHECK(g.rows[r] == w.rows[r], "call " << i << " row " << r << " is "
        << list(g.rows[r]) << ", alone " << list(w.rows[r]) << "; " << d);
    PBT_CHECK(g.out == w.out, "call " << i << " prints '" << g.out
      << "', alone '" << w.out << "'; " << d);
    PBT_CHECK(g.err == w.err, "call " << i << " reports '" << g.err
      << "', alone '" << w.err << "'; " << d);
    if (h[i].breaks == 14) ; // keys[9]: unreadable
    else if (h[i].c.suppress && h[i].breaks != 3)
      PBT_CHECK(g.out.empty(), "call " << i << " prints '" << g.out
        << "' although dev_suppress_stdout is set; " << d);
    else if (!g.threw) PBT_CHECK(!g.out.empty(), "call " << i << " prints"
      " nothing although dev_suppress_stdout is off; " << d);
    for (size_t j = 0; j <= i; j++) if (kept[j])
      PBT_CHECK(kept[j]->rows() == want[j].rows, "the result of call " << j
        << " has changed after call " << i << "; " << d);
  }
}

// a long history of few small calls, made again and again in any order
static void many(Src& s, Ctx& ctx, int lo, int hi) {
  const int m = (int)s.range(2, 6), total = (int)s.range(lo, hi);
  std::vector<Call> h;
  for (int i = 0; i < m; i++) {
    Call q;
    const int n = (int)s.range(1, hi > 10000 ? 6 : 24);
    for (auto& p : points<float>(s, n, any_class(s)))
      q.in.push_back({p[0], p[1], p[2]});
    q.c.k = (int)s.range(1, n + 1);
    q.c.gr = (int)s.range(1, hi > 10000 ? 2 : 4);
    q.c.p = (int)s.range(5, 40);
    q.c.t = (int)s.range(7, 70);
    q.c.threads = hi > 10000 ? 1 : (int)s.range(1, 3);
    any_chunking(s, n, q.c);
    q.c.recompute = s.chance(1, 3);
    q.c.nd = (int)s.range(1, 4);
    q.dbl = s.chance(1, 2);
    q.wide = s.chance(1, 4);
    q.c.suppress = !s.chance(1, 3);
    q.gpu = s.chance(1, 4);
    q.same_obj = s.chance(1, 3);
    q.breaks = i && s.chance(1, 6) ? (int)s.range(1, 14) : 0;
    h.push_back(q);
  }
  std::string d = std::to_string(total) + " calls of";
  for (auto& q : h) d += " [" + q.str() + "]";
  ctx.describe(d);
  ctx.nontrivial();
  ctx.label("calls", (uint64_t)total);
  std::vector<Got> want;
  for (auto& q : h) want.push_back(alone(q));
  uint64_t r = s.u(1u << 30);
  Objects ob;
  std::unique_ptr<Keep> first;
  for (int i = 0; i < total; i++) {
    r = r * 6364136223846793005u + 1442695040888963407u;
    const size_t j = i ? (r >> 33) % h.size() : 0;
    const Got g = make_call(h[j], ob, i ? nullptr : &first);
    const Got& w = want[j];
    PBT_CHECK(g.threw == w.threw, "call " << i << " (like " << j << ")"
      << (g.threw ? " throws" : " does not throw")
      << ", alone it does the opposite; " << d);
    PBT_CHECK(g.x == w.x, "call " << i << " (like " << j << ") leaves the points"
      " in another order than alone; " << d);
    PBT_CHECK(g.rows == w.rows, "call " << i << " (like " << j << ") gives other"
      " rows than alone; " << d);
    PBT_CHECK(g.out == w.out && g.err == w.err, "call " << i << " (like " << j
      << ") prints '" << g.out << "' '" << g.err << "', alone '" << w.out
      << "' '" << w.err << "'; " << d);
  }
  if (first) PBT_CHECK(first->rows() == want[0].rows, "the first result has"
    " changed; " << d);
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C21";
  p.subs = {
    {"history", "2-7 calls in one process, float and double, both devices, any"
     " parameters, calls like earlier ones with one thing changed, calls that"
     " throw; each compared with a child that makes this call first, and every"
     " earlier result read again; all non-trivial",
     [](Src& s, Ctx& c) { history(s, c, false); }, 2500, 60000, 60},
    {"large", "2-4 calls on 100-1500 points, as above; all non-trivial",
     [](Src& s, Ctx& c) { history(s, c, true); }, 60, 3000, 120},
    {"many", "250-1500 calls in one process, of 2-6 kinds; all non-trivial",
     [](Src& s, Ctx& c) { many(s, c, 250, 1500); }, 48, 2000, 200},
    {"counted", "66000-70000 calls of a few points; all non-trivial",
     [](Src& s, Ctx& c) { many(s, c, 66000, 70000); }, 8, 60, 600},
  };
  for (auto& s : p.subs) s.deterministic = false;
  p.assumptions = {"one call at a time: concurrent calls share std::cout and"
    " are not covered"};
  return p;
}
PBT_MAIN(make)
