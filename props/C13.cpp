// The bounded max-heap of the neighbour search: sorting, restoring the heap
// and keeping the k smallest, in the host form and both device forms.
#include "../lib/gen.hpp"
#include <heap.hpp>
using namespace gen;

// One heap stored somewhere in two arrays: element e of the heap is at
// at(e); everything else must stay untouched.
enum Form { host, device_block, device_strided };
static const char* fname(Form f) {
  return f == host ? "host" : f == device_block ? "device" : "device strided";
}

template <typename Tf> struct Arena {
  std::vector<int> id;
  std::vector<Tf> pq;
  Form f;
  size_t base, stride, k;
  size_t at(size_t e) const { return base + stride * e; }
};

template <typename Tf> static Tf value(Src& s) {
  switch (s.weighted({6, 3, 1, 1})) {
    case 0: return (Tf)s.unit(20);
    case 1: return (Tf)s.range(0, 5);       // many ties
    case 2: return std::numeric_limits<Tf>::infinity();
    default: return (Tf)s.pick({0.0, 1e-30, 128.0, 3.0, 1e30, -1.0});
  }
}

template <typename Tf> static Arena<Tf> arena(Src& s, size_t k) {
  Arena<Tf> a;
  a.k = k;
#ifdef VERIF_REAL_SYCL
  a.f = host;
#else
  a.f = (Form)s.u(3);
#endif
  if (a.f == device_strided) {
    const size_t rows = (size_t)s.range(1, 7);
    a.stride = rows;
    a.base = s.u(rows);
    a.id.resize(rows * k);
  } else {
    const size_t before = k * s.u(3) + s.u(3), after = s.u(5);
    a.stride = 1;
    a.base = before;
    a.id.resize(before + k + after);
  }
  a.pq.resize(a.id.size());
  for (size_t i = 0; i < a.id.size(); i++) {
    a.id[i] = (int)i * 3 + 1;
    a.pq[i] = value<Tf>(s);
  }
  return a;
}

#ifndef VERIF_REAL_SYCL
template <typename Tf, typename F> static void on_device(Arena<Tf>& a, F f) {
  sycl::buffer<int, 1> bi(a.id.data(), sycl::range<1>(a.id.size()));
  sycl::buffer<Tf, 1> bp(a.pq.data(), sycl::range<1>(a.pq.size()));
  sycl::queue q;
  q.submit([&](sycl::handler& h) {
    device_accessor_readwrite_t<int> ai(bi, h, sycl::read_write);
    device_accessor_readwrite_t<Tf> ap(bp, h, sycl::read_write);
    h.parallel_for(sycl::range<1>(1), [=](sycl::id<1>) { f(ai, ap); });
  });
  q.wait();
}
#endif

template <typename Tf> static void do_sort(Arena<Tf>& a) {
  if (a.f == host) heap::sort<int, Tf>(a.id, a.pq, a.base, a.k);
#ifndef VERIF_REAL_SYCL
  else if (a.f == device_block) on_device(a, [&](auto& i, auto& p) {
    heap::sort<int, Tf>(i, p, a.base, a.k); });
  else on_device(a, [&](auto& i, auto& p) {
    heap::sort<int, Tf>(i, p, (int)a.stride, (int)a.base, (int)a.k); });
#endif
}
template <typename Tf>
static void do_heapify(Arena<Tf>& a, size_t n, size_t root) {
  if (a.f == host) heap::maxheapify<int, Tf>(a.id, a.pq, a.base, n, root);
#ifndef VERIF_REAL_SYCL
  else if (a.f == device_block) on_device(a, [&](auto& i, auto& p) {
    heap::maxheapify<int, Tf>(i, p, a.base, n, root); });
  else on_device(a, [&](auto& i, auto& p) {
    heap::maxheapify<int, Tf>(i, p, (int)a.stride, (int)a.base, (int)n,
                              (int)root); });
#endif
}
template <typename Tf>
static void do_swap(Arena<Tf>& a, size_t x, size_t y) {
  if (a.f == host) heap::swap<int, Tf>(a.id, a.pq, a.base, x, y);
#ifndef VERIF_REAL_SYCL
  else if (a.f == device_block) on_device(a, [&](auto& i, auto& p) {
    heap::swap<int, Tf>(i, p, a.base, x, y); });
  else on_device(a, [&](auto& i, auto& p) {
    heap::swap<int, Tf>(i, p, (int)a.stride, (int)a.base, (int)x, (int)y); });
#endif
}

template <typename Tf> using Pairs = std::multiset<std::pair<Tf, int>>;
template <typename Tf>
static Pairs<Tf> contents(const Arena<Tf>& a, const std::vector<size_t>& e) {
  Pairs<Tf> m;
  for (size_t x : e) m.insert({a.pq[a.at(x)], a.id[a.at(x)]});
  return m;
}
template <typename Tf>
static void untouched(const Arena<Tf>& a, const Arena<Tf>& b,
                      const std::vector<size_t>& may, const std::string& d) {
  std::set<size_t> m;
  for (size_t e : may) m.insert(a.at(e));
  for (size_t i = 0; i < a.id.size(); i++) if (!m.count(i))
    PBT_CHECK(a.id[i] == b.id[i] && a.pq[i] == b.pq[i], "slot " << i
      << " outside of the heap changed; " << d);
}
template <typename Tf> static std::string text(const Arena<Tf>& a) {
  std::ostringstream o;
  o << fname(a.f) << " k=" << a.k << " base=" << a.base << " stride="
    << a.stride << " pq=[";
  for (size_t e = 0; e < std::min<size_t>(a.k, 24); e++)
    o << (e ? "," : "") << a.pq[a.at(e)];
  o << "]";
  return o.str();
}
static std::vector<size_t> upto(size_t n) {
  std::vector<size_t> v(n);
  for (size_t i = 0; i < n; i++) v[i] = i;
  return v;
}

template <typename Tf> static void sorting(Src& s, Ctx& ctx, size_t k) {
  const auto a = arena<Tf>(s, k);
  const std::string d = "sort " + text(a);
  ctx.describe(d);
  ctx.label(fname(a.f));
  ctx.nontrivial(k >= 3);
  auto b = a;
  do_sort(b);
  PBT_CHECK(b.id.size() == a.id.size() && b.pq.size() == a.pq.size(),
            "arrays resized; " << d);
  for (size_t e = 1; e < k; e++)
    PBT_CHECK(b.pq[b.at(e - 1)] <= b.pq[b.at(e)], "entries " << e - 1 << " and "
      << e << " are out of order: " << b.pq[b.at(e - 1)] << " > "
      << b.pq[b.at(e)] << "; " << d);
  PBT_CHECK(contents(a, upto(k)) == contents(b, upto(k)),
    "the sorted entries are not the entries given; " << d);
  untouched(a, b, upto(k), d);
}

template <typename Tf>
static bool is_heap(const Arena<Tf>& a, size_t n, size_t root) {
  for (size_t c : {2 * root + 1, 2 * root + 2}) if (c < n) {
    if (a.pq[a.at(c)] > a.pq[a.at(root)]) return false;
    if (!is_heap(a, n, c)) return false;
  }
  return true;
}
static void below(size_t n, size_t root, std::vector<size_t>& v) {
  if (root >= n) return;
  v.push_back(root);
  below(n, 2 * root + 1, v);
  below(n, 2 * root + 2, v);
}

template <typename Tf> static void heapify(Src& s, Ctx& ctx) {
  const size_t k = (size_t)s.range(1, s.chance(1, 4) ? 200 : 20);
  auto a = arena<Tf>(s, k);
  const size_t n = (size_t)s.range(s.chance(1, 8) ? 0 : 1, (int64_t)k);
  const size_t root = n ? s.u(std::min<size_t>(n, 1 + s.u(4))) : 0;
  // make the subtrees below root heaps, by the textbook
  std::vector<size_t> sub;
  below(n, root, sub);
  std::sort(sub.rbegin(), sub.rend());
  auto sift = [&](size_t r) {
    for (;;) {
      size_t m = r;
      for (size_t c : {2 * r + 1, 2 * r + 2})
        if (c < n && a.pq[a.at(c)] > a.pq[a.at(m)]) m = c;
      if (m == r) return;
      std::swap(a.pq[a.at(r)], a.pq[a.at(m)]);
      std::swap(a.id[a.at(r)], a.id[a.at(m)]);
      r = m;
    }
  };
  for (size_t r : sub) if (r != root) sift(r);
  const std::string d = "restore n=" + std::to_string(n) + " root=" +
                        std::to_string(root) + " " + text(a);
  ctx.describe(d);
  ctx.label(fname(a.f));
  ctx.nontrivial(sub.size() >= 3);
  auto b = a;
  do_heapify(b, n, root);
  if (n) PBT_CHECK(is_heap(b, n, root), "no heap below the root; " << d);
  PBT_CHECK(contents(a, sub) == contents(b, sub), "entries changed; " << d);
  untouched(a, b, sub, d);
}

template <typename Tf> static void swapping(Src& s, Ctx& ctx) {
  const size_t k = (size_t)s.range(1, 12);
  const auto a = arena<Tf>(s, k);
  const size_t x = s.u(k), y = s.u(k);
  const std::string d = "swap " + std::to_string(x) + "," + std::to_string(y) +
                        " " + text(a);
  ctx.describe(d);
  ctx.nontrivial(x != y);
  auto b = a;
  do_swap(b, x, y);
  PBT_CHECK(b.id[b.at(x)] == a.id[a.at(y)] && b.id[b.at(y)] == a.id[a.at(x)] &&
            b.pq[b.at(x)] == a.pq[a.at(y)] && b.pq[b.at(y)] == a.pq[a.at(x)],
            "not exchanged; " << d);
  untouched(a, b, {x, y}, d);
}

// the way the search uses it: start from infinities, replace the root by
// anything smaller, restore, finally sort
template <typename Tf> static void stream(Src& s, Ctx& ctx) {
  const size_t k = (size_t)s.range(1, s.chance(1, 4) ? 300 : 24);
  auto a = arena<Tf>(s, k);
  const size_t n = (size_t)s.range(0, s.chance(1, 4) ? 500 : 60);
  for (size_t e = 0; e < k; e++) {
    a.pq[a.at(e)] = std::numeric_limits<Tf>::infinity();
    a.id[a.at(e)] = 0;
  }
  auto b = a;
  std::vector<Tf> given;
  for (size_t i = 0; i < n; i++) {
    Tf v = value<Tf>(s);
    given.push_back(v);
    if (v < b.pq[b.at(0)]) {
      b.pq[b.at(0)] = v;
      b.id[b.at(0)] = (int)i + 1000;
      do_heapify(b, k, 0);
    }
  }
  do_sort(b);
  std::ostringstream o;
  o << "smallest " << k << " of " << n << " " << fname(a.f);
  ctx.describe(o.str());
  ctx.label(fname(a.f));
  ctx.nontrivial(k >= 3 && n > k);
  auto want = given;
  std::sort(want.begin(), want.end());
  want.resize(k, std::numeric_limits<Tf>::infinity());
  for (size_t e = 0; e < k; e++) {
    PBT_CHECK(b.pq[b.at(e)] == want[e], "place " << e << " holds "
      << b.pq[b.at(e)] << ", the model has " << want[e] << "; " << o.str());
    const int id = b.id[b.at(e)];
    if (id >= 1000) PBT_CHECK(given[(size_t)id - 1000] == b.pq[b.at(e)],
      "place " << e << " names another entry; " << o.str());
    else PBT_CHECK(std::isinf(b.pq[b.at(e)]), "place " << e
      << " names nothing; " << o.str());
  }
  untouched(a, b, upto(k), o.str());
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C13";
  auto small = [](auto t) {
    using Tf = decltype(t);
    return [](Src& s, Ctx& c) {
      sorting<Tf>(s, c, (size_t)s.range(s.chance(1, 8) ? 0 : 1,
                                        s.chance(1, 4) ? 400 : 20));
    };
  };
  p.subs = {
    {"sort-double", "0-400 entries with ties and infinities, host and device"
     " forms, anywhere in the arrays; non-trivial with three or more",
     small(double()), 60000, 1000000, 60},
    {"sort-float", "as sort-double", small(float()), 60000, 1000000, 60},
    {"sort-large", "30000-140000 entries; all non-trivial",
     [](Src& s, Ctx& c) { sorting<float>(s, c, (size_t)s.range(30000, 140000)); },
     24, 300, 120},
    {"restore-double", "one root over two heaps; non-trivial with three"
     " entries or more", heapify<double>, 60000, 1000000, 60},
    {"restore-float", "as restore-double", heapify<float>, 60000, 1000000, 60},
    {"swap", "non-trivial when the places differ", swapping<float>, 20000,
     200000, 60},
    {"stream-double", "up to 500 values offered to a heap of up to 300;"
     " non-trivial when more are offered than fit", stream<double>, 20000,
     300000, 60},
    {"stream-float", "as stream-double", stream<float>, 20000, 300000, 60},
  };
  p.assumptions = {"no NaN among the keys (rejected inputs)"};
  return p;
}
PBT_MAIN(make)
