// The rim of the vertices that a cut removes. In the dual picture vertices of
// a cell are oriented triangles of plane numbers; the triangles removed by a
// plane form a disc, and the rim is the disc's boundary as a cycle.
#include "../lib/gen.hpp"
#include <boundary.hpp>
using namespace gen;

typedef std::array<uint8_t, 3> Tri;
typedef std::pair<int, int> Edge;

// the directed edges of the set whose reverse is not in the set, as next[]
static bool rim(const std::vector<Tri>& R, std::map<int, int>& next) {
  std::set<Edge> e;
  for (auto& t : R) for (int a = 0; a < 3; a++)
    e.insert({t[(size_t)a], t[(size_t)(a + 1) % 3]});
  next.clear();
  for (auto& x : e) if (!e.count({x.second, x.first})) {
    if (next.count(x.first)) return false; // a pinch
    next[x.first] = x.second;
  }
  if (next.empty()) return false;
  int n = 0, v = next.begin()->first;
  do { if (!next.count(v)) return false; v = next[v]; n++; }
  while (v != next.begin()->first && n <= (int)next.size());
  return n == (int)next.size();
}

struct Mesh { // a triangulated sphere
  std::vector<Tri> T{{2, 5, 0}, {5, 3, 0}, {1, 5, 2}, {5, 1, 3},
                     {4, 2, 0}, {4, 0, 3}, {2, 4, 1}, {4, 3, 1}};
  int planes = 6;

  // grows a disc of about `want` triangles from a random one; returns indices
  std::vector<size_t> disc(Src& s, size_t want) const {
    std::map<Edge, size_t> owner;
    for (size_t t = 0; t < T.size(); t++) for (int a = 0; a < 3; a++)
      owner[{T[t][(size_t)a], T[t][(size_t)(a + 1) % 3]}] = t;
    std::vector<size_t> r{s.u(T.size())};
    std::set<size_t> in{r[0]};
    std::map<int, int> next;
    for (int a = 0; a < 3; a++) next[T[r[0]][(size_t)a]] =
      T[r[0]][(size_t)(a + 1) % 3];
    const int style = (int)s.u(3);
    int miss = 0;
    while (r.size() < want && miss < 60) {
      // a rim edge, and the triangle on its far side
      std::vector<int> at;
      for (auto& x : next) at.push_back(x.first);
      const int u = style == 0 ? at[s.u(at.size())]
                  : style == 1 ? at[s.u(std::min<size_t>(at.size(), 2))]
                  : at[at.size() - 1 - s.u(std::min<size_t>(at.size(), 3))];
      const int v = next[u];
      const size_t t = owner.at({v, u});
      if (in.count(t)) { miss++; continue; }
      int w = -1;
      for (int q : T[t]) if (q != u && q != v) w = q;
      const bool on = next.count(w);
      if (!on) { next[u] = w; next[w] = v; }
      else if (next[v] == w && next[w] == u) { miss++; continue; } // closes up
      else if (next[v] == w) { next[u] = w; next.erase(v); }
      else if (next[w] == u) { next[w] = v; next.erase(u); }
      else { miss++; continue; }                                   // a pinch
      r.push_back(t);
      in.insert(t);
      miss = 0;
    }
    return r;
  }
  void cut(const std::vector<size_t>& d) {
    std::vector<Tri> R;
    const std::set<size_t> in(d.begin(), d.end());
    for (size_t t : d) R.push_back(T[t]);
    std::map<int, int> next;
    if (!rim(R, next)) std::abort();
    std::vector<Tri> N;
    for (size_t t = 0; t < T.size(); t++) if (!in.count(t)) N.push_back(T[t]);
    for (auto& x : next)
      N.push_back({(uint8_t)x.first, (uint8_t)x.second, (uint8_t)planes});
    planes++;
    T.swap(N);
  }
};

struct Io {
  std::vector<uint8_t> cycle, R;
  int dr_offs, dr_size, r_offs, r_size;
  short head = -1;
  boundary::bstatus st;
};

static void call(Io& io, bool device) {
#ifndef VERIF_REAL_SYCL
  if (device) {
    sycl::buffer<uint8_t, 1> b(io.R.data(), sycl::range<1>(io.R.size()));
    sycl::queue q;
    std::vector<uint8_t>* cyc = &io.cycle;
    Io* p = &io;
    q.submit([&](sycl::handler& h) {
      device_accessor_readwrite_t<uint8_t> r(b, h, sycl::read_write);
      sycl::local_accessor<uint8_t, 1> c(sycl::range<1>(io.cycle.size()), h);
      h.parallel_for(sycl::nd_range<1>(sycl::range<1>(1), sycl::range<1>(1)),
        [=](sycl::nd_item<1>) {
          for (size_t i = 0; i < cyc->size(); i++) c[i] = (*cyc)[i];
          p->st = boundary::compute<int, uint8_t>(c, p->dr_offs, p->dr_size,
                    p->head, r, p->r_offs, p->r_size);
          for (size_t i = 0; i < cyc->size(); i++) (*cyc)[i] = c[i];
        });
    });
    q.wait();
    return;
  }
#endif
  (void)device;
  io.st = boundary::compute<int, uint8_t>(io.cycle.data(), io.dr_offs,
            io.dr_size, io.head, io.R.data(), io.r_offs, io.r_size);
}

static Io setup(Src& s, const std::vector<Tri>& R, int planes, bool device) {
  Io io;
  io.r_size = (int)R.size();
  const size_t rb = 3 * s.u(4), ra = 3 * s.u(4);
  io.r_offs = (int)rb;
  io.R.resize(rb + 3 * R.size() + ra);
  for (auto& v : io.R) v = (uint8_t)s.u(6);
  for (size_t t = 0; t < R.size(); t++) for (size_t a = 0; a < 3; a++)
    io.R[rb + 3 * t + a] = R[t][a];
  io.dr_size = std::min(255, planes + (int)s.u(10));
  const size_t db = s.u(3) * (size_t)io.dr_size, da = s.u(3);
  io.dr_offs = (int)db;
  io.cycle.assign(db + (size_t)io.dr_size + da, 77);
  for (int j = 0; j < io.dr_size; j++) io.cycle[db + (size_t)j] = 0xff;
  (void)device;
  return io;
}

static std::string text(const std::vector<Tri>& R, bool device) {
  std::ostringstream o;
  o << (device ? "device " : "host ") << R.size() << " triangles";
  for (size_t i = 0; i < std::min<size_t>(R.size(), 30); i++)
    o << " (" << (int)R[i][0] << "," << (int)R[i][1] << "," << (int)R[i][2]
      << ")";
  return o.str();
}

static bool pick_device(Src& s) {
#ifdef VERIF_REAL_SYCL
  (void)s;
  return false;
#else
  return s.chance(1, 2);
#endif
}

static void surroundings(const Io& a, const Io& b, const std::string& d) {
  for (size_t i = 0; i < a.R.size(); i++)
    if ((int)i < a.r_offs || (int)i >= a.r_offs + 3 * a.r_size)
      PBT_CHECK(a.R[i] == b.R[i], "a vertex that is not removed changed; " << d);
  for (size_t i = 0; i < a.cycle.size(); i++)
    if ((int)i < a.dr_offs || (int)i >= a.dr_offs + a.dr_size)
      PBT_CHECK(a.cycle[i] == b.cycle[i], "scratch of another cell changed; "
                << d);
  std::multiset<Tri> x, y;
  auto norm = [](const uint8_t* p) {
    Tri t{p[0], p[1], p[2]};
    while (t[0] > t[1] || t[0] > t[2]) std::rotate(t.begin(), t.begin() + 1,
                                                   t.end());
    return t;
  };
  bool degenerate = false;
  for (int t = 0; t < a.r_size; t++) {
    const uint8_t* p = &a.R[(size_t)(a.r_offs + 3 * t)];
    if (p[0] == p[1] || p[1] == p[2] || p[0] == p[2]) degenerate = true;
  }
  if (degenerate) return;
  for (int t = 0; t < a.r_size; t++) {
    x.insert(norm(&a.R[(size_t)(a.r_offs + 3 * t)]));
    y.insert(norm(&b.R[(size_t)(b.r_offs + 3 * t)]));
  }
  PBT_CHECK(x == y, "the removed vertices were altered; " << d);
}

static Mesh mesh(Src& s, int cuts, int grow) {
  Mesh m;
  for (int c = 0; c < cuts && m.planes < 254; c++)
    m.cut(m.disc(s, 1 + s.u((uint64_t)grow)));
  return m;
}

static void disc(Src& s, Ctx& ctx, bool big) {
  const Mesh m = big ? mesh(s, (int)s.range(100, 248), 3)
                     : mesh(s, (int)s.range(0, s.chance(1, 5) ? 60 : 14), 6);
  const auto d0 = m.disc(s, 1 + s.u(m.T.size()));
  std::vector<Tri> R;
  for (size_t t : d0) R.push_back(m.T[t]);
  switch (s.u(3)) { // in the order of growth, reversed, or shuffled
    case 0: break;
    case 1: std::reverse(R.begin(), R.end()); break;
    default: for (size_t i = R.size(); i > 1; i--)
      std::swap(R[i - 1], R[s.u(i)]);
  }
  for (auto& t : R) std::rotate(t.begin(), t.begin() + (long)s.u(3), t.end());
  std::map<int, int> want;
  if (!rim(R, want)) PBT_FAIL("the generator made no disc");
  const bool dev = pick_device(s);
  const std::string d = text(R, dev);
  ctx.describe(d);
  ctx.label(dev ? "device" : "host");
  ctx.nontrivial(R.size() >= 3);
  if (R.size() > 255) ctx.label("over-255-triangles");
  auto io = setup(s, R, m.planes, dev);
  const auto before = io;
  call(io, dev);
  PBT_CHECK(io.st == boundary::bstatus::success, "a disc is called unreachable"
            "; " << d);
  surroundings(before, io, d);
  std::map<int, int> got;
  int v = io.head;
  for (size_t i = 0; i <= want.size(); i++) {
    PBT_CHECK(v >= 0 && v < io.dr_size, "the rim leads to plane " << v << "; "
              << d);
    const int w = io.cycle[(size_t)(io.dr_offs + v)];
    got[v] = w;
    v = w;
    if (v == io.head) break;
  }
  PBT_CHECK(v == io.head, "the rim does not close; " << d);
  PBT_CHECK(got == want, "the rim has " << got.size() << " edges, the model "
            << want.size() << ", or they differ; " << d);
}

// two discs far apart have no single rim
static void apart(Src& s, Ctx& ctx) {
  const Mesh m = mesh(s, (int)s.range(6, 40), 6);
  const auto d0 = m.disc(s, 1 + s.u(m.T.size() / 3));
  std::set<int> used;
  for (size_t t : d0) for (int p : m.T[t]) used.insert(p);
  std::vector<Tri> R;
  for (size_t t : d0) R.push_back(m.T[t]);
  std::vector<size_t> far;
  for (size_t t = 0; t < m.T.size(); t++) {
    int hit = 0;
    for (int p : m.T[t]) hit += (int)used.count(p);
    if (hit == 0) far.push_back(t);
  }
  if (far.empty()) throw pbt::Discard();
  R.push_back(m.T[far[s.u(far.size())]]);
  for (size_t i = R.size(); i > 1; i--) std::swap(R[i - 1], R[s.u(i)]);
  const bool dev = pick_device(s);
  const std::string d = text(R, dev);
  ctx.describe(d);
  ctx.nontrivial();
  auto io = setup(s, R, m.planes, dev);
  const auto before = io;
  call(io, dev);
  PBT_CHECK(io.st == boundary::bstatus::unreachable,
            "two separate parts are given one rim; " << d);
  surroundings(before, io, d);
}

// anything at all: it ends, stays inside its arrays, and loses no vertex
static void any(Src& s, Ctx& ctx) {
  std::vector<Tri> R;
  int planes;
  if (s.chance(1, 2)) { // a random part of a mesh
    const Mesh m = mesh(s, (int)s.range(0, 20), 6);
    planes = m.planes;
    for (auto& t : m.T) if (s.chance(1, 2)) R.push_back(t);
  } else {
    planes = (int)s.range(3, 40);
    const int n = (int)s.range(1, 25);
    for (int i = 0; i < n; i++) {
      Tri t;
      t[0] = (uint8_t)s.u((uint64_t)planes);
      do t[1] = (uint8_t)((t[0] + 1 + s.u((uint64_t)planes - 1)) %
                          (unsigned)planes);
      while (t[1] == t[0]);
      uint8_t w = 0;
      while (w == t[0] || w == t[1]) w++;
      const uint8_t z = (uint8_t)s.u((uint64_t)planes);
      t[2] = z == t[0] || z == t[1] ? w : z;
      R.push_back(t);
    }
  }
  if (R.empty()) throw pbt::Discard();
  for (size_t i = R.size(); i > 1; i--) std::swap(R[i - 1], R[s.u(i)]);
  const bool dev = pick_device(s);
  const std::string d = text(R, dev);
  ctx.describe(d);
  ctx.nontrivial(R.size() >= 3);
  auto io = setup(s, R, planes, dev);
  const auto before = io;
  call(io, dev);
  ctx.label(io.st == boundary::bstatus::success ? "success" : "unreachable");
  surroundings(before, io, d);
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C14";
  p.subs = {
    {"disc", "triangulated spheres of up to 66 planes made by random cuts, a"
     " disc of any size in any order and rotation, both forms; non-trivial"
     " with three triangles or more",
     [](Src& s, Ctx& c) { disc(s, c, false); }, 60000, 1000000, 60},
    {"disc-big", "spheres of 106-254 planes; otherwise as disc",
     [](Src& s, Ctx& c) { disc(s, c, true); }, 1500, 30000, 60},
    {"apart", "a disc and a triangle touching none of its planes; all"
     " non-trivial", apart, 20000, 300000, 60},
    {"any", "random parts of a sphere and random triangles; non-trivial with"
     " three or more", any, 40000, 600000, 60},
  };
  return p;
}
PBT_MAIN(make)
