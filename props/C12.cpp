// The parameters against a model: a map from ten fixed names to text.
#include "../lib/gen.hpp"
using namespace gen;

struct Val {
  enum { num, boolean, real, text } k = num;
  long v = 0;
  double r = 0;
  std::string t;
};
using Model = std::map<std::string, Val>;

static const std::vector<std::string>& names() {
  static const std::vector<std::string> n{"k", "knn_grid_resolution",
    "cpu_nthreads", "gpu_ndsize", "chunksize", "use_chunking", "use_recompute",
    "cc_p_maxsize", "cc_t_maxsize", "dev_suppress_stdout"};
  return n;
}
static Model defaults() {
  Model m;
  auto n = [](long v) { Val a; a.v = v; return a; };
  auto b = [](bool v) { Val a; a.k = Val::boolean; a.v = v; return a; };
  m["k"] = n(64);
  m["knn_grid_resolution"] = n(16);
  m["cpu_nthreads"] = n(0);
  m["gpu_ndsize"] = n(1);
  m["chunksize"] = n(8196);
  m["use_chunking"] = b(false);
  m["use_recompute"] = b(false);
  m["cc_p_maxsize"] = n(32);
  m["cc_t_maxsize"] = n(32);
  m["dev_suppress_stdout"] = b(true);
  return m;
}

template <typename F> static bool throws(F f) {
  try { f(); } catch (const std::invalid_argument&) { return true; }
  return false;
}

// a whole number in one more type, by get and by conversion
template <typename T, typename A>
static void whole(A& a, const std::string& key, long v, const std::string& h) {
  const bool holds = std::is_same<T, bool>::value ? v == 0 || v == 1
    : std::is_signed<T>::value ? v >= (long)std::numeric_limits<T>::min() &&
                                 v <= (long)std::numeric_limits<T>::max()
    : v >= 0 && (unsigned long)v <= (unsigned long)std::numeric_limits<T>::max();
  if (!holds) { // negative text in an unsigned type wraps, as streams do
    if (std::is_signed<T>::value || std::is_same<T, bool>::value)
      PBT_CHECK(throws([&] { a[key].template get<T>(); }), key << " = " << v
        << " was accepted by a type that cannot hold it; " << h);
    return;
  }
  const T w = a[key];
  PBT_CHECK(a[key].template get<T>() == (T)v && w == (T)v, key << " = " << v
    << " reads back as something else; " << h);
}

template <typename A> static void read(A& a, const std::string& key,
                                       const Val& v, const std::string& h) {
  switch (v.k) {
    case Val::num: {
      PBT_CHECK(a[key].template get<long>() == v.v, key << " reads "
        << a[key].template get<long>() << " after " << v.v << " was set; " << h);
      if (v.v >= INT_MIN && v.v <= INT_MAX) {
        PBT_CHECK(a[key].template get<int>() == (int)v.v, key
          << " differs as int; " << h);
        const int w = a[key];
        PBT_CHECK(w == (int)v.v, key << " differs when converted; " << h);
      } else PBT_CHECK(throws([&] { a[key].template get<int>(); }), key
          << " = " << v.v << " was accepted as an int; " << h);
      if (v.v >= 0) PBT_CHECK(a[key].template get<size_t>() == (size_t)v.v, key
          << " differs as size_t; " << h);
      if (v.v == 0 || v.v == 1) PBT_CHECK(a[key].template get<bool>() ==
          (v.v == 1), key << " differs as bool; " << h);
      whole<short>(a, key, v.v, h);
      whole<unsigned short>(a, key, v.v, h);
      whole<unsigned>(a, key, v.v, h);
      whole<long long>(a, key, v.v, h);
      whole<bool>(a, key, v.v, h);
      if (std::labs(v.v) <= 1L << 53)
        PBT_CHECK(a[key].template get<double>() == (double)v.v, key
          << " differs as double; " << h);
      if (std::labs(v.v) <= 1L << 24)
        PBT_CHECK(a[key].template get<float>() == (float)v.v, key
          << " differs as float; " << h);
      break;
    }
    case Val::boolean: {
      PBT_CHECK(a[key].template get<bool>() == (v.v != 0), key
        << " differs as bool; " << h);
      PBT_CHECK(a[key].template get<int>() == (v.v != 0), key
        << " differs as int; " << h);
      const bool w = a[key];
      PBT_CHECK(w == (v.v != 0), key << " differs when converted; " << h);
      break;
    }
    case Val::real:
      PBT_CHECK(a[key].template get<double>() == v.r, key << " reads "
        << a[key].template get<double>() << " after " << v.r << "; " << h);
      if ((double)(float)v.r == v.r)
        PBT_CHECK(a[key].template get<float>() == (float)v.r, key
          << " differs as float; " << h);
      if (v.r == std::floor(v.r) && std::fabs(v.r) < 9e18) {
        PBT_CHECK(a[key].template get<long>() == (long)v.r, key << " reads "
          << a[key].template get<long>() << " after the whole number " << v.r
          << " was set; " << h);
        if (v.r >= INT_MIN && v.r <= INT_MAX)
          PBT_CHECK(a[key].template get<int>() == (int)v.r, key << " reads "
            << a[key].template get<int>() << " after the whole number " << v.r
            << " was set; " << h);
        if (std::fabs(v.r) < 1e15 && v.r >= -1) {
          whole<short>(a, key, (long)v.r, h);
          whole<long long>(a, key, (long)v.r, h);
          if (v.r == 0 || v.r == 1) whole<bool>(a, key, (long)v.r, h);
        }
      } else {
        PBT_CHECK(throws([&] { a[key].template get<int>(); }), key << " = "
          << v.r << " was accepted as an int; " << h);
        PBT_CHECK(throws([&] { a[key].template get<bool>(); }), key << " = "
          << v.r << " was accepted as a bool; " << h);
        PBT_CHECK(throws([&] { a[key].template get<short>(); }), key << " = "
          << v.r << " was accepted as a short; " << h);
      }
      break;
    default:
      if (!v.t.empty() && v.t.find(' ') == v.t.npos)
        PBT_CHECK(a[key].template get<std::string>() == v.t, key
          << " differs as text; " << h);
      PBT_CHECK(throws([&] { a[key].template get<int>(); }), key << " = '"
        << v.t << "' was accepted as an int; " << h);
      PBT_CHECK(throws([&] { a[key].template get<double>(); }), key << " = '"
        << v.t << "' was accepted as a number; " << h);
      PBT_CHECK(throws([&] { a[key].template get<bool>(); }), key << " = '"
        << v.t << "' was accepted as a bool; " << h);
      PBT_CHECK(throws([&] { a[key].template get<short>(); }), key << " = '"
        << v.t << "' was accepted as a short; " << h);
      PBT_CHECK(throws([&] { a[key].template get<size_t>(); }), key << " = '"
        << v.t << "' was accepted as a size_t; " << h);
  }
}

static bool as_int(const Val& v) {
  return (v.k == Val::num && v.v >= INT_MIN && v.v <= INT_MAX) ||
         v.k == Val::boolean;
}

static void all(votess::vtargs& a, const Model& m, const std::string& h) {
  const votess::vtargs& c = a;
  for (auto& n : names()) {
    const Val& v = m.at(n);
    read(a, n, v, h);
    read(c, n, v, h);
  }
  const Val &k = m.at("k"), &g = m.at("knn_grid_resolution"),
            &p = m.at("cc_p_maxsize"), &t = m.at("cc_t_maxsize");
  if (as_int(g)) PBT_CHECK(c.get_xyzset().grid_resolution == g.v,
    "the grid resolution for sorting is wrong; " << h);
  if (as_int(g) && as_int(k)) {
    const auto q = c.get_knn();
    PBT_CHECK(q.k == k.v && q.grid_resolution == g.v, "k=" << q.k << " gr="
      << q.grid_resolution << " for the search; " << h);
  }
  if (as_int(k) && as_int(p) && as_int(t)) {
    const auto q = c.get_cc();
    PBT_CHECK(q.k == k.v && q.p_maxsize == p.v && q.t_maxsize == t.v,
      "k=" << q.k << " p=" << q.p_maxsize << " t=" << q.t_maxsize
      << " for the cells; " << h);
  }
}

static void history(Src& s, Ctx& ctx) {
  votess::vtargs a;
  Model m = defaults();
  std::ostringstream h;
  all(a, m, "defaults");
  const int steps = (int)s.range(1, 25);
  ctx.nontrivial(steps >= 3);
  for (int i = 0; i < steps; i++) {
    const std::string& n = s.pick(names());
    switch (s.u(10)) {
      case 0: case 1: {
        const int v = s.chance(1, 4) ? s.pick({INT_MAX, INT_MIN, -1, 0, 1,
          255, 256, 65535, 65536, 1000000}) : (int)s.range(-100, 5000);
        a[n] = v; m[n] = Val{Val::num, v, 0, ""};
        h << n << "=" << v << " ";
        break;
      }
      case 2: {
        const bool v = s.chance(1, 2);
        a[n] = v; m[n] = Val{Val::boolean, v, 0, ""};
        h << n << "=" << (v ? "true " : "false ");
        break;
      }
      case 3: {
        long v = s.pick({5000000000L, -5000000000L, 7L, 0L, 2147483648L,
                         -2147483649L, 123456789L, LONG_MAX, LONG_MIN,
                         LONG_MAX - 1, (1L << 53) + 1, -(1L << 53) - 1});
        if (s.chance(1, 3))
          v = (long)((s.u(1u << 31) << 32 | s.u(1u << 31) << 1 | s.u(2)) >> s.u(63));
        switch (s.u(3)) {
          case 0: a[n] = (long long)v; break;
          case 1: a[n] = std::to_string(v); break;
          default: a[n] = v;
        }
        m[n] = Val{Val::num, v, 0, ""};
        h << n << "=" << v << "L ";
        break;
      }
      case 4: {
        const size_t v = (size_t)s.range(0, 100000);
        a[n] = v; m[n] = Val{Val::num, (long)v, 0, ""};
        h << n << "=" << v << "u ";
        break;
      }
      case 5: {
        double v = (double)s.range(-900, 900) + 0.25 * (double)s.range(1, 3);
        switch (s.u(5)) {
          case 0: break;
          case 1: v = std::ldexp((double)(s.u(1u << 30) + 1), (int)s.range(-80, 40));
                  break;
          case 2: v = (double)s.range(-3000000000L, 3000000000L); break;
          case 3: v = s.pick({1e6, 1e9, 1e15, 123456789.0, 2147483648.0,
                              2147483647.0, -2147483648.0, 0.1, 1.0 / 3}); break;
          default: v = (double)(float)v / 7;
        }
        if (s.chance(1, 3)) { const float f = (float)v; a[n] = f; v = f; }
        else a[n] = v;
        m[n] = Val{Val::real, 0, v, ""};
        h << n << "=" << v << " ";
        break;
      }
      case 6: {
        const std::string v = s.pick({"abc", "x1", "true", "", "-", "cpu", "12abc",
                                       "7x", "1e", "1.5.2", "1x", "0y", "1 2",
                                       "1,", "0 1"});
        a[n] = v; m[n] = Val{Val::text, 0, 0, v};
        h << n << "='" << v << "' ";
        break;
      }
      case 7: { // one parameter from another
        const std::string& o = s.pick(names());
        a[n] = a[o]; const Val v = m[o]; m[n] = v;
        h << n << "=[" << o << "] ";
        break;
      }
      case 8: { // a copy is independent
        votess::vtargs b = a;
        b[n] = 77;
        h << "copy ";
        const Model before = m;
        Model mb = m;
        mb[n] = Val{Val::num, 77, 0, ""};
        all(b, mb, h.str());
        if (s.chance(1, 2)) { a = b; m = mb; h << "assigned "; }
        break;
      }
      default: { // unknown names
        std::string u = s.pick({"K", "", "kk", "k ", "grid_resolution",
          "nthreads", "chunk_size", "use_device", "cc_p_max", "suppress"});
        if (s.chance(2, 3)) { // nearly a name
          u = n;
          static const std::string cs = "abcdehikmnoprstuxz_ -KC0";
          const size_t at = s.u(u.size());
          const char ch = cs[s.u(cs.size())];
          switch (s.u(6)) {
            case 0: u.erase(at, 1); break;
            case 1: u.insert(at, 1, ch); break;
            case 2: u[at] = ch; break;
            case 3: u.resize(at); break;
            case 4: u += ch; break;
            default: u += s.pick(names());
          }
          if (std::count(names().begin(), names().end(), u)) break;
        }
        const votess::vtargs& c = a;
        h << "unknown '" << u << "' ";
        PBT_CHECK(throws([&] { a[u] = 3; }), "writing the unknown name '" << u
          << "' was accepted; " << h.str());
        PBT_CHECK(throws([&] { a[u]; }), "reading the unknown name '" << u
          << "' was accepted; " << h.str());
        PBT_CHECK(throws([&] { c[u]; }), "reading the unknown name '" << u
          << "' of a constant was accepted; " << h.str());
      }
    }
    ctx.describe(h.str());
    all(a, m, h.str());
  }
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C12";
  p.subs = {{"history", "1-25 of: set one of the ten parameters to an int, a"
    " bool, a long, a size_t, a real or text, or to another parameter, copy,"
    " use an unknown name; all parameters compared with the model after each;"
    " non-trivial with three steps or more", history, 25000, 800000, 60}};
  return p;
}
PBT_MAIN(make)
