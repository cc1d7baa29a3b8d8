// The result container against a plain vector of rows: sizes, reads, writes
// through rows, copies and moves, and what print() and savetxt() write.
#include "../lib/gen.hpp"
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace gen;

template <typename Ti> using M = std::vector<std::vector<Ti>>;

template <typename Ti> static void same(votess::dnn<Ti>& d, const M<Ti>& m,
                                        const std::string& what) {
  PBT_CHECK(d.size() == m.size(), what << ": size() is " << d.size()
            << ", rows " << m.size());
  for (size_t i = 0; i < m.size(); i++) {
    auto r = d[(int)i];
    PBT_CHECK(r.size() == m[i].size(), what << ": row " << i << " has size "
              << r.size() << ", model " << m[i].size());
    for (size_t j = 0; j < m[i].size(); j++)
      PBT_CHECK(r[j] == m[i][j], what << ": entry " << i << "," << j << " is "
                << (long)r[j] << ", model " << (long)m[i][j]);
  }
}

// {  {1, 2, }  {3, }  {} }  ->  rows; a lone {} is a result without entries
static Rows parse_print(const std::string& t) {
  Rows rows;
  int depth = 0;
  size_t i = 0;
  while (i < t.size()) {
    const char c = t[i];
    if (c == '{') {
      PBT_CHECK(++depth <= 2, "braces too deep in " << t);
      if (depth == 2) rows.push_back({});
      i++;
    } else if (c == '}') {
      PBT_CHECK(--depth >= 0, "unbalanced braces in " << t);
      i++;
    } else if (c == '-' || (c >= '0' && c <= '9')) {
      char* e;
      const long v = std::strtol(t.c_str() + i, &e, 10);
      PBT_CHECK(depth == 2, "number outside a row in " << t);
      rows.back().push_back(v);
      i = (size_t)(e - t.c_str());
      PBT_CHECK(i < t.size() && (t[i] == ',' || t[i] == ' ' || t[i] == '}'),
                "numbers run together in " << t);
    } else {
      PBT_CHECK(c == ' ' || c == '\n' || c == ',', "unexpected character '"
                << c << "' in " << t);
      i++;
    }
  }
  PBT_CHECK(depth == 0, "unbalanced braces in " << t);
  return rows;
}

struct Scratch {
  std::string dir;
  Scratch() {
    char b[] = "/tmp/verif-c11-XXXXXX";
    if (!mkdtemp(b)) std::abort();
    dir = b;
  }
  ~Scratch() {
    unlink((dir + "/a").c_str());
    rmdir(dir.c_str());
  }
};

template <typename Ti> static void output(votess::dnn<Ti>& d, const M<Ti>& m,
                                          const std::string& path,
                                          bool old_contents) {
  size_t total = 0;
  Rows want;
  for (auto& r : m) {
    want.push_back({});
    for (auto v : r) { want.back().push_back((long)v); total++; }
  }
  std::string out;
  { Silence q; d.print(); out = q.out.str(); }
  const Rows got = parse_print(out);
  if (total) PBT_CHECK(got == want, "print() wrote " << out);
  else for (auto& r : got) PBT_CHECK(r.empty(), "print() wrote " << out);
  if (old_contents) { std::ofstream f(path); f << "old 1 2 3\n4 5\n6\n7\n8\n"; }
  { Silence q; d.savetxt(path); }
  std::ifstream f(path);
  PBT_CHECK(!!f, "savetxt() wrote no file");
  Rows file;
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    file.push_back({});
    long v;
    while (is >> v) file.back().push_back(v);
    PBT_CHECK(is.eof(), "savetxt() wrote the line '" << line << "'");
  }
  PBT_CHECK(file == want, "savetxt() wrote " << file.size() << " lines for "
            << want.size() << " rows, or other entries");
}

template <typename Ti> static M<Ti> rows(Src& s, Ctx& ctx) {
  const int n = (int)s.logrange(0, 60);
  M<Ti> m((size_t)n);
  size_t empty = 0;
  const int mode = (int)s.u(4);
  for (auto& r : m) {
    const int k = mode == 0 ? (int)s.range(0, 6)
                : mode == 1 ? (s.chance(1, 2) ? 0 : (int)s.range(0, 3))
                : mode == 2 ? 0 : (int)s.range(1, 30);
    for (int j = 0; j < k; j++)
      r.push_back(s.chance(1, 8) ? s.pick({std::numeric_limits<Ti>::max(),
        std::numeric_limits<Ti>::min(), (Ti)-1, (Ti)0, (Ti)-32})
        : (Ti)s.range(0, 30000));
    empty += r.empty();
  }
  ctx.nontrivial(n >= 2);
  if (empty) ctx.label("empty-rows");
  if (n && empty == (size_t)n) ctx.label("all-empty");
  return m;
}

template <typename Ti>
static votess::dnn<Ti> build(const M<Ti>& m, bool move, int slack = 0) {
  std::vector<Ti> l, o{0};
  for (auto& r : m) {
    for (auto v : r) l.push_back(v);
    o.push_back((Ti)l.size());
  }
  // entries that belong to no row
  for (int i = 0; i < slack; i++) l.push_back((Ti)(7 + i));
  if (move) return votess::dnn<Ti>(std::move(l), std::move(o));
  const auto l0 = l, o0 = o;
  votess::dnn<Ti> d(l, o);
  PBT_CHECK(l == l0 && o == o0, "the constructor changed the caller's vectors");
  // the container keeps its own copy
  for (auto& v : l) v = 99;
  for (auto& v : o) v = 0;
  return d;
}

template <typename Ti> static void history(Src& s, Ctx& ctx) {
  Scratch tmp;
  M<Ti> m = rows<Ti>(s, ctx);
  std::ostringstream h;
  h << m.size() << " rows";
  votess::dnn<Ti> d = build(m, s.chance(1, 2),
                            s.chance(1, 4) ? (int)s.range(1, 5) : 0);
  same(d, m, "built");
  const int steps = (int)s.range(0, 12);
  for (int k = 0; k < steps; k++) {
    switch (s.u(7)) {
      case 0: { // write through a row
        std::vector<std::pair<size_t, size_t>> at;
        for (size_t i = 0; i < m.size(); i++)
          for (size_t j = 0; j < m[i].size(); j++) at.push_back({i, j});
        if (at.empty()) break;
        const auto [i, j] = at[s.u(at.size())];
        const Ti v = (Ti)s.range(-5, 30000);
        d[(int)i][j] = v;
        m[i][j] = v;
        h << " write(" << i << "," << j << "," << (long)v << ")";
        break;
      }
      case 1: { // a copy is independent
        h << " copy";
        votess::dnn<Ti> e(d);
        same(e, m, "copy");
        for (auto& v : e.list) v = 7;
        break;
      }
      case 2: { h << " assign"; votess::dnn<Ti> e; e = d; d = e; break; }
      case 3: { h << " move"; votess::dnn<Ti> e(std::move(d));
                d = std::move(e); break; }
      case 4: h << " output"; output(d, m, tmp.dir + "/a", s.chance(1, 2)); break;
      case 5: h << " rebuild"; m = rows<Ti>(s, ctx);
              d = build(m, s.chance(1, 2)); break;
      default: { // somewhere that cannot be written
        h << " nowhere";
        std::string err;
        { Silence q; d.savetxt(tmp.dir + "/none/x"); err = q.err.str(); }
        PBT_CHECK(!err.empty(), "savetxt() to an impossible path says nothing");
        struct stat st;
        PBT_CHECK(stat((tmp.dir + "/none").c_str(), &st) != 0,
                  "savetxt() made a directory");
        if (m.empty()) break;
        h << " no-room"; // the disk is full from the start or somewhere within
        { Silence q; d.savetxt("/dev/full"); err = q.err.str(); }
        PBT_CHECK(!err.empty(), "savetxt() to a full disk says nothing;"
                  << h.str());
        { Silence q; d.savetxt(tmp.dir + "/a"); }
        if (stat((tmp.dir + "/a").c_str(), &st) != 0 || st.st_size < 1) break;
        const long room = (long)s.u((uint64_t)st.st_size);
        struct rlimit was, now;
        std::signal(SIGXFSZ, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &was);
        now = was;
        now.rlim_cur = (rlim_t)room;
        setrlimit(RLIMIT_FSIZE, &now);
        { Silence q; d.savetxt(tmp.dir + "/b"); err = q.err.str(); }
        setrlimit(RLIMIT_FSIZE, &was);
        unlink((tmp.dir + "/b").c_str());
        PBT_CHECK(!err.empty(), "savetxt() says nothing although only " << room
                  << " of " << st.st_size << " bytes could be written;"
                  << h.str());
        break;
      }
    }
    ctx.describe(h.str());
    same(d, m, h.str());
  }
  output(d, m, tmp.dir + "/a", false);
}

static void defaulted(Src& s, Ctx& ctx) {
  Scratch tmp;
  votess::dnn<int> d;
  M<int> m;
  ctx.nontrivial();
  ctx.describe("default constructed, " + std::to_string(s.u(1000)));
  same(d, m, "default constructed");
  output(d, m, tmp.dir + "/a", s.chance(1, 2));
}

static void large(Src& s, Ctx& ctx) {
  Scratch tmp;
  const int n = (int)s.range(33000, 140000);
  M<int> m((size_t)n);
  uint64_t z = s.u(uint64_t(1) << 40);
  for (auto& r : m) {
    z = pbt::mix64(z + 1);
    for (uint64_t j = 0; j < z % 5; j++) r.push_back((int)(z >> 20) % n);
  }
  ctx.nontrivial();
  ctx.describe("rows " + std::to_string(n));
  auto d = build(m, true);
  same(d, m, "large");
  output(d, m, tmp.dir + "/a", false);
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C11";
  const std::string rule = "0-60 rows of 0-30 entries, then up to 12 of: write"
    " through a row, copy, assign, move, rebuild, print and save, save to an"
    " impossible path; non-trivial with two rows or more";
  p.subs = {
    {"int", rule, history<int>, 30000, 600000, 60},
    {"long", rule, history<long>, 10000, 200000, 60},
    {"short", rule, history<short>, 10000, 200000, 60},
    {"default", "a default constructed result; all non-trivial", defaulted,
     100, 1000, 60},
    {"large", "33000-140000 rows; all non-trivial", large, 40, 600, 120},
  };
  return p;
}
PBT_MAIN(make)
