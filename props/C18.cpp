// The Python module is the library: for every array of points, parameters and
// device it gives the rows the library gives, however they are read.
#include "../lib/gen.hpp"
using namespace gen;

static std::string scratch() { // run.py removes what is above it
  const char* e = std::getenv("VERIF_SCRATCH");
  const std::string d = std::string(e ? e : "/tmp") + "/c18-" +
    std::to_string(getpid());
  mkdir(d.c_str(), 0700);
  return d;
}

struct Server {
  pid_t pid = 0, owner = 0;
  FILE *to = nullptr, *from = nullptr;
  void start() {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) _exit(2);
    std::fflush(nullptr);
    owner = getpid();
    pid = fork();
    if (pid == 0) {
      const int fa = fcntl(a[0], F_DUPFD, 20), fb = fcntl(b[1], F_DUPFD, 20);
      dup2(fa, 3); dup2(fb, 4);
      close(fa); close(fb);
      execlp("python3-vt", "python3-vt", std::getenv("VERIF_PYSERVER"), nullptr);
      execlp("python3", "python3", std::getenv("VERIF_PYSERVER"), nullptr);
      _exit(127);
    }
    close(a[0]); close(b[1]);
    to = fdopen(a[1], "w");
    from = fdopen(b[0], "r");
  }
  std::string ask(const std::string& q) {
    if (!pid || owner != getpid()) start();
    std::fputs(q.c_str(), to);
    std::fputc('\n', to);
    std::fflush(to);
    char* l = nullptr;
    size_t cap = 0;
    const ssize_t n = getline(&l, &cap, from);
    std::string r = n > 0 ? std::string(l, (size_t)n) : "";
    free(l);
    if (r.empty()) {
      std::fclose(to); std::fclose(from);
      int st = 0;
      waitpid(pid, &st, 0);
      pid = 0;
      PBT_FAIL("the python process ended (" << (WIFSIGNALED(st) ? "signal " :
        "exit ") << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << ")");
    }
    return r;
  }
};
static Server& server() { static Server s; return s; }

// just enough JSON: one value by key, as text; numbers in nested lists
static std::string field(const std::string& j, const std::string& key) {
  const size_t a = j.find("\"" + key + "\": ");
  if (a == std::string::npos) return "";
  size_t b = a + key.size() + 4, e = b;
  int depth = 0;
  bool str = false;
  for (; e < j.size(); e++) {
    const char c = j[e];
    if (str) { if (c == '\\') e++; else if (c == '"') str = false; continue; }
    if (c == '"') str = true;
    else if (c == '[' || c == '{') depth++;
    else if (c == ']' || c == '}') { if (depth == 0) break; depth--; }
    else if (c == ',' && depth == 0) break;
  }
  return j.substr(b, e - b);
}
static std::string text(const std::string& v) { // a JSON string's contents
  std::string r;
  for (size_t i = 1; i + 1 < v.size(); i++) {
    if (v[i] != '\\') { r += v[i]; continue; }
    i++;
    r += v[i] == 'n' ? '\n' : v[i] == 't' ? '\t' : v[i];
  }
  return r;
}
// rows written between brackets (open, close), numbers in between
static Rows parse(const std::string& t, char open, char close) {
  Rows r;
  int depth = 0;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] == open) { if (++depth == 2) r.emplace_back(); }
    else if (t[i] == close) depth--;
    else if ((t[i] >= '0' && t[i] <= '9') || t[i] == '-') {
      size_t e = 0;
      const long v = std::stol(t.substr(i, 24), &e);
      PBT_CHECK(depth == 2, "a number outside of a row: " << t.substr(0, 200));
      r.back().push_back(v);
      i += e - 1;
    }
  }
  return r;
}
static Rows lines(const std::string& t) {
  Rows r;
  std::istringstream i(t);
  std::string l;
  while (std::getline(i, l)) {
    r.emplace_back();
    std::istringstream q(l);
    long v;
    while (q >> v) r.back().push_back(v);
  }
  return r;
}

static void one(Src& s, Ctx& ctx, bool big) {
  const int cls = any_class(s);
  const int n = big ? (int)s.range(200, 1500) : count(s, 1, 60, 160);
  Set<float> in = points<float>(s, n, cls);
  votess::vtargs a;
  std::ostringstream A;
  A << "[";
  bool first = true;
  auto put = [&](const char* key, const std::string& py) {
    A << (first ? "" : ", ") << "[\"" << key << "\", " << py << "]";
    first = false;
  };
  auto num = [&](const char* key, int v) {
    a[key] = v;
    switch (s.u(5)) {
      case 0: case 1: case 2: put(key, std::to_string(v)); break;
      case 3: put(key, std::to_string(v) + ".0"); break;
      default: put(key, "\"" + std::to_string(v) + "\"");
    }
  };
  auto boolean = [&](const char* key, bool v) {
    a[key] = v;
    switch (s.u(3)) {
      case 0: put(key, v ? "true" : "false"); break;
      case 1: put(key, v ? "1" : "0"); break;
      default: put(key, v ? "\"1\"" : "\"0\"");
    }
  };
  const int words = (int)s.range(0, 8);
  for (int q = 0; q < words; q++) switch (s.u(9)) {
    case 0: case 1: num("k", (int)s.range(1, n + 3)); break;
    case 2: num("knn_grid_resolution", any_gr(s)); break;
    case 3: num("cpu_nthreads", (int)s.range(0, 5)); break;
    case 4: boolean("use_recompute", s.chance(1, 2)); break;
    case 5: boolean("use_chunking", s.chance(2, 3)); break;
    case 6: num("chunksize", (int)s.range(1, n + 2)); break;
    case 7: num("cc_p_maxsize", (int)s.range(4, 60)); break;
    default: num("cc_t_maxsize", (int)s.range(4, 100)); break;
  }
  if (s.chance(3, 4)) { a["cpu_nthreads"] = 1; put("cpu_nthreads", "1"); }
  A << "]";
  const char* form = s.pick({"lists", "tuples", "numpy", "numpy32", "numpy-f",
                             "numpy-slice", "numpy32-f", "numpy32-slice",
                             "numpy32-back", "numpy-back"});
  const char* how = s.pick({"index", "iterate", "held", "backwards", "orphan"});
  const char* dev = s.pick({"cpu", "gpu", "default"});
  const bool keywords = s.chance(1, 3), twice = s.chance(1, 3);
  std::ostringstream q;
  q << std::setprecision(9) << "{\"points\": [";
  for (size_t i = 0; i < in.size(); i++)
    q << (i ? ", " : "") << "[" << in[i][0] << ", " << in[i][1] << ", "
      << in[i][2] << "]";
  q << "], \"args\": " << A.str() << ", \"form\": \"" << form
    << "\", \"how\": \"" << how << "\", \"device\": \"" << dev
    << "\", \"keywords\": " << (keywords ? "true" : "false") << ", \"twice\": "
    << (twice ? "true" : "false") << ", \"scratch\": " << pbt::jstr(scratch())
    << ", \"bad\": [";
  const bool bad = s.chance(1, 2);
  if (bad) q << "[\"" << s.pick({"K", "kk", "", "nthreads", "k "})
             << "\", 5], [\"k\", null], [\"k\", [1]]";
  q << "]}";
  const std::string d = std::string(cname(cls)) + " " + form + " " + how + " " +
    dev + (keywords ? " keywords" : "") + " args " + A.str() + " " +
    show(in, big ? 2 : 12);
  ctx.describe(d);
  ctx.label(form); ctx.label(how); ctx.label(dev);
  ctx.nontrivial(n >= 5);
  auto x = in;
  Rows want;
  {
    Silence sil;
    auto L = votess::tesellate<int, float>(x, a, dev[0] == 'c' ?
      votess::device::cpu : votess::device::gpu);
    want = rows_of(L);
  }
  std::string r;
  try { r = server().ask(q.str()); }
  catch (const pbt::Fail& f) { PBT_FAIL(f.what() << "; " << d); }
  const std::string ex = field(r, "exception");
  PBT_CHECK(ex.empty(), "raised " << ex << "; " << d);
  auto same = [&](const Rows& got, const char* what) {
    PBT_CHECK(got.size() == want.size(), what << " has " << got.size()
              << " rows, the library " << want.size() << "; " << d);
    for (size_t i = 0; i < got.size(); i++)
      PBT_CHECK(got[i] == want[i], what << ": row " << i << " is "
        << list(got[i]) << ", the library has " << list(want[i]) << "; " << d);
  };
  same(parse(field(r, "rows"), '[', ']'), "the result");
  PBT_CHECK(field(r, "size") == std::to_string(n), "size() is "
            << field(r, "size") << "; " << d);
  if (twice) same(parse(field(r, "again"), '[', ']'), "a second call");
  PBT_CHECK(field(r, "outside") == "[]", "no IndexError: "
            << field(r, "outside") << "; " << d);
  same(lines(text(field(r, "saved"))), "savetxt");
  bool empty = true;
  for (auto& w : want) empty = empty && w.empty();
  const Rows pr = parse(text(field(r, "print")), '{', '}');
  if (!(empty && pr.empty())) same(pr, "print");
  PBT_CHECK(field(r, "errors").find("accepted") == std::string::npos,
            "accepted: " << field(r, "errors") << "; " << d);
  PBT_CHECK(field(r, "params") == "[]", "after the call: "
            << field(r, "params") << "; " << d);
}

static void parameters(Src& s, Ctx& ctx) {
  const int n = (int)s.range(1, 20);
  std::ostringstream h;
  for (int i = 0; i < n; i++) {
    const std::string key = s.chance(1, 10) ?
      s.pick({"K", "kk", "", "nthreads", "k ", "grid"}) :
      s.pick({"k", "knn_grid_resolution", "cpu_nthreads", "gpu_ndsize",
              "chunksize", "use_chunking", "use_recompute", "cc_p_maxsize",
              "cc_t_maxsize", "dev_suppress_stdout"});
    std::ostringstream v;
    v << std::setprecision(17);
    switch (s.u(8)) {
      case 0: case 1: v << s.range(-100, 100000); break;
      case 2: v << s.pick({2147483647L, -2147483648L, 65536L, 1000000L,
                           16777217L, 123456789L}); break;
      case 3: v << (s.chance(1, 2) ? "true" : "false"); break;
      case 4: v << s.range(0, 100000) << "." << s.range(0, 9); break;
      case 5: v << s.pick({"1e6", "1e9", "1234567.0", "16777217.0", "1e-7",
                           "0.1", "0.333333333333333", "-2.5e10", "1e300"}); break;
      case 6: v << "\"" << s.range(-50, 5000000) << "\""; break;
      default: v << s.pick({"\"abc\"", "\"12abc\"", "\"x\"", "\"1e6\"",
                            "null", "[1]"});
    }
    h << (i ? ", " : "") << "[\"" << key << "\", " << v.str() << "]";
  }
  ctx.describe(h.str());
  ctx.nontrivial(n >= 3);
  std::string r;
  try { r = server().ask("{\"sets\": [" + h.str() + "], \"scratch\": " +
                         pbt::jstr(scratch()) + "}"); }
  catch (const pbt::Fail& f) { PBT_FAIL(f.what() << "; " << h.str()); }
  const std::string ex = field(r, "exception");
  PBT_CHECK(ex.empty(), "raised " << ex << "; " << h.str());
  PBT_CHECK(field(r, "bad") == "[]", field(r, "bad") << "; " << h.str());
}

static void container(Src& s, Ctx& ctx) {
  const int n = (int)s.logrange(0, 40);
  Rows want;
  std::vector<long> l, o;
  if (n || s.chance(1, 2)) o.push_back(0);
  for (int i = 0; i < n; i++) {
    want.emplace_back();
    for (int j = (int)s.range(0, 6) - 1; j > 0; j--)
      want.back().push_back(s.chance(1, 9) ? s.pick({2147483647L, -2147483648L,
        -1L, 0L}) : s.range(0, 100000));
    for (long v : want.back()) l.push_back(v);
    o.push_back((long)l.size());
  }
  int run = 0;
  if (!o.empty() && s.chance(1, 12)) {
    run = (int)s.range(65530, 70000);
    want.emplace_back();
    for (int i = 0; i < run; i++) want.back().push_back((7L * i + 3) % 1000003);
  }
  const char* how = s.pick({"index", "iterate", "held", "backwards"});
  const bool drop = s.chance(1, 3);
  std::ostringstream q;
  q << "{\"list\": " << list(l) << ", \"offs\": " << list(o) << ", \"run\": "
    << run << ", \"how\": \"" << how << "\", \"drop\": "
    << (drop ? "true" : "false") << ", \"scratch\": " << pbt::jstr(scratch())
    << "}";
  const std::string d = std::string(how) + (drop ? " dropped " : " ") +
    std::to_string(run) + " " + list(l) + " " + list(o);
  ctx.describe(d.substr(0, 300));
  ctx.label(how);
  if (run) ctx.label("row-over-65535");
  ctx.nontrivial(n >= 2 || run);
  std::string r;
  try { r = server().ask(q.str()); }
  catch (const pbt::Fail& f) { PBT_FAIL(f.what() << "; " << d); }
  const std::string ex = field(r, "exception");
  PBT_CHECK(ex.empty(), "raised " << ex << "; " << d);
  PBT_CHECK(field(r, "size") == std::to_string(want.size()), "size() is "
            << field(r, "size") << "; " << d);
  PBT_CHECK(field(r, "outside") == "[]", "no IndexError: "
            << field(r, "outside") << "; " << d);
  PBT_CHECK(parse(field(r, "rows"), '[', ']') == want, "read back "
            << field(r, "rows").substr(0, 300) << "; " << d);
  if (drop) return;
  PBT_CHECK(lines(text(field(r, "saved"))) == want, "savetxt wrote "
            << field(r, "saved").substr(0, 300) << "; " << d);
  bool empty = true;
  for (auto& w : want) empty = empty && w.empty();
  const Rows pr = parse(text(field(r, "print")), '{', '}');
  if (!(empty && pr.empty())) PBT_CHECK(pr == want, "printed "
            << field(r, "print").substr(0, 300) << "; " << d);
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C18";
  p.subs = {
    {"same", "1-160 points of 16 classes as lists, tuples and numpy arrays of"
     " either type and any layout, up to eight parameters as int,"
     " float, bool or text, each device; rows read by index, iteration, through held rows and"
     " rows of a dropped result, print and savetxt, all compared with the"
     " library called here; non-trivial with five points or more",
     [](Src& s, Ctx& c) { one(s, c, false); }, 2500, 50000, 60},
    {"container", "a dnn of 0-40 rows built in python, one in twelve with a row"
     " of more than 65530 entries, and a default one; read back four ways,"
     " after the caller changed its lists or dropped the dnn, printed and"
     " saved; non-trivial with two rows or more", container, 1200, 20000, 60},
    {"parameters", "1-20 of: set one of the ten parameters to an int, float,"
     " bool or text, or an unknown one, or to nothing of the sort; all read back"
     " after each; non-trivial with three steps or more", parameters, 3000,
     60000, 60},
    {"large", "200-1500 points, as above; all non-trivial",
     [](Src& s, Ctx& c) { one(s, c, true); }, 60, 1500, 120},
  };
  for (auto& s : p.subs) s.deterministic = false;
  p.assumptions = {"pyvotess is compiled from src/pybind11/pyvotess.cpp against"
    " a host emulation of SYCL that reports no GPU"};
  return p;
}
PBT_MAIN(make)
