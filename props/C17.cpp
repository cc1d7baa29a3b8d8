// The command line tool is the library: for every input file and every set of
// options it prints the rows the library computes for the points in the file
// with the parameters named, and it fails on a file it cannot use.
#include "../lib/gen.hpp"
#include <spawn.h>
#include <csignal>
#include <sys/resource.h>
using namespace gen;
extern char** environ;

static std::string scratch() { // run.py removes what is above it
  const char* e = std::getenv("VERIF_SCRATCH");
  const std::string d = std::string(e ? e : "/tmp") + "/c17-" +
    std::to_string(getpid());
  mkdir(d.c_str(), 0700);
  return d;
}
struct Sweep { // leaves no scratch files behind
  std::vector<std::string> f;
  ~Sweep() {
    const std::string d = scratch();
    for (auto& x : f) unlink(x.c_str());
    rmdir(d.c_str());
  }
};

struct Res { int rc = 0; bool signalled = false; std::string out, err; };

static std::string slurp(const std::string& f) {
  std::ifstream i(f, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(i)), {});
}

// full: nothing can be written to stdout; room: no more than that many bytes
static Res cli(const std::vector<std::string>& a, bool full = false,
               long room = -1) {
  const char* exe = std::getenv("VERIF_CLI");
  if (!exe) { std::fprintf(stderr, "VERIF_CLI is not set\n"); _exit(2); }
  std::vector<char*> v{(char*)exe};
  for (auto& x : a) v.push_back((char*)x.c_str());
  v.push_back(nullptr);
  const std::string o = scratch() + "/out", e = scratch() + "/err";
  Sweep sw; sw.f = {o, e};
  std::fflush(nullptr);
  const pid_t p = fork();
  if (p == 0) {
    const int fo = open(full ? "/dev/full" : o.c_str(),
                        O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (room >= 0) {
      std::signal(SIGXFSZ, SIG_IGN);
      const struct rlimit l{(rlim_t)room, (rlim_t)room};
      setrlimit(RLIMIT_FSIZE, &l);
    }
    const int fe = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    const int fi = open("/dev/null", O_RDONLY);
    dup2(fi, 0); dup2(fo, 1); dup2(fe, 2);
    execv(exe, v.data());
    _exit(127);
  }
  int st = 0;
  waitpid(p, &st, 0);
  Res r;
  r.signalled = WIFSIGNALED(st);
  r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  r.out = slurp(o);
  r.err = slurp(e);
  return r;
}

// rows between the innermost braces of the printed result
static bool parse(const std::string& t, Rows& r) {
  int depth = 0, most = 0;
  bool num = false;
  long v = 0;
  auto end = [&] { if (num) { if (r.empty()) return false; r.back().push_back(v);
                              num = false; v = 0; } return true; };
  for (char c : t) {
    if (c >= '0' && c <= '9') {
      if (depth != 2) return false;
      num = true; v = v * 10 + (c - '0');
      continue;
    }
    if (!end()) return false;
    if (c == '{') { depth++; most = std::max(most, depth);
                    if (depth == 2) r.emplace_back();
                    if (depth > 2) return false; }
    else if (c == '}') { if (--depth < 0) return false; }
    else if (c != ',' && c != ' ' && c != '\n') return false;
  }
  return depth == 0 && most >= 1;
}

// A number as text: every rendering names exactly the float v, or (wide) a
// value the reader has to round.
static std::string number(Src& s, float& v, bool wide) {
  char b[64];
  double d = v;
  if (wide) { // between v and the next float
    d = v + (std::nextafter(v, 1.0f) - (double)v) * s.real(0.1, 0.4, 10);
  }
  switch (s.u(5)) {
    case 0: std::snprintf(b, sizeof b, wide ? "%.17g" : "%.9g", d); break;
    case 1: std::snprintf(b, sizeof b, "%.25f", d); break;
    case 2: std::snprintf(b, sizeof b, "%.17e", d); break;
    case 3: std::snprintf(b, sizeof b, "%.17E", d); break;
    default: std::snprintf(b, sizeof b, "+%.20f", d); break;
  }
  std::string t = b;
  if (s.chance(1, 8) && t.compare(0, 2, "0.") == 0) t = t.substr(1);
  if (s.chance(1, 24)) { // digits that change nothing, in any number
    const size_t z = (size_t)s.pick({3, 40, 130, 300, 1100, 5000});
    if (t.find('e') == t.npos && t.find('E') == t.npos &&
        t.find('.') != t.npos && s.chance(1, 2)) t.append(z, '0');
    else t.insert(t[0] == '+' ? 1 : 0, z, '0');
  }
  v = std::strtof(t.c_str(), nullptr);
  return t;
}

// blanks between numbers, now and then in any amount
static std::string blanks(Src& s) {
  static const char* seps[] = {" ", "\t", "   ", " \t ", "\v", " \f"};
  if (s.chance(1, 30))
    return std::string((size_t)s.pick({20, 90, 260, 600, 1030, 4100, 70000}),
                       s.chance(1, 2) ? ' ' : '\t');
  return seps[s.weighted({4, 4, 4, 4, 1, 1})];
}

static std::string fileof(Src& s, Set<float>& in) {
  std::string f;
  const bool plain = !s.chance(1, 2);
  for (size_t i = 0; i < in.size(); i++) {
    if (!plain && s.chance(1, 6)) f += blanks(s);
    for (int d = 0; d < 3; d++) {
      f += plain ? number(s, in[i][(size_t)d], false)
                 : number(s, in[i][(size_t)d], s.chance(1, 4));
      if (d < 2) f += plain ? " " : blanks(s);
    }
    if (!plain) {
      if (s.chance(1, 8)) f += " 0.25";          // a fourth column
      if (s.chance(1, 8)) f += " # comment";
      if (s.chance(1, 6)) f += blanks(s);
      if (s.chance(1, 8)) f += "\r";
    }
    if (i + 1 < in.size() || !s.chance(1, 6)) f += "\n";
  }
  return f;
}

static void write(const std::string& p, const std::string& t) {
  std::ofstream o(p, std::ios::binary);
  o << t;
}

// name of the option, short and long spellings
static void opt(Src& s, std::vector<std::string>& a, char c,
                std::vector<const char*> names, const std::string& v) {
  switch (s.u(4)) {
    case 0: a.push_back(std::string("-") + c); a.push_back(v); break;
    case 1: a.push_back(std::string("-") + c + v); break;
    case 2: a.push_back(std::string("--") + names[s.u(names.size())]);
            a.push_back(v); break;
    default: a.push_back(std::string("--") + names[s.u(names.size())] + "=" + v);
  }
  // as much of a long name as tells it from the others will do
  static const std::map<std::string, size_t> enough = {{"infile", 1},
    {"use-device", 5}, {"k-init", 1}, {"gridres", 5}, {"grid-resolution", 5},
    {"cpu-nthreads", 2}, {"gpu-ndsize", 2}, {"chunksize", 2}, {"p-maxsize", 1},
    {"t-maxsize", 1}};
  for (auto& x : a) for (auto* n : names) {
    const std::string l = std::string("--") + n;
    if (x.compare(0, l.size(), l) || !(x.size() == l.size() || x[l.size()] == '='))
      continue;
    if (s.chance(1, 8))
      x = l.substr(0, 2 + (size_t)s.range((int)enough.at(n), (int)l.size() - 2)) +
          x.substr(l.size());
    return;
  }
}
static void flag(Src& s, std::vector<std::string>& a, char c, const char* n) {
  if (s.chance(1, 2)) a.push_back(std::string("--") + n);
  else a.push_back(std::string("-") + c);
}

static std::string join(const std::vector<std::string>& a) {
  std::string r;
  for (auto& x : a) r += (r.empty() ? "" : " ") + x;
  return r;
}

static void same(Src& s, Ctx& ctx) {
  const int cls = any_class(s);
  const int n = s.chance(1, 60) ? 0 : count(s, 1, 80, 260);
  Set<float> in = points<float>(s, n, cls);
  const std::string text = fileof(s, in);
  for (auto& p : in) for (auto& v : p) if (!(v > 0 && v < 1)) throw pbt::Discard{};
  // every option is a (generator of the word, effect on the parameters) pair;
  // they come in any order, some twice: the last one counts
  votess::vtargs a;
  std::vector<std::string> w;
  bool gpu = false, kzero = false, threads = false, help = false;
  const int words = (int)s.range(0, 9);
  std::vector<std::vector<std::string>> groups;
  for (int q = 0; q < words; q++) {
    std::vector<std::string> g;
    auto num = [&](char c, std::vector<const char*> names, const char* key,
                   int v) {
      opt(s, g, c, names, (v < 0 ? "" : s.chance(1, 10) ? "0" : s.chance(1, 12) ? "+"
          : "") + std::to_string(v));
      a[key] = v;
    };
    if (s.chance(1, 20)) { // shown, and otherwise without effect
      const bool h = s.chance(1, 2);
      flag(s, g, h ? 'h' : 'v', h ? "help" : "version");
      help = help || h;
      groups.push_back(g);
      continue;
    }
    switch (s.u(10)) {
      case 0: { const int k = s.chance(1, 8) ? 0 : (int)s.range(1, n + 3);
                num('k', {"k-init"}, "k", k); kzero = k == 0; break; }
      case 1: num('g', {"gridres", "grid-resolution"}, "knn_grid_resolution",
                  any_gr(s)); break;
      case 2: num('t', {"cpu-nthreads"}, "cpu_nthreads", (int)s.range(0, 6));
              threads = true; break;
      case 3: num('d', {"gpu-ndsize"}, "gpu_ndsize", (int)s.range(1, 64)); break;
      case 4: num('c', {"chunksize"}, "chunksize", s.chance(1, 6) ? s.pick({0, -1, -8196, 65536, 2000000000})
                              : (int)s.range(1, n + 5)); break;
      case 5: if (s.chance(1, 5)) { // two in one word
                g.push_back(s.chance(1, 2) ? "-ur" : "-ru");
                a["use_recompute"] = true;
              } else flag(s, g, 'u', "use-chunking");
              a["use_chunking"] = true; break;
      case 6: flag(s, g, 'r', "use-recompute"); a["use_recompute"] = true; break;
      case 7: num('p', {"p-maxsize"}, "cc_p_maxsize", s.chance(1, 8) ?
                  s.pick({0, -7, 255, 256, 300, 70000}) : (int)s.range(4, 60));
              break;
      case 8: num('m', {"t-maxsize"}, "cc_t_maxsize", s.chance(1, 8) ?
                  s.pick({0, -7, 256, 512, 600, 70000}) : (int)s.range(4, 100));
              break;
      default: gpu = s.chance(1, 2);
               opt(s, g, 'x', {"use-device"}, gpu ? "gpu" : "cpu");
    }
    groups.push_back(g);
  }
  const std::string file = scratch() + "/" +
    std::string(s.pick({"points.txt", "a b.dat", "p"}));
  Sweep sw; sw.f = {file};
  write(file, text);
  { std::vector<std::string> g;
    opt(s, g, 'i', {"infile"}, file);
    size_t at = s.u(groups.size() + 1);
    groups.insert(groups.begin() + (long)at, g);
    if (s.chance(1, 8)) { // named twice: the last one counts
      std::vector<std::string> e;
      opt(s, e, 'i', {"infile"}, s.chance(1, 2) ? file + ".other" : file);
      sw.f.push_back(file + ".other");
      if (s.chance(1, 2)) write(file + ".other", "0.25 0.5 0.75\n");
      groups.insert(groups.begin() + (long)s.u(at + 1), e);
    } }
  for (auto& g : groups) w.insert(w.end(), g.begin(), g.end());
  if (!threads && s.chance(3, 4)) { w.push_back("-t1"); }
  const std::string d = std::string(cname(cls)) + " clvotess " + join(w) + " " +
    show(in);
  ctx.describe(d);
  ctx.nontrivial(n >= 5 && words >= 1);
  ctx.label(cname(cls));
  if (gpu) ctx.label("gpu");
  if (kzero) { ctx.label("k=0"); a["k"] = std::min(n, 64); }
  auto x = in;
  Rows want;
  {
    Silence q;
    auto L = votess::tesellate<int, float>(x, a, gpu ? votess::device::gpu
                                                     : votess::device::cpu);
    want = rows_of(L);
  }
  const Res r = cli(w);
  PBT_CHECK(!r.signalled && r.rc == 0, "exit " << r.rc << " stderr: "
            << r.err.substr(0, 300) << "; " << d);
  Rows got;
  std::string out = r.out;
  if (help) {
    ctx.label("help");
    PBT_CHECK(out.find("--infile") != out.npos, "no help; " << d);
    out = out.substr(std::min(out.size(), out.find('{')));
  }
  PBT_CHECK(parse(out, got), "output is not a list of rows: "
            << r.out.substr(0, 300) << "; " << d);
  bool empty = true;
  for (auto& q : want) empty = empty && q.empty();
  if (empty && got.empty()) return;
  PBT_CHECK(got.size() == want.size(), "printed " << got.size() << " rows, the"
            " library has " << want.size() << "; " << d);
  for (size_t i = 0; i < got.size(); i++)
    PBT_CHECK(got[i] == want[i], "row " << i << " printed " << list(got[i])
              << ", the library has " << list(want[i]) << "; " << d);
  if (s.chance(1, 6)) { // the same where the result cannot be written
    const bool full = s.chance(1, 2);
    const long room = full ? -1 : (long)s.u(r.out.size());
    ctx.label("no-room");
    const Res q = cli(w, full, room);
    PBT_CHECK(!q.signalled && q.rc != 0, "exit " << q.rc << " although "
      << (full ? 0 : room) << " of " << r.out.size()
      << " bytes could be written; " << d);
    PBT_CHECK(!full || !q.err.empty(), "no message although nothing could be"
      " written; " << d);
  }
#ifndef VERIF_REAL_SYCL
  const bool warned = r.err.find("GPU") != std::string::npos;
  PBT_CHECK(warned == gpu, "the device asked for is not the one used; stderr: "
            << r.err << "; " << d);
#endif
}

static void bad(Src& s, Ctx& ctx) {
  const int n = (int)s.range(0, 40);
  Set<float> in = points<float>(s, n, any_class(s));
  std::string text = fileof(s, in);
  std::vector<std::string> lines;
  { std::istringstream i(text); std::string l;
    while (std::getline(i, l)) lines.push_back(l); }
  std::vector<std::string> w;
  if (s.chance(1, 3)) { w.push_back("-k"); w.push_back("5"); }
  if (s.chance(1, 3)) { w.push_back("-r"); }
  std::string file = scratch() + "/points.txt", what;
  Sweep sw; sw.f = {file};
  switch (s.weighted({8, 2, 1})) {
    case 0: {
      static const char* wrong[] = {"", " ", "abc", "0.5", "0.5 0.5",
        "0.5 0.5 x", "0.5,0.5,0.5", "x 0.5 0.5 0.5", "0.5 nope 0.5", "\t",
        "# comment", "0.5 0.5 -", "0.5 0.5 .", "- 0.5 0.5", "0.5 0.5 e5", "\r"};
      const std::string l = wrong[s.u(sizeof wrong / sizeof *wrong)];
      const size_t at = s.u(lines.size() + 1);
      lines.insert(lines.begin() + (long)at, l);
      text.clear();
      for (auto& q : lines) text += q + "\n";
      if (l != "" && s.chance(1, 3)) text.pop_back(); // no end of the last line
      write(file, text);
      what = "line " + std::to_string(at + 1) + " of " +
             std::to_string(lines.size()) + " is '" + l + "'";
      w.push_back("-i"); w.push_back(file);
      break;
    }
    case 1:
      file = scratch() + s.pick({"/missing", "/no/such/dir", "", "/"});
      what = "no such file, or a directory";
      w.push_back("-i"); w.push_back(file);
      break;
    default:
      what = "no input file named";
  }
  const std::string d = what + "; clvotess " + join(w);
  ctx.describe(d);
  ctx.nontrivial(n >= 1);
  const Res r = cli(w);
  PBT_CHECK(!r.signalled && r.rc != 0, "exit " << r.rc << " although " << d);
  PBT_CHECK(!r.err.empty(), "no message although " << d);
  PBT_CHECK(r.out.find('{') == std::string::npos, "a result is printed although "
            << d << ": " << r.out.substr(0, 200));
}

// long files, default parameters
static void big(Src& s, Ctx& ctx, bool huge) {
  const int cls = generic_class(s);
  const int n = huge ? (int)s.range(66000, 69000) : (int)s.range(500, 6000);
  Set<float> in = huge ? crowd<float>(s, n) : points<float>(s, n, cls);
  std::string text;
  if (huge) { // read back as they are
    char b[80];
    for (auto& p : in) {
      std::snprintf(b, sizeof b, "%.9g %.9g %.9g\n", p[0], p[1], p[2]);
      text += b;
    }
  } else text = fileof(s, in);
  for (auto& p : in) for (auto& v : p) if (!(v > 0 && v < 1)) throw pbt::Discard{};
  const std::string file = scratch() + "/points.txt";
  Sweep sw; sw.f = {file};
  write(file, text);
  votess::vtargs a;
  std::vector<std::string> w{"-i", file};
  if (huge) { w.push_back("-k9"); a["k"] = 9; }
  else if (s.chance(1, 2)) { w.push_back("-k0"); }
  const std::string d = std::string(cname(cls)) + " clvotess " + join(w) + " " +
    show(in, 2);
  ctx.describe(d);
  ctx.nontrivial();
  auto x = in;
  Rows want, got;
  { Silence q; auto L = votess::tesellate<int, float>(x, a); want = rows_of(L); }
  const Res r = cli(w);
  PBT_CHECK(r.rc == 0 && parse(r.out, got), "exit " << r.rc << " output "
            << r.out.substr(0, 200) << "; " << d);
  PBT_CHECK(got == want, "the printed rows are not the library's; " << d);
}

static pbt::Property make() {
  pbt::Property p;
  p.id = "C17";
  p.subs = {
    {"same", "a file of 0-260 points of 16 classes in varied number formats,"
     " spacing and line ends, up to nine options in any order and spelling;"
     " rows printed by clvotess compared with the library called here;"
     " non-trivial with five points or more and an option", same,
     4000, 60000, 60},
    {"bad", "a malformed line anywhere in a file, a file that is not there, a"
     " directory, no"
     " file; clvotess fails, says so and prints no result; non-trivial when"
     " the file has points", bad, 2500, 30000, 60},
    {"big", "500-6000 points, default parameters; all non-trivial",
     [](Src& s, Ctx& c) { big(s, c, false); }, 48, 600, 120},
    {"huge", "66000-69000 points, k 9; all non-trivial",
     [](Src& s, Ctx& c) { big(s, c, true); }, 2, 24, 300},
  };
  for (auto& s : p.subs) s.deterministic = false;
  p.assumptions = {"clvotess is compiled from src/main.cpp against a host"
    " emulation of SYCL that reports no GPU"};
  return p;
}
PBT_MAIN(make)
