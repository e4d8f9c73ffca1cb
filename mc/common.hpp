// Shared machinery of the harnesses: configurations, models of the real code, states, the parallel
// exhaustive runner, counters and reporting.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include "ref.hpp"

namespace mc {
using std::map; using std::string; using std::vector;
typedef vector<double> Vec;

inline string num(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); string s = b; if (s.find_first_of(".eEn") == string::npos) s += ".0"; if (s == "nan" || s == "-nan") s = ".nan"; if (s == "inf") s = ".inf"; if (s == "-inf") s = "-.inf"; return s; }
inline string nums(const Vec& v) { string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + num(v[i]); return s + "]"; }
inline string ints(const vector<int>& v) { string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + std::to_string(v[i]); return s + "]"; }
inline string jstr(const string& s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }

// ------------------------------------------------------------------ configuration
static const vector<string> PARS = {"par_DHtable", "par_world2L0", "par_Ln2EE", "par_gravity", "par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"};

struct Cfg {
  vector<string> types;
  int Dl_order = 0, K_order = 0, D_order = 0, Dm_order = 0;
  bool elastic = false;
  int names = 0;                   // how links and joints are called in the configuration
  map<string, Vec> val;            // full-size values of every parameter group
  map<string, vector<int>> mask;   // full-size symbolic masks
  int n() const { return (int)types.size(); }
  bool isP(int i) const { return types[i][0] == 'P'; }
  bool isE(int i) const { return types[i].size() > 1; }
  int ne() const { int k = 0; for (auto& t : types) if (t.size() > 1) k++; return k; }
  int size(const string& p) const {
    if (p == "par_DHtable") return 4 * n();
    if (p == "par_world2L0" || p == "par_Ln2EE") return 6;
    if (p == "par_gravity") return 3;
    if (p == "par_DYN") return 10 * n();
    if (p == "par_Dl") return Dl_order * n();
    if (!elastic) return 0;
    if (p == "par_K") return K_order * ne();
    if (p == "par_D") return D_order * ne();
    if (p == "par_Dm") return Dm_order * ne();
    if (p == "par_Mm") return ne();
    return 0;
  }
  // names mean nothing: in order, in reverse order, other words, numbers, two-digit ones, hardly different ones
  string name(const string& kind, int i) const { switch (names % 6) { case 5: { static const char* alike[] = {"arm-1", "arm_1", "Arm_1", "arm 1", "arm.1", "1", "1.0", "01", "'1 '", "true", "arm__1"}; return i < 11 ? alike[i] : kind + std::to_string(i); } case 1: return kind + std::to_string(n() - i); case 2: return string(1, (char)('z' - i % 26)) + "_" + kind + (i > 25 ? "x" : ""); case 3: return std::to_string((i * 7 + 3) % 41); case 4: return kind + std::to_string(12 - i); default: return kind + std::to_string(i + 1); } }
  string typestr() const { string s; for (size_t i = 0; i < types.size(); i++) s += (i ? "," : "") + types[i]; return s; }
};

inline vector<string> split(const string& s, char c = ',') { vector<string> r; string t; std::stringstream ss(s); while (std::getline(ss, t, c)) r.push_back(t); return r; }

// generic (irrational-looking, all distinct) value number k of a stream; deterministic
inline double gen(int k, double lo, double hi) { double g = 0.6180339887498949 * (k + 1) + 0.1234567891234 * ((k * k) % 7); g -= std::floor(g); return lo + (hi - lo) * g; }

// symmetric positive definite tensor with distinct entries, number k
inline void spd(int k, double* I) {
  double a = gen(3 * k, 0.5, 1.5), b = gen(3 * k + 1, 0.6, 1.4), c = gen(3 * k + 2, 0.7, 1.6);
  double p = 0.11 + 0.03 * (k % 5), q = -0.07 - 0.02 * (k % 4), r = 0.05 + 0.01 * (k % 6);
  I[0] = a; I[1] = p; I[2] = q; I[3] = b; I[4] = r; I[5] = c;
}

inline bool& plain_names() { static bool b = false; return b; }
// generic configuration of a structure, number `bg`
inline Cfg generic(const vector<string>& types, int bg, int Dl = 0, bool ela = false, int K = 0, int D = 0, int Dm = 0) {
  Cfg c; c.types = types; c.names = plain_names() ? 0 : bg; c.Dl_order = Dl; c.elastic = ela; if (ela) { c.K_order = K; c.D_order = D; c.Dm_order = Dm; }
  int n = c.n(); int s = 17 * bg + 1;
  Vec dh; for (int i = 0; i < n; i++) { dh.push_back(gen(s++, -0.9, 1.1)); dh.push_back(gen(s++, -2.8, 2.8)); dh.push_back(gen(s++, -1.2, 0.8)); dh.push_back(gen(s++, -3, 3)); }
  c.val["par_DHtable"] = dh;
  Vec b, e; for (int i = 0; i < 3; i++) { b.push_back(gen(s++, -2, 2)); e.push_back(gen(s++, -1, 1.5)); }
  for (int i = 0; i < 3; i++) { b.push_back(gen(s++, -1.4, 1.4)); e.push_back(gen(s++, -1.4, 1.4)); }
  c.val["par_world2L0"] = b; c.val["par_Ln2EE"] = e;
  c.val["par_gravity"] = {gen(s++, 0.5, 3), gen(s++, -4, -1), gen(s++, -9.9, -8)};
  Vec d; for (int i = 0; i < n; i++) { d.push_back(gen(s++, 0.6, 4)); for (int k = 0; k < 3; k++) d.push_back(gen(s++, -0.6, 0.7)); double I[6]; spd(5 * bg + i, I); for (double x : I) d.push_back(x); }
  c.val["par_DYN"] = d;
  for (auto& p : {"par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"}) { Vec v; for (int i = 0; i < c.size(p); i++) v.push_back(gen(s++, 0.2, 3)); c.val[p] = v; }
  for (auto& p : PARS) c.mask[p].assign(c.size(p), 0);
  return c;
}
inline void mask_all(Cfg& c, int v) { for (auto& p : PARS) c.mask[p].assign(c.size(p), v); }
inline void mask_alt(Cfg& c, int phase) { int k = phase; for (auto& p : PARS) { c.mask[p].assign(c.size(p), 0); for (auto& x : c.mask[p]) x = (k++ % 2); } }

struct YamlOpt { bool symb_always = true; };
inline string yaml(const Cfg& c, const string& extra = "") {
  std::ostringstream o; int n = c.n();
  auto V = [&](const string& p) -> const Vec& { return c.val.at(p); };
  auto sub = [&](const Vec& v, int a, int k) { return nums(Vec(v.begin() + a, v.begin() + a + k)); };
  auto subi = [&](const vector<int>& v, int a, int k) { return ints(vector<int>(v.begin() + a, v.begin() + a + k)); };
  o << "num_joints: " << n << "\ntype_joints: [";
  for (int i = 0; i < n; i++) o << (i ? ", " : "") << "'" << c.types[i] << "'";
  o << "]\n" << "kinematics:\n  symb: " << ints(c.mask.at("par_DHtable")) << "\n  DH: " << nums(V("par_DHtable")) << "\n";
  o << "gravity:\n  symb: " << ints(c.mask.at("par_gravity")) << "\n  value: " << nums(V("par_gravity")) << "\n";
  o << "Base_to_L0:\n  symb: " << ints(c.mask.at("par_world2L0")) << "\n  tr: " << sub(V("par_world2L0"), 0, 3) << "\n  ypr: " << sub(V("par_world2L0"), 3, 3) << "\n";
  o << "Ln_to_EE:\n  symb: " << ints(c.mask.at("par_Ln2EE")) << "\n  tr: " << sub(V("par_Ln2EE"), 0, 3) << "\n  ypr: " << sub(V("par_Ln2EE"), 3, 3) << "\n";
  if (c.Dl_order) o << "Dl_order: " << c.Dl_order << "\n";
  o << "dynamics:\n";
  static const char* nm[] = {"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
  for (int i = 0; i < n; i++) {
    o << "  " << c.name("link", i) << ":\n    inertial:\n      symb: " << subi(c.mask.at("par_DYN"), 10 * i, 10) << "\n";
    for (int k = 0; k < 10; k++) o << "      " << nm[k] << ": " << num(V("par_DYN")[10 * i + k]) << "\n";
    if (c.Dl_order) o << "    friction:\n      symb: " << subi(c.mask.at("par_Dl"), c.Dl_order * i, c.Dl_order) << "\n      Dl: " << sub(V("par_Dl"), c.Dl_order * i, c.Dl_order) << "\n";
  }
  if (c.elastic) {
    o << "ELASTIC_MODEL: true\nelastic:\n  K_order: " << c.K_order << "\n  D_order: " << c.D_order << "\n  Dm_order: " << c.Dm_order << "\n";
    if (c.ne()) o << "  joints:\n"; else o << "  joints: {}\n";
    int e = 0;
    for (int i = 0; i < n; i++) if (c.isE(i)) {
      o << "    " << c.name("joint", i) << ":\n";
      struct { const char* nm; const char* p; int ord; } g[] = {{"K", "par_K", c.K_order}, {"D", "par_D", c.D_order}, {"Dm", "par_Dm", c.Dm_order}};
      for (auto& x : g) { o << "      " << x.nm << "_symb: " << subi(c.mask.at(x.p), x.ord * e, x.ord) << "\n      " << x.nm << ": " << sub(V(x.p), x.ord * e, x.ord) << "\n"; }
      o << "      Mm_symb: " << c.mask.at("par_Mm")[e] << "\n      Mm: " << num(V("par_Mm")[e]) << "\n";
      e++;
    }
  }
  o << extra;
  return o.str();
}
inline string slurp(const string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
inline void spit(const string& f, const string& s) { std::ofstream o(f, std::ios::binary); o << s; }
// three ways in which a vector is not finite
inline Vec not_finite(Vec z, int how) { const double I = INFINITY, N = NAN; if (z.empty()) return z; if (how == 0) z.back() = I; else if (how == 1) z.front() = N; else for (size_t i = 0; i < z.size(); i++) z[i] = i % 3 == 0 ? N : i % 3 == 1 ? -I : I; return z; }
inline bool same_bits_or_nan(const Vec& a, const Vec& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false; return true; }
// before a file is written: it does not exist, or an older and longer one is there, or an older and shorter one (in turn)
inline void occupied(const string& f) { static int occ = 0; unlink(f.c_str()); int k = occ++ % 3; if (k) { string t; for (int i = 0; i < (k == 1 ? 1500 : 1); i++) t += "}]: [ old {\n"; spit(f, t); } }

// a valuation: full-size vectors for variables and parameters
typedef map<string, Vec> State;
static const vector<string> VARS = {"q", "dq", "ddq", "d3q", "d4q", "dqr", "ddqr", "x", "dx", "ddx", "ddxr", "w"};
inline int var_size(const Cfg& c, const string& v) { if (v == "w") return 6; if (v == "x" || v == "dx" || v == "ddx" || v == "ddxr") return c.ne(); return c.n(); }
inline State base_state(const Cfg& c, int bg = 0) {
  State s; int k = 31 * bg + 5;
  for (auto& v : VARS) { Vec x; for (int i = 0; i < var_size(c, v); i++) x.push_back(gen(k++, -2.6, 2.7)); s[v] = x; }
  for (auto& p : PARS) s[p] = c.val.at(p);
  return s;
}
// values in force: frozen entries keep the configured numbers
inline Vec eff(const Cfg& c, const State& s, const string& p) { Vec v = s.at(p); const auto& m = c.mask.at(p); for (size_t i = 0; i < v.size(); i++) if (!m[i]) v[i] = c.val.at(p)[i]; return v; }
inline Vec packed(const Cfg& c, const State& s, const string& p) { Vec r; const auto& m = c.mask.at(p); for (size_t i = 0; i < m.size(); i++) if (m[i]) r.push_back(s.at(p)[i]); return r; }
inline bool any(const vector<int>& m) { for (int x : m) if (x) return true; return false; }
inline string show(const State& s) { string o; for (auto& kv : s) o += kv.first + "=" + nums(kv.second) + " "; return o; }

template <class S> ref::Chain<S> chain(const Cfg& c, const State& s) {
  ref::Chain<S> r; r.n = c.n(); for (int i = 0; i < c.n(); i++) r.prism.push_back(c.isP(i));
  auto f = [](const Vec& a) { vector<S> b; for (double x : a) b.push_back(S(x)); return b; };
  r.dh = f(eff(c, s, "par_DHtable")); r.base = f(eff(c, s, "par_world2L0")); r.ee = f(eff(c, s, "par_Ln2EE")); r.grav = f(eff(c, s, "par_gravity")); r.dyn = f(eff(c, s, "par_DYN"));
  return r;
}
inline vector<ref::Jet> traj(const State& s, bool velocity) {  // q(t) (or dq(t)) as truncated Taylor series
  vector<ref::Jet> r; int n = (int)s.at("q").size();
  for (int i = 0; i < n; i++) {
    double d[5] = {s.at("q")[i], s.at("dq")[i], s.at("ddq")[i], s.at("d3q")[i], s.at("d4q")[i]};
    ref::Jet j; double f = 1; int o = velocity ? 1 : 0;
    for (int k = 0; k < ref::NT; k++) { if (k) f *= k; j.c[k] = d[k + o] / f; }
    r.push_back(j);
  }
  return r;
}

// ------------------------------------------------------------------ runner
struct Shared { std::atomic<long> next, states, transitions, traces, violations, extra[8]; std::atomic<int> stop; std::atomic<long> current[64]; };
struct Ctx {
  Shared* sh; int worker; string dir, name; FILE* vf; long idx; std::unordered_set<uint64_t> seen; long nviol = 0;
  static constexpr int MAXV = 4;
  void violation(const string& what, const string& detail) {
    sh->violations++; if (++nviol > MAXV) return;
    fprintf(vf, "{\"case\": %ld, \"name\": %s, \"what\": %s, \"detail\": %s}\n", idx, jstr(name).c_str(), jstr(what).c_str(), jstr(detail).c_str()); fflush(vf);
  }
  void transition(long k = 1) { sh->transitions += k; }
  void trace(long k = 1) { sh->traces += k; }
  void state() { sh->states++; }
  bool state_once(uint64_t h) { if (seen.insert(h).second) { sh->states++; return true; } return false; }
  string tmp(const string& f) { return dir + "/" + f; }
};
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }
inline uint64_t hash_state(const State& s, uint64_t h = 1469598103934665603ull) { for (auto& kv : s) { h = hash_bytes(kv.first.data(), kv.first.size(), h); h = hash_bytes(kv.second.data(), kv.second.size() * 8, h); } return h; }
inline uint64_t hash_str(const string& s) { return hash_bytes(s.data(), s.size()); }

struct Case { string name; std::function<void(Ctx&)> fn; };
struct Options { bool thorough = false; int jobs = 8; long only = -1; string out, dir; unsigned seed = 1; int limit = 300; };
inline Options& options() { static Options o; return o; }

inline int run(int argc, char** argv, std::function<vector<Case>(bool)> make) {
  Options& o = options();
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    if (a == "--thorough") { o.thorough = true; o.limit = 3000; }
    else if (a == "--jobs") o.jobs = atoi(argv[++i]);
    else if (a == "--case") o.only = atol(argv[++i]);
    else if (a == "--out") o.out = argv[++i];
    else if (a == "--dir") o.dir = argv[++i];
  }
  vector<Case> cases = make(o.thorough);
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (sh) Shared(); sh->next = 0; sh->states = 0; sh->transitions = 0; sh->traces = 0; sh->violations = 0; sh->stop = 0; for (auto& x : sh->extra) x = 0;
  long N = (long)cases.size();
  fflush(stdout); fflush(stderr);
  vector<pid_t> pids(o.jobs, 0);
  auto spawn = [&](int w) {
    pid_t p = fork();
    if (p) { pids[w] = p; return; }
    int null = open("/dev/null", O_WRONLY); dup2(null, 1); string lg = o.dir + "/worker" + std::to_string(w) + ".log"; int fd = open(lg.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); dup2(fd, 2);
    string d = o.dir + "/w" + std::to_string(w); mkdir(d.c_str(), 0755); if (chdir(d.c_str())) _exit(3);
    Ctx c; c.sh = sh; c.worker = w; c.dir = d; c.vf = fopen((o.dir + "/viol" + std::to_string(w)).c_str(), "a");
    for (;;) {
      long i = sh->next++; if (i >= N || sh->stop) break;
      if (o.only >= 0 && i != o.only) continue;
      c.idx = i; c.name = cases[i].name; c.seen.clear(); sh->current[w] = i; alarm(o.limit);
      struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
      try { cases[i].fn(c); }
      catch (const std::exception& e) { c.violation("exception", string("unexpected exception: ") + e.what()); }
      if (const char* tf = getenv("MC_TIMES")) { clock_gettime(CLOCK_MONOTONIC, &t1); if (FILE* f = fopen(tf, "a")) { fprintf(f, "%.3f %s\n", (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec), c.name.c_str()); fclose(f); } }
      if (c.nviol > Ctx::MAXV || sh->violations > 200) sh->stop = 1;
    }
    sh->current[w] = -1; fflush(nullptr); _exit(0);
  };
  for (int w = 0; w < o.jobs; w++) { sh->current[w] = -1; spawn(w); }
  vector<string> viol; int live = o.jobs, respawn = 0, infra = 0;
  while (live > 0) {
    int st; pid_t p = wait(&st); if (p < 0) break;
    int w = -1; for (int k = 0; k < o.jobs; k++) if (pids[k] == p) w = k; if (w < 0) continue;
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) {
      long i = sh->current[w];
      if (i >= 0 && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
        string log = slurp(o.dir + "/worker" + std::to_string(w) + ".log"); if (log.size() > 1500) log = log.substr(log.size() - 1500);
        string what = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang: no answer within the time limit" : "crash: signal " + std::to_string(WTERMSIG(st))) : "crash: exit " + std::to_string(WEXITSTATUS(st));
        viol.push_back("{\"case\": " + std::to_string(i) + ", \"name\": " + jstr(cases[i].name) + ", \"what\": " + jstr(what) + ", \"detail\": " + jstr(log) + "}");
        sh->violations++;
      } else infra = 1;
      if (++respawn < 20 && !sh->stop && sh->next < N) { sh->current[w] = -1; spawn(w); continue; }
    }
    live--;
  }
  for (int w = 0; w < o.jobs; w++) { std::ifstream f(o.dir + "/viol" + std::to_string(w)); string l; while (std::getline(f, l)) viol.push_back(l); }
  std::ofstream out(o.out);
  out << "{\"cases\": " << N << ", \"cases_run\": " << std::min<long>(N, sh->next) << ", \"stopped\": " << sh->stop << ", \"infra\": " << infra << ", \"states\": " << sh->states << ", \"transitions\": " << sh->transitions << ", \"traces\": " << sh->traces << ", \"violations_total\": " << sh->violations << ", \"extra\": [";
  for (int i = 0; i < 8; i++) out << (i ? ", " : "") << sh->extra[i];
  out << "], \"samples\": ["; for (long i = 0, k = 0; i < N && k < 6; i += std::max<long>(1, N / 6), k++) out << (k ? ", " : "") << jstr(cases[i].name);
  out << "], \"violations\": ["; for (size_t i = 0; i < viol.size(); i++) out << (i ? ",\n" : "") << viol[i]; out << "]}\n";
  return 0;
}
}  // namespace mc
