// C18: generation and model building do not depend on what the process did before; robots of one program stay apart.
#define MC_WITH_MODEL
#include "genload.hpp"
#include <dirent.h>
using namespace mc; using ref::Mat; namespace tn = thunder_ns;

// ------------------------------------------------------------------ sequences in one process
struct Base { string name; Cfg c; };
static const vector<Base>& bases() {
  static vector<Base> b = [] { vector<Base> r; { Cfg c = generic({"R"}, 0, 1); r.push_back({"aa", c}); } { Cfg c = generic({"P"}, 1); mask_all(c, 1); r.push_back({"bb", c}); } { Cfg c = generic({"R"}, 2, 1); mask_all(c, 1); r.push_back({"aa", c}); } { Cfg c = generic({"R_SEA"}, 3, 0, true, 1, 1, 1); mask_alt(c, 0); r.push_back({"cc", c}); } { Cfg c = generic({"R", "P"}, 4, 2); mask_alt(c, 1); r.push_back({"bb", c}); } return r; }();
  return b;
}
// recipe of a robot: its configuration and its own modifications (u: a user function, v: another one, o: overwriting it, s: values set)
struct Recipe { int k; string mods; bool operator<(const Recipe& o) const { return k != o.k ? k < o.k : mods < o.mods; } string key() const { return std::to_string(k) + mods; } };
typedef std::shared_ptr<tn::Robot> RP;
static void modify(tn::Robot& r, char m) {
  if (m == 'u') { auto q = r.model["q"]; r.add_function("usr", casadi::SX::sin(q(0)) * 3 + q(0) * q(0), {"q"}, "user function"); }
  if (m == 'v') { auto q = r.model["q"], dq = r.model["dq"]; r.add_function("usr2", casadi::SX::vertcat({dq(0) * q(0), casadi::SX::cos(dq(0))}), {"q", "dq"}, "second"); }
  if (m == 'o') { auto q = r.model["q"]; r.add_function("usr", q(0) - 7, {"q"}, "replaced", true); }
  if (m == 's') { Eigen::VectorXd q = r.get_arg("q"); for (int i = 0; i < q.size(); i++) q(i) = 0.3 + i; r.set_arg("q", q); Eigen::VectorXd d = r.get_arg("dq"); for (int i = 0; i < d.size(); i++) d(i) = -0.8 + i; r.set_arg("dq", d); }
}
static RP build(int k, const string& dir) { string f = dir + "/in" + std::to_string(k) + ".yaml"; spit(f, yaml(bases()[k].c)); return std::make_shared<tn::Robot>(tn::robot_from_file(bases()[k].name, f)); }
static map<string, string> files_of(const string& d) { map<string, string> r; DIR* p = opendir(d.c_str()); if (!p) return r; while (auto e = readdir(p)) { string n = e->d_name; if (n[0] == '.') continue; r[n] = slurp(d + "/" + n); } closedir(p); return r; }
static void clear(const string& d) { for (auto& f : files_of(d)) unlink((d + "/" + f.first).c_str()); }
static string values(tn::Robot& r) { std::ostringstream o; for (auto& f : r.get_functions(false)) { auto E = r.get(f.name); o << f.name << " " << E.rows() << "x" << E.cols(); for (int i = 0; i < E.size(); i++) o << " " << num(E(i)); for (auto& a : f.args) o << " " << a; o << "\n"; } return o.str(); }
// everything observable of a robot, written into directory d
static map<string, string> observe(tn::Robot& r, const string& name, const string& d) {
  clear(d); r.generate_library(d + "/", name + "_gen", true); r.save_conf(d + "/conf.yaml"); r.save_par_REG(d + "/reg.yaml"); spit(d + "/values", values(r)); return files_of(d);
}
static map<string, map<string, string>>& fresh() { static map<string, map<string, string>> f; return f; }
static vector<Recipe> recipes() { vector<Recipe> r; vector<string> m = {""}, all = {""}; for (int d = 0; d < 3; d++) { vector<string> n; for (auto& x : m) for (char c : string("uvos")) n.push_back(x + c); for (auto& x : n) all.push_back(x); m = n; } for (int k = 0; k < 5; k++) for (auto& x : all) { if (x.size() > 2 && !options().thorough) continue; r.push_back({k, x}); } return r; }
static void make_fresh(const string& dir) {
  auto R = recipes(); fflush(nullptr); int J = 8; size_t i = 0; int live = 0, st;
  while (i < R.size() || live) { if (i < R.size() && live < J) { const Recipe& x = R[i++]; if (!fork()) { int null = open("/dev/null", O_WRONLY); dup2(null, 1); dup2(null, 2); string d = dir + "/fresh-" + x.key(); mkdir(d.c_str(), 0755); mkdir((d + "/w").c_str(), 0755); try { RP r = build(x.k, d + "/w"); for (char m : x.mods) modify(*r, m); mkdir((d + "/o").c_str(), 0755); observe(*r, bases()[x.k].name, d + "/o"); } catch (...) { _exit(1); } _exit(0); } live++; } else { if (wait(&st) < 0) break; live--; } }
  for (auto& x : R) fresh()[x.key()] = files_of(dir + "/fresh-" + x.key() + "/o");
}
static string differ(const map<string, string>& a, const map<string, string>& b) { for (auto& x : b) if (!a.count(x.first)) return "file " + x.first + " is missing"; for (auto& x : a) { if (!b.count(x.first)) return "file " + x.first + " is unexpected"; if (x.second != b.at(x.first)) { size_t i = 0; auto &p = x.second, &q = b.at(x.first); while (i < p.size() && i < q.size() && p[i] == q[i]) i++; size_t s = i < 60 ? 0 : i - 60; return x.first + " differs at byte " + std::to_string(i) + ":\n  " + p.substr(s, 160) + "\ninstead of\n  " + q.substr(s, 160); } } return ""; }
struct Step { char op; int a; };  // B build a; M apply modification "uvos"[a] to the last robot; N the same to the first; G generate the first; C copy the last robot; D drop the first
static string show(const vector<Step>& s) { string r; for (auto& x : s) r += (r.empty() ? "" : " ") + (x.op == 'B' ? "build" + std::to_string(x.a) : x.op == 'M' ? string("last:") + "uvos"[x.a] : x.op == 'N' ? string("first:") + "uvos"[x.a] : x.op == 'G' ? "generate-first" : x.op == 'C' ? "copy-last" : "drop-first"); return r; }
static void run_seq(Ctx& x, const vector<Step>& s) {
  vector<std::pair<Recipe, RP>> live; string d = x.tmp("obs"); mkdir(d.c_str(), 0755); x.trace();
  for (auto& t : s) { x.transition();
    if (t.op == 'B') live.push_back({{t.a, ""}, build(t.a, x.dir)});
    else if (t.op == 'G') { clear(d); live.front().second->generate_library(d + "/", bases()[live.front().first.k].name + "_gen", false); }
    else if (t.op == 'C') live.push_back({live.back().first, std::make_shared<tn::Robot>(*live.back().second)});
    else if (t.op == 'D') live.erase(live.begin());
    else { auto& r = t.op == 'M' ? live.back() : live.front(); modify(*r.second, "uvos"[t.a]); r.first.mods += "uvos"[t.a]; } }
  string how = show(s);
  for (size_t i = 0; i < live.size(); i++) { const Recipe& r = live[i].first; if (!fresh().count(r.key())) continue; x.state(); x.transition(); string w = differ(observe(*live[i].second, bases()[r.k].name, d), fresh()[r.key()]); if (!w.empty()) { x.violation("in one process", "after: " + how + "\nrobot number " + std::to_string(i + 1) + " (configuration " + std::to_string(r.k) + ", own modifications '" + r.mods + "'): " + w); return; } }
}
static void enumerate(vector<Step>& s, int built, int live, int depth, const std::function<void()>& f) {
  f(); if (!depth) return; auto go = [&](Step t, int b, int l) { s.push_back(t); enumerate(s, b, l, depth - 1, f); s.pop_back(); };
  if (live < 3) for (int k = 0; k < 5; k++) go({'B', k}, built + 1, live + 1);
  if (live) { for (int m = 0; m < 4; m++) { go({'M', m}, built, live); if (live > 1) go({'N', m}, built, live); } go({'G', 0}, built, live); if (live < 3) go({'C', 0}, built, live + 1); if (live > 1) go({'D', 0}, built, live - 1); }
}

// ------------------------------------------------------------------ several generated robots in one program
static vector<GenSpec> specs(bool th) {
  vector<GenSpec> l; auto put = [&](const string& n, Cfg c, int mode) { if (mode == 1) mask_all(c, 1); if (mode > 1) mask_alt(c, mode); l.push_back({n, c, {}, {}, "", ""}); };
  put("r", generic({"R"}, 0, 2), 1); put("r_reg", generic({"R"}, 1, 1), 0); put("r_T", generic({"P"}, 2), 2); put("rr", generic({"R"}, 0, 2), 1); put("R", generic({"P_SEA"}, 3, 1, true, 2, 1, 1), 1); put("robot", generic({"R", "P"}, 4), 0); put("robot_gen", generic({"P"}, 5), 3); put("M", generic({"R_SEA"}, 6, 1, true, 1, 2, 1), 2); put("r_d", generic({"R"}, 7), 0);
  // names that differ in one place only, or by a repetition: nothing of a robot may depend on a part of its name
  { string b = th ? "abcdefghijklmnop" : "abcdefghijkl"; int k = 20; put(b, generic({"R"}, k++), 0); for (size_t i = 0; i < b.size(); i += th ? 1 : 2) { string n = b; n[i] = 'z'; put(n, generic({"R"}, k++), 1 + i % 3); } put(b + b, generic({"P"}, k++), 1); put(b.substr(0, 6), generic({"P"}, k++), 1); put(b.substr(6), generic({"P"}, k++), 2); put("r1", generic({"R"}, k++), 1); put("r10", generic({"R"}, k++), 1); put("thunder_rr", generic({"P"}, k++), 1); put("rr_gen_rr", generic({"R"}, k++), 1); }
  if (th) { put("r_reg_reg", generic({"P", "R"}, 8, 1), 2); put("thunder_r", generic({"R"}, 9), 1); put("T_0", generic({"R", "R"}, 10), 0); put("r_J", generic({"P_SEA", "R"}, 11, 1, true, 1, 1, 1), 2); }
  return l;
}
static void pair_case(Ctx& x, const vector<GenSpec>& l, size_t i) {
  vector<Model> m; vector<State> s0, s1; for (auto& g : l) { m.push_back(make_model(x, g.cfg, g.name)); s0.push_back(base_state(g.cfg, 0)); s1.push_back(base_state(g.cfg, 1)); }
  auto conf = [&](size_t k) { return gen_handle(l[k].name).dir + "/" + l[k].name + "_conf.yaml"; }; auto setv = [&](GenRobot& r, const State& s) { for (auto& v : VARS) r.set(v, ev(s.at(v))); };
  auto cmp = [&](GenRobot& r, size_t k, const State& s, const string& how) { x.state(); for (auto& f : m[k].fn) { string why; x.transition(); if (!close(toM(r.get(f.first)), m[k].eval(f.first, s), 1e-9, why)) { x.violation("several robots in one program", "robot " + l[k].name + ", " + how + ": get_" + f.first + ": " + why); return; } } auto c = r.consts(); if (c[0] != l[k].cfg.n() || c[2] != l[k].cfg.ne()) x.violation("several robots in one program", "constants of " + l[k].name + ", " + how); };
  for (size_t j = 0; j < l.size(); j++) { x.trace(); string how = "with robot " + l[j].name; auto A = gen_make(l[i].name), B = gen_make(l[j].name);
    A->load_conf(conf(i)); setv(*A, s0[i]); B->load_conf(conf(j)); setv(*B, s1[j]); cmp(*A, i, s0[i], how); cmp(*B, j, s1[j], how + " (second)"); setv(*B, s0[j]); cmp(*A, i, s0[i], how); setv(*A, s1[i]); cmp(*B, j, s0[j], how + " (second)"); cmp(*A, i, s1[i], how); B.reset(); cmp(*A, i, s1[i], how); if (x.nviol) return; }
}
static vector<Case> cases(bool th, const vector<GenSpec>& l) {
  vector<Case> cs; int D = th ? 4 : 3; auto all = std::make_shared<vector<vector<Step>>>();
  { vector<Step> s; enumerate(s, 0, 0, D, [&] { if (!s.empty()) all->push_back(s); }); }
  // longer histories of builds: every order of three of the five configurations, then a generation of the first
  size_t chunk = th ? 60 : 12; for (size_t o = 0; o < all->size(); o += chunk) cs.push_back({"sequences in one process from: " + show((*all)[o]), [=](Ctx& x) { for (size_t k = o; k < std::min(all->size(), o + chunk) && x.nviol <= Ctx::MAXV; k++) run_seq(x, (*all)[k]); }});
  for (size_t i = 0; i < l.size(); i++) cs.push_back({"robot " + l[i].name + " with every other robot in one program", [=](Ctx& x) { if (gen_table().size() < l.size()) return; pair_case(x, l, i); }});
  return cs;
}
int main(int argc, char** argv) {
  string dir; for (int i = 1; i + 1 < argc; i++) if (string(argv[i]) == "--dir") dir = argv[i + 1];
  bool emit = false; for (int i = 1; i < argc; i++) { if (string(argv[i]) == "--emit") emit = true; if (string(argv[i]) == "--thorough") options().thorough = true; }
  if (!emit) make_fresh(dir);
  return gen_main(argc, argv, specs, cases);
}
