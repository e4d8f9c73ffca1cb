// C13: the generated class computes what the model computes.
#define MC_WITH_MODEL
#include "genload.hpp"
#include "readcfg.hpp"
using namespace mc; using ref::Mat;

static vector<vector<string>> words(const vector<string>& al, int n) { vector<vector<string>> r = {{}}; for (int i = 0; i < n; i++) { vector<vector<string>> t; for (auto& w : r) for (auto& a : al) { auto x = w; x.push_back(a); t.push_back(x); } r = t; } return r; }
static const vector<string> A2 = {"R", "P"}, A4 = {"R", "P", "R_SEA", "P_SEA"};
static bool hasE(const vector<string>& t) { for (auto& x : t) if (x.size() > 1) return true; return false; }

static vector<GenSpec> specs(bool th) {
  vector<GenSpec> l; std::set<string> used;
  auto put = [&](const string& name, const Cfg& c, vector<string> flags = {}, const string& file = "", const string& extra = "") { if (used.insert(name).second) l.push_back({name, c, flags, {}, extra, file}); };
  int id = 0; auto fresh = [&] { return "g" + std::to_string(id++); };
  // joint words x mask modes
  for (auto& t : words(A4, 1)) for (int mode = 0; mode < 4; mode++) { Cfg c = generic(t, mode, mode % 3, hasE(t), 1 + mode % 2, mode % 3, (mode + 1) % 3); if (mode == 1) mask_all(c, 1); if (mode > 1) mask_alt(c, mode); put(fresh(), c); }
  for (auto& t : words(A4, 2)) for (int mode = 0; mode < 4; mode++) { if (!th && mode == 0 && hasE(t)) continue; Cfg c = generic(t, mode, 1 + mode % 2, hasE(t), 1 + mode % 2, mode % 3, 1); if (mode == 1) mask_all(c, 1); if (mode > 1) mask_alt(c, mode); if (!th && mode == 1 && hasE(t) && t[0] == t[1]) continue; put(fresh(), c); }
  for (auto& t : words(th ? A4 : A2, 3)) for (int mode : {0, 2}) { if (!th && mode == 0 && t[0] == "P") continue; Cfg c = generic(t, 3, 1, hasE(t), 1, 1, 1); if (mode) mask_alt(c, t[0] == "R"); put(fresh(), c); }
  for (auto& t : vector<vector<string>>{{"R", "P_SEA", "R_SEA"}, {"R_SEA", "R", "P_SEA"}}) { Cfg c = generic(t, 4, 3, true, 3, 4, 2); mask_alt(c, 1); put(fresh(), c); Cfg d = c; d.elastic = false; put(fresh(), generic(t, 4, 2)); }
  // one group with a pattern, the others frozen / symbolic / mixed
  for (auto& t : vector<vector<string>>{{"P", "R_SEA"}, {"R_SEA", "R"}}) { Cfg c = generic(t, 5, 2, true, 2, 2, 2); if (!th && t[0] != "P") continue;
    for (auto& p : PARS) for (int pat = 0; pat < 4; pat++) for (int others : {0, 1}) { int n = c.size(p); if (n < 2 && pat > 0) continue; if (!th && others && pat != 2 && pat != 1) continue; Cfg g = c; mask_all(g, others); auto& m = g.mask[p]; for (int i = 0; i < n; i++) m[i] = pat == 0 ? i == 0 : pat == 1 ? i == n - 1 : pat == 2 ? i != 0 : i != n / 2; put(fresh(), g); } }
  // whole rows and whole links frozen or symbolic next to others of which one entry is
  { int k = 0; for (auto& w : vector<vector<vector<int>>>{{{0}, {1, 0, 0, 0, 0}}, {{0}, {0, 0, 0, 1}}, {{1}, {0}}, {{0}, {1}}, {{1, 0, 0, 0, 0}, {0}}, {{0}, {0}, {1, 0, 0, 0, 0}}, {{1, 0, 0, 0, 0}, {0}, {0, 0, 0, 1}}, {{0, 1}, {1}, {0}}}) {
      vector<string> t; for (size_t i = 0; i < w.size(); i++) t.push_back(i == 1 ? "P" : "R_SEA"); Cfg c = generic(t, 3 + k, 2, true, 2, 2, 2); mask_all(c, 0);
      auto fill = [&](const string& q, int stride, const vector<vector<int>>& rows) { auto& m = c.mask[q]; for (int i = 0; i < (int)m.size(); i++) { auto& r = rows[i / stride % rows.size()]; m[i] = r[i % stride % r.size()]; } };
      auto back = w; std::reverse(back.begin(), back.end()); fill("par_DHtable", 4, w); fill("par_DYN", 10, back); fill("par_Dl", 2, w); fill("par_K", 2, back); fill("par_D", 2, w); fill("par_Dm", 2, back); fill("par_world2L0", 3, k % 2 ? w : back); fill("par_Ln2EE", 3, k % 2 ? back : w);
      put(fresh(), c); k++; } }
  // long chains
  { Cfg c = generic({"R", "P", "R", "R_SEA", "R"}, 6, 1, true, 1, 1, 1); mask_alt(c, 1); put(fresh(), c); }
  for (int n : {8, 11}) { if (n == 11 && !th) continue; vector<string> t; for (int i = 0; i < n; i++) t.push_back(i % 3 == 1 ? "P" : i == 4 ? "R_SEA" : "R"); Cfg c = generic(t, 9, 1, true, 1, 1, 1); mask_alt(c, 0); put("chain" + std::to_string(n), c); }
  if (th) for (auto& t : vector<vector<string>>{{"R", "R", "R", "R", "R", "R", "R"}, {"R", "P", "R", "P", "R_SEA", "R"}}) for (int mode : {0, 2}) { Cfg c = generic(t, 7, 1, hasE(t), 1, 1, 1); if (mode) mask_alt(c, 1); put(fresh(), c); }
  // names (given by -n or by the file), files in other directories, flags
  { Cfg c = generic({"R", "P"}, 8, 1); mask_alt(c, 0); Cfg e = generic({"P_SEA"}, 8, 1, true, 1, 1, 1); mask_alt(e, 1);
    for (string n : {"robot", "robot2", "myrobot", "robot_gen", "thunder", "thunder_robot", "conf", "gen", "q", "M", "R3_x", "a", "Robot", "aL", "yaml", "robotrobot", "x_robot_y"}) { put(n, n.size() % 2 ? c : e); }
    for (string n : {"named", "par_DYN", "with_robot_in"}) { put(n, c, {"-n", n}, "other.yaml"); }
    put("indir", c, {}, "sub/indir.yaml"); put("indir2", c, {"--name", "indir2"}, "./sub.d/some.thing.yaml"); put("flagsfirst", e, {"-f"}, ""); put("savef", c, {"-f"}); put("savelong", c, {"--casadifunc", "-n", "savelong"}, "zz.yaml"); put("savefe", e, {"-f", "-n", "savefe"}, "zz.yaml"); }
  // the robots shipped with the repository, as they are written there
  for (auto& s : shipped(th ? 8 : 5)) { GenSpec g{"ship_" + s.name, s.cfg, {}, {}, "", "ship_" + s.name + ".yaml"}; g.raw = slurp(s.file); if (used.insert(g.name).second) l.push_back(g); }
  return l;
}

static void run_case(Ctx& x, const GenSpec& sp, bool th) {
  const Cfg& c = sp.cfg; Model m = make_model(x, c, sp.name, sp.extra);
  auto bad = [&](const string& w, const string& d) { string fl; for (auto& f : sp.flags) fl += " " + f; x.violation(w, d + "\nrobot " + sp.name + fl + "\n" + yaml(c)); };
  GenHandle& h = gen_handle(sp.name); auto R = gen_make(sp.name); string conf = h.dir + "/" + sp.name + "_conf.yaml";
  { auto k = R->consts(); vector<int> w = {c.n(), c.elastic ? 1 : 0, c.ne(), c.elastic ? c.K_order : 0, c.elastic ? c.D_order : 0, c.Dl_order, c.elastic ? c.Dm_order : 0, 10 * c.n(), 10 * c.n(), c.n(), 10 * c.n(), 10 * c.n()}; for (int i = 0; i < c.n(); i++) w.push_back(c.isE(i)); if (k != w) bad("description constants", "got " + ints(k) + " expected " + ints(w)); }
  auto compare = [&](GenRobot& r, const State& s, const string& how) {
    uint64_t hs = hash_state(s, hash_str(sp.name + how)); if (!x.state_once(hs)) return;
    for (auto& f : m.fn) { Mat<double> want = m.eval(f.first, s), got = toM(r.get(f.first)); string why; x.transition(2); if (!close(got, want, 1e-11, why)) { bad(f.first, how + ": get_" + f.first + "(): " + why + "\nstate: " + show(s)); if (x.nviol > 2) return; } } };
  auto setvars = [&](GenRobot& r, const State& s) { for (auto& v : VARS) r.set(v, ev(s.at(v))); };
  auto setpars = [&](GenRobot& r, const State& s) { for (auto& p : PARS) { if (!c.size(p)) continue; bool kin = p == "par_DHtable" || p == "par_world2L0" || p == "par_Ln2EE" || p == "par_gravity"; r.set(p, ev(kin ? packed(c, s, p) : eff(c, s, p))); } };
  State s0 = base_state(c, 0);
  // zero variables right after loading
  R->load_conf(conf); x.trace(); { State z = s0; for (auto& v : VARS) for (auto& e : z[v]) e = 0; compare(*R, z, "after load_conf"); }
  for (int b = 0; b < 3; b++) { State s = base_state(c, b); setvars(*R, s); compare(*R, s, "after load_conf"); }
  // every single variable changed (frozen parameters as configured, symbolic ones as loaded)
  setvars(*R, s0); for (auto& v : VARS) for (int i = 0; i < var_size(c, v); i++) for (double a : {0.0, -1.7}) { State s = s0; s[v][i] = a; R->set(v, ev(s[v])); compare(*R, s, "after load_conf"); R->set(v, ev(s0[v])); }
  // other parameter values; each parameter entry alone
  State s1 = s0; { int t = 3; for (auto& p : PARS) for (auto& e : s1[p]) e = 0.8 * e + gen(t++, 0.1, 0.5); } setpars(*R, s1); compare(*R, s1, "after parameter setters");
  if (c.n() <= 2 || th) for (auto& p : PARS) for (int i = 0; i < c.size(p); i++) { if (!c.mask.at(p)[i]) continue; State s = s1; s[p][i] += 0.77; setpars(*R, s); compare(*R, s, "after parameter setters"); }
  setpars(*R, s1); { State s = s1; s["q"] = base_state(c, 1)["q"]; R->setArguments(ev(s["q"]), ev(s["dqr"]), ev(s["dq"]), ev(s["ddqr"])); std::swap(s["dq"], s["dqr"]); compare(*R, s, "after setArguments"); }
  // reloading goes back to the configured values; a second object behaves alike
  R->load_conf(conf); { State s = s0; s["q"] = base_state(c, 2)["q"]; setvars(*R, s); compare(*R, s, "after loading again"); auto R2 = gen_make(sp.name); R2->load_conf(conf); setvars(*R2, s1); State t = s0; for (auto& v : VARS) t[v] = s1[v]; compare(*R2, t, "second object"); compare(*R, s, "after using a second object"); }
  // without a configuration file, when each kinematic group is all or none symbolic
  { bool whole = true; for (auto& p : {"par_DHtable", "par_world2L0", "par_Ln2EE", "par_gravity"}) { bool a = false, n = false; for (int v : c.mask.at(p)) (v ? a : n) = true; if (a && n) whole = false; }
    if (whole) { auto N = gen_make(sp.name); setvars(*N, s1); for (auto& p : PARS) if (c.size(p) && any(c.mask.at(p))) N->set(p, ev(s1[p])); compare(*N, s1, "setters only"); } }
  // the saved functions
  for (auto& f : sp.flags) if (f == "-f" || f == "--casadifunc") for (auto& k : m.fn) {
    try { casadi::Function F = casadi::Function::load(h.dir + "/" + k.first + ".casadi"); Model m2 = m; m2.fn[k.first].f = F; for (const State& s : {s0, s1}) { string why; x.transition(2); if ((int)F.n_in() != (int)k.second.args.size() || !close(m2.eval(k.first, s), m.eval(k.first, s), 1e-11, why)) bad("saved " + k.first, "saved function: " + why); } }
    catch (const std::exception& e) { bad("saved " + k.first, e.what()); } }
}
static vector<Case> cases(bool th, const vector<GenSpec>& l) {
  vector<Case> cs; for (auto& sp : l) { string fl; for (auto& f : sp.flags) fl += " " + f; int sy = 0, tot = 0; for (auto& m : sp.cfg.mask) for (int v : m.second) { tot++; sy += v; } cs.push_back({"robot " + sp.name + fl + ": types " + sp.cfg.typestr() + (sp.cfg.elastic ? " elastic" : "") + ", " + std::to_string(sy) + " of " + std::to_string(tot) + " entries symbolic", [=](Ctx& x) { if (!gen_table().count(sp.name)) return; run_case(x, sp, th); }}); }
  return cs;
}
int main(int argc, char** argv) { return gen_main(argc, argv, specs, cases); }
