// C23: a robot built step by step.  Every sequence of the public stages (chain, Jacobians, mass matrix, ..., in any order,
// repeated, interleaved between two robots or continued on a copy) has the functions of those stages and of what they need,
// with the values, sizes and arguments robot_from_file gives; the numbers frozen are those in force when the symbols are fixed.
#include "model.hpp"
#include "userDefined.h"
using namespace mc; using namespace thunder_ns; using ref::Mat;
using std::set;

struct Stage { string name; std::function<int(Robot&)> run; std::function<bool(const Cfg&)> on; vector<string> needs; std::function<bool(const Cfg&, const string&)> owns; };
static bool pre(const string& f, const string& p) { return f.compare(0, p.size(), p) == 0; }
static bool digits(const string& s) { return !s.empty() && s.find_first_not_of("0123456789") == string::npos; }
static const vector<Stage>& stages() {
  auto all = [](const Cfg&) { return true; }; auto ela = [](const Cfg& c) { return c.elastic; }; auto fri = [](const Cfg& c) { return c.Dl_order > 0; };
  auto is = [](std::initializer_list<const char*> l) { set<string> s; for (auto x : l) s.insert(x); return [s](const Cfg&, const string& f) { return s.count(f) > 0; }; };
  auto none = [](const Cfg&, const string&) { return false; };
  static const vector<Stage> S = {
    {"compute_chain", compute_chain, all, {}, [](const Cfg&, const string& f) { return pre(f, "T_"); }},
    {"compute_jacobians", compute_jacobians, all, {"compute_chain"}, [](const Cfg&, const string& f) { return f == "J_ee" || (pre(f, "J_") && digits(f.substr(2))); }},
    {"compute_kin_adv", compute_kin_adv, all, {"compute_jacobians"}, is({"J_ee_dot", "J_ee_ddot", "J_ee_pinv"})},
    {"compute_MCG", compute_MCG, all, {"compute_chain"}, [](const Cfg&, const string& f) { return f == "M" || f == "C" || f == "C_std" || f == "G" || pre(f, "J_cm_"); }},
    {"compute_Dl", compute_Dl, fri, {}, [](const Cfg&, const string& f) { return f == "dl" || (pre(f, "Dl") && digits(f.substr(2))); }},
    {"compute_elastic", compute_elastic, ela, {}, [](const Cfg&, const string& f) { return f == "k" || f == "d" || f == "dm" || f == "Mm" || (pre(f, "Dm") && digits(f.substr(2))) || ((f[0] == 'K' || f[0] == 'D') && digits(f.substr(1))); }},
    {"compute_dyn_derivatives", compute_dyn_derivatives, all, {"compute_MCG"}, is({"M_dot", "M_ddot", "C_dot", "C_ddot", "G_dot", "G_ddot"})},
    {"compute_Yr", compute_Yr, all, {"compute_jacobians"}, is({"Yr", "reg_M", "reg_C", "reg_G"})},
    {"compute_reg_J", compute_reg_J, all, {"compute_jacobians"}, is({"reg_Jdq", "reg_JTw"})},
    {"compute_reg_Dl", compute_reg_Dl, fri, {"compute_Dl"}, is({"reg_dl"})},
    {"compute_reg_elastic", compute_reg_elastic, ela, {"compute_elastic"}, is({"reg_k", "reg_d", "reg_dm", "reg_Mm"})},
    {"compute_kinematics(false)", [](Robot& r) { return compute_kinematics(r, false); }, all, {"compute_jacobians"}, none},
    {"compute_kinematics", [](Robot& r) { return compute_kinematics(r); }, all, {"compute_kin_adv"}, none},
    {"compute_dynamics(false)", [](Robot& r) { return compute_dynamics(r, false); }, all, {"compute_MCG", "compute_Dl", "compute_elastic"}, none},
    {"compute_dynamics", [](Robot& r) { return compute_dynamics(r); }, all, {"compute_MCG", "compute_Dl", "compute_elastic", "compute_dyn_derivatives"}, none},
    {"compute_regressors", [](Robot& r) { return compute_regressors(r); }, all, {"compute_Yr", "compute_reg_J", "compute_reg_Dl", "compute_reg_elastic"}, none},
  };
  return S;
}
static int stage_no(const string& n) { for (size_t i = 0; i < stages().size(); i++) if (stages()[i].name == n) return (int)i; throw std::logic_error(n); }
static void closure(int i, set<int>& out) { if (!out.insert(i).second) return; for (auto& d : stages()[i].needs) closure(stage_no(d), out); }
static string word(const vector<int>& w) { string s; for (int i : w) s += (s.empty() ? "" : ", ") + stages()[i].name; return "[" + s + "]"; }

// where the configuration comes from
enum { FROM_FILE, FROM_PATH, FROM_YAML, NWAYS };
static std::shared_ptr<Robot> blank(Ctx& c, const Cfg& g, int way = FROM_FILE, const string& file = "cfg.yaml") {
  string f = c.tmp(file); spit(f, yaml(g)); std::shared_ptr<Robot> r;
  if (way == FROM_FILE) r = std::make_shared<Robot>(robot_from_file("rob", f, 0));
  else if (way == FROM_PATH) { r = std::make_shared<Robot>(f); r->load_conf_par(f); }
  else { r = std::make_shared<Robot>(YAML::LoadFile(f)); r->load_conf_par(f); }
  return r;
}
// functions of r (made by the stages in `run`) against the complete robot
static void compare(Ctx& c, Robot& r, const Cfg& g, Model& full, const set<int>& run, const string& what, int nstates, bool exact = false) {
  Model m; m.cfg = g; m.robot = std::shared_ptr<Robot>(&r, [](Robot*) {}); m.collect(); c.transition();
  auto bad = [&](const string& w, const string& d) { c.violation(w, d + "\nafter " + what + "\n" + yaml(g)); };
  for (auto& kv : m.fn) if (!full.has(kv.first)) { bad("extra function", "function " + kv.first + " does not exist in the robot of robot_from_file"); return; }
  for (auto& kv : full.fn) { const string& f = kv.first; bool own = false; for (int i : run) own = own || stages()[i].owns(g, f);
    if ((own || exact) && !m.has(f)) { bad(f + " missing", "function " + f + " does not exist"); return; }
    if (m.has(f) && m.fn[f].args != kv.second.args) { bad(f + " arguments", "function " + f + " has other arguments than in the robot of robot_from_file"); return; } }
  for (auto& p : PARS) if (g.size(p)) { Vec want; for (int i = 0; i < g.size(p); i++) if (g.mask.at(p)[i]) want.push_back(g.val.at(p)[i]); Eigen::VectorXd got = r.get_arg(p); Vec gv(got.data(), got.data() + got.size()); c.transition();
    if (gv != want) { bad("get_arg(" + p + ")", "get_arg(" + p + ") is " + nums(gv) + ", expected " + nums(want)); return; } }
  for (int k = 0; k < nstates; k++) { State s = base_state(g, k); c.state_once(hash_state(s, hash_str(what + yaml(g))));
    for (auto& kv : m.fn) { const string& f = kv.first; string why; Mat<double> want = full.eval(f, s), got; c.transition(2);
      try { got = m.eval(f, s); } catch (const std::exception& e) { bad(f + " arguments", e.what()); return; }
      if (!close(got, want, 1e-11, why)) { bad(f, f + ": " + why + " (robot_from_file)\nstate: " + show(s)); return; } } }
}
static void run_word(Ctx& c, const Cfg& g, Model& full, const vector<int>& w, int way, int nstates) {
  auto r = blank(c, g, way); r->init_symb_parameters(); set<int> ran;
  for (int i : w) { stages()[i].run(*r); c.transition(); closure(i, ran); }
  r->update_symb_parameters(); c.trace(); compare(c, *r, g, full, ran, word(w), nstates);
}
// two robots, their stages interleaved by the bits of `mix`
static void run_two(Ctx& c, const Cfg& a, const Cfg& b, Model& fa, Model& fb, const vector<int>& wa, const vector<int>& wb, unsigned mix, bool both_first) {
  auto ra = blank(c, a), rb = blank(c, b, FROM_FILE, "other.yaml"); set<int> da, db; size_t i = 0, j = 0;
  ra->init_symb_parameters(); if (both_first) rb->init_symb_parameters(); bool bi = both_first;
  while (i < wa.size() || j < wb.size()) { bool first = j >= wb.size() || (i < wa.size() && !(mix & 1)); mix >>= 1; c.transition();
    if (first) { stages()[wa[i]].run(*ra); closure(wa[i++], da); } else { if (!bi) { rb->init_symb_parameters(); bi = true; } stages()[wb[j]].run(*rb); closure(wb[j++], db); } }
  if (!bi) rb->init_symb_parameters();
  rb->update_symb_parameters(); compare(c, *rb, b, fb, db, word(wb) + " interleaved with " + word(wa) + " of another robot", 1);
  ra->update_symb_parameters(); compare(c, *ra, a, fa, da, word(wa) + " interleaved with " + word(wb) + " of another robot", 1); c.trace();
}
// a copy taken after the first `at` stages goes on with others
static void run_copy(Ctx& c, const Cfg& g, Model& full, const vector<int>& w, const vector<int>& v, size_t at) {
  auto r = blank(c, g); if (at != (size_t)-1) r->init_symb_parameters(); set<int> dr, dk; std::shared_ptr<Robot> k;
  if (at == (size_t)-1) { k = std::make_shared<Robot>(*r); k->init_symb_parameters(); r->init_symb_parameters(); at = 0; }
  for (size_t i = 0; i < w.size(); i++) { if (i == at && !k) { k = std::make_shared<Robot>(*r); dk = dr; } stages()[w[i]].run(*r); closure(w[i], dr); c.transition(); }
  if (!k) { k = std::make_shared<Robot>(*r); dk = dr; }
  for (int i : v) { stages()[i].run(*k); closure(i, dk); c.transition(); }
  r->update_symb_parameters(); compare(c, *r, g, full, dr, word(w) + " with a copy taken after " + std::to_string(at), 1);
  k->update_symb_parameters(); compare(c, *k, g, full, dk, "copy after " + std::to_string(at) + " of " + word(w) + ", then " + word(v), 1); c.trace();
}
// a copy (which shares the symbols) or a second robot of the same description, with other values in some groups; stages interleaved
static void run_twins(Ctx& c, const Cfg& a, Model& fa, const Cfg& b, Model& fb, const vector<string>& groups, bool copied, const vector<int>& wa, const vector<int>& wb, unsigned mix) {
  auto ra = blank(c, a); std::shared_ptr<Robot> rb; string done = copied ? "a copy" : "a second robot";
  if (copied) { rb = std::make_shared<Robot>(*ra); for (auto& p : groups) { Vec v = b.val.at(p); rb->set_arg(p, Eigen::Map<Eigen::VectorXd>(v.data(), v.size())); } } else rb = blank(c, b, FROM_FILE, "other.yaml");
  for (auto& p : groups) done += " with other " + p; size_t i = 0, j = 0; set<int> da, db; ra->init_symb_parameters(); rb->init_symb_parameters();
  while (i < wa.size() || j < wb.size()) { bool first = j >= wb.size() || (i < wa.size() && !(mix & 1)); mix >>= 1; c.transition(); if (first) { stages()[wa[i]].run(*ra); closure(wa[i++], da); } else { stages()[wb[j]].run(*rb); closure(wb[j++], db); } }
  ra->update_symb_parameters(); rb->update_symb_parameters(); compare(c, *rb, b, fb, db, word(wb) + " on " + done + ", interleaved with " + word(wa) + " on the first", 1); compare(c, *ra, a, fa, da, word(wa) + ", interleaved with " + word(wb) + " on " + done, 1); c.trace();
}
// values given before the symbols are fixed are the ones frozen
static void run_values(Ctx& c, const Cfg& g0, const vector<string>& groups, int how) {
  Cfg g = g0; auto r = blank(c, g0); string done;
  for (auto& p : groups) { int t = 31; for (auto& x : g.val[p]) x = x * 0.8 + gen(t++, 0.05, 0.3); }
  if (how == 0) for (auto& p : groups) { Vec v = g.val[p]; r->set_arg(p, Eigen::Map<Eigen::VectorXd>(v.data(), v.size())); done += "set_arg(" + p + "), "; }
  else { string f = c.tmp("second.yaml"); spit(f, yaml(g)); r->load_conf_par(f); done = "load_conf_par of other values, "; }
  c.transition(groups.size());
  r->init_symb_parameters(); compute_regressors(*r); compute_dynamics(*r); compute_kinematics(*r); r->update_symb_parameters(); c.trace();
  Model full = make_model(c, g, "rob"); set<int> d; for (auto n : {"compute_regressors", "compute_dynamics", "compute_kinematics"}) closure(stage_no(n), d);
  compare(c, *r, g, full, d, done + "then the symbols are fixed and everything is computed", 2, true);
}

static vector<Case> make(bool th) {
  vector<Case> cs; struct St { vector<string> t; int Dl, K, D, Dm; bool e; };
  vector<St> sts = {{{"R"}, 2, 0, 0, 0, false}, {{"P"}, 0, 0, 0, 0, false}, {{"R_SEA"}, 1, 2, 1, 2, true}, {{"R", "P"}, 1, 0, 0, 0, false}, {{"P", "R_SEA"}, 2, 1, 2, 1, true}, {{"R_SEA", "P_SEA"}, 0, 2, 2, 1, true}, {{"R", "P_SEA", "R"}, 1, 1, 1, 1, true}, {{"R", "R", "P", "R"}, 2, 0, 0, 0, false}};
  auto names = [](const vector<string>& v) { vector<int> r; for (auto& s : v) r.push_back(stage_no(s)); return r; };
  for (size_t si = 0; si < sts.size(); si++) { St t = sts[si];
    for (int mk = 0; mk < 4; mk++) {
      Cfg g = generic(t.t, (int)si, t.Dl, t.e, t.K, t.D, t.Dm); if (mk < 2) mask_all(g, mk); else mask_alt(g, mk);
      vector<int> on; for (size_t i = 0; i < stages().size(); i++) if (stages()[i].on(g)) on.push_back((int)i);
      int n = g.n(); string lab = "types " + g.typestr() + ", masks " + string(mk == 0 ? "frozen" : mk == 1 ? "symbolic" : mk == 2 ? "alternating" : "alternating the other way");
      size_t depth = n == 1 ? (mk == 2 || th ? 3 : 2) : n == 2 ? (th ? 3 : 2) : n == 3 ? 2 : (th ? 2 : 1);
      // sequences, grouped by their first stage
      for (int a : on) cs.push_back({lab + ", sequences starting with " + stages()[a].name, [=](Ctx& c) {
        Model full = make_model(c, g); int k = 0; vector<vector<int>> todo = {{a}};
        while (!todo.empty() && c.nviol <= Ctx::MAXV) { auto w = todo.back(); todo.pop_back(); run_word(c, g, full, w, k++ % NWAYS, (int)w.size() < 3 ? 2 : 1); if (w.size() < depth) for (int b : on) { auto v = w; v.push_back(b); todo.push_back(v); } } }});
      // the whole robot, in every order of its three parts and in many orders of its stages
      cs.push_back({lab + ", complete robots in other orders", [=](Ctx& c) {
        Model full = make_model(c, g); vector<int> big = names({"compute_kinematics", "compute_dynamics", "compute_regressors"}); std::sort(big.begin(), big.end()); set<int> d; for (int i : big) closure(i, d);
        auto complete = [&](const vector<int>& w, int way) { auto r = blank(c, g, way); r->init_symb_parameters(); for (int i : w) { stages()[i].run(*r); c.transition(); } r->update_symb_parameters(); c.trace(); compare(c, *r, g, full, d, word(w), 1, true); };
        int k = 0; do complete(big, k++ % NWAYS); while (std::next_permutation(big.begin(), big.end()));
        vector<int> fine; for (int i : on) if (i < 11) fine.push_back(i);
        if (n <= 3) for (size_t s = 0; s < fine.size(); s++) { auto w = fine; std::rotate(w.begin(), w.begin() + s, w.end()); complete(w, 0); std::reverse(w.begin(), w.end()); complete(w, 1); } }});
      // two robots, and copies
      if (n <= 2) cs.push_back({lab + ", interleaved with another robot", [=](Ctx& c) {
        Model full = make_model(c, g); Cfg h = generic({"P", "R_SEA"}, 7, 1, true, 1, 1, 2); mask_alt(h, mk + 1); Model fh = make_model(c, h, "rob");
        vector<vector<int>> ws = {names({"compute_chain", "compute_kin_adv", "compute_MCG"}), names({"compute_Yr", "compute_dynamics"}), names({"compute_dyn_derivatives", "compute_reg_J"}), names({"compute_regressors"})};
        for (size_t i = 0; i < ws.size(); i++) for (size_t j = 0; j < ws.size(); j++) { unsigned len = ws[i].size() + ws[j].size(); for (unsigned mix = 0; mix < (1u << len); mix++) { if ((unsigned)__builtin_popcount(mix) != ws[j].size()) continue; for (int f = 0; f < 2; f++) run_two(c, g, h, full, fh, ws[i], ws[j], mix, f); if (c.nviol > Ctx::MAXV) return; } } }});
      if (n <= 2) cs.push_back({lab + ", continued on a copy", [=](Ctx& c) {
        Model full = make_model(c, g); vector<vector<int>> ws = {names({"compute_chain", "compute_jacobians", "compute_kin_adv"}), names({"compute_MCG", "compute_dyn_derivatives"}), names({"compute_Yr", "compute_MCG"}), names({"compute_regressors", "compute_dynamics"}), {}};
        for (auto& w : ws) for (auto& v : ws) for (int at = -1; at <= (int)w.size(); at++) { run_copy(c, g, full, w, v, (size_t)at); if (c.nviol > Ctx::MAXV) return; } }});
      // twins
      if (n <= 2) cs.push_back({lab + ", a twin with other values", [=](Ctx& c) {
        Model full = make_model(c, g); vector<vector<string>> gs; vector<string> all; for (auto& p : PARS) if (g.size(p)) { gs.push_back({p}); all.push_back(p); } gs.push_back(all); if (mk % 2) gs = {all};
        vector<vector<int>> ws = {names({"compute_chain", "compute_jacobians", "compute_kin_adv"}), names({"compute_kin_adv"}), names({"compute_MCG", "compute_dyn_derivatives"}), names({"compute_Yr", "compute_reg_J"}), names({"compute_regressors"}), names({"compute_dynamics"})};
        for (auto& ps : gs) { Cfg h = g; for (auto& p : ps) { int t = 31; for (auto& x : h.val[p]) x = x * 0.8 + gen(t++, 0.05, 0.3); } Model fh = make_model(c, h, "rob");
          for (bool copied : {true, false}) for (size_t i = 0; i < ws.size(); i++) { unsigned len = 2 * ws[i].size(); for (unsigned mix = 0; mix < (1u << len); mix++) { if ((unsigned)__builtin_popcount(mix) != ws[i].size()) continue; run_twins(c, g, full, h, fh, ps, copied, ws[i], ws[i], mix); if (c.nviol > Ctx::MAXV) return; } } } }});
      // values
      cs.push_back({lab + ", values given before the symbols are fixed", [=](Ctx& c) {
        vector<string> ps; for (int how = 0; how < 2; how++) { ps.clear(); for (auto& p : PARS) if (g.size(p) && (!how || (pre(p, "par_D") && p != "par_DHtable") || p == "par_K" || p == "par_Mm")) ps.push_back(p);  // load_conf_par reads the dynamic parameters
          for (auto& p : ps) run_values(c, g, {p}, how); if (n < 3 || th) for (size_t i = 0; i < ps.size(); i++) for (size_t j = i + 1; j < ps.size(); j++) run_values(c, g, {ps[i], ps[j]}, how); run_values(c, g, ps, how); run_values(c, g, {}, how); if (c.nviol > Ctx::MAXV) return; } }});
    } }
  return cs;
}
int main(int argc, char** argv) { return run(argc, argv, make); }
