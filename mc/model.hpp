// The real in-process model (thunder_ns::Robot) seen as a function evaluator.
#pragma once
#include "common.hpp"
#include "robot.h"
#include "kinematics.h"
#include "dynamics.h"
#include "regressors.h"

namespace mc {
struct Fn { casadi::Function f; vector<string> args; int r = 0, c = 0; bool dense = true; Vec out; };
struct Model {
  Cfg cfg; std::shared_ptr<thunder_ns::Robot> robot; map<string, Fn> fn;
  void collect() {
    fn.clear();
    for (auto& o : robot->get_functions(false)) { Fn x; x.f = o.fun; x.args = o.args; x.r = o.fun.size1_out(0); x.c = o.fun.size2_out(0); x.dense = o.fun.sparsity_out(0).is_dense(); x.out.assign((size_t)x.r * x.c, 0.0); fn[o.name] = x; }
  }
  bool has(const string& n) const { return fn.count(n) > 0; }
  // value of function `name` in state s; arguments are the symbolic entries of parameters, in order
  ref::Mat<double> eval(const string& name, const State& s) {
    Fn& F = fn.at(name);
    vector<Vec> in; vector<const double*> a; in.reserve(F.args.size());
    for (size_t i = 0; i < F.args.size(); i++) {
      const string& p = F.args[i];
      if (cfg.mask.count(p)) in.push_back(packed(cfg, s, p)); else in.push_back(s.at(p));
      if ((int)in.back().size() != (int)F.f.nnz_in(i)) throw std::runtime_error("argument " + p + " of " + name + " has " + std::to_string(F.f.nnz_in(i)) + " entries, its symbolic entries are " + std::to_string(in.back().size()));
      if (in.back().empty()) in.back().push_back(0.0);
      a.push_back(in.back().data());
    }
    ref::Mat<double> m(F.r, F.c);
    if (F.dense) { vector<double*> r = {m.x.data()}; F.f(a, r); }
    else { vector<casadi::DM> dm; for (size_t i = 0; i < in.size(); i++) dm.push_back(casadi::DM(in[i])); auto v = casadi::DM::densify(F.f(dm)[0]); for (int j = 0; j < F.c; j++) for (int i = 0; i < F.r; i++) m(i, j) = (double)v(i, j); }
    return m;
  }
};
inline Model make_model(Ctx& c, const Cfg& cfg, const string& name = "rob", const string& extra = "") {
  string f = c.tmp("cfg.yaml"); spit(f, yaml(cfg, extra));
  Model m; m.cfg = cfg; m.robot = std::make_shared<thunder_ns::Robot>(thunder_ns::robot_from_file(name, f)); m.collect(); c.transition();
  return m;
}
// kinematics only (for long chains), through the same public steps robot_from_file takes
inline Model make_kin_model(Ctx& c, const Cfg& cfg, int level = 0) {
  string f = c.tmp("cfg.yaml"); spit(f, yaml(cfg));
  Model m; m.cfg = cfg; m.robot = std::make_shared<thunder_ns::Robot>(thunder_ns::robot_from_file("rob", f, 0));
  m.robot->init_symb_parameters(); thunder_ns::compute_kinematics(*m.robot, level > 0); if (level > 1) thunder_ns::compute_MCG(*m.robot);
  m.robot->update_symb_parameters(); m.collect(); c.transition();
  return m;
}
inline double maxabs(const Vec& v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
// compare; tolerance relative to the largest reference entry
inline bool close(const ref::Mat<double>& got, const ref::Mat<double>& want, double tol, string& why) {
  if (got.r != want.r || got.c != want.c) { why = "size " + std::to_string(got.r) + "x" + std::to_string(got.c) + " instead of " + std::to_string(want.r) + "x" + std::to_string(want.c); return false; }
  double t = tol * (1 + maxabs(want.x));
  for (int j = 0; j < got.c; j++) for (int i = 0; i < got.r; i++) if (!(std::fabs(got(i, j) - want(i, j)) <= t)) { why = "entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + num(got(i, j)) + ", expected " + num(want(i, j)); return false; }
  return true;
}
inline bool check_fn(Ctx& c, Model& m, const string& name, const State& s, const ref::Mat<double>& want, double tol) {
  if (!m.has(name)) { c.violation(name + " missing", "function " + name + " does not exist\n" + yaml(m.cfg)); return false; }
  auto got = m.eval(name, s); c.transition(); string why;
  if (!close(got, want, tol, why)) { c.violation(name, name + ": " + why + "\nstate: " + show(s) + "\nconfig:\n" + yaml(m.cfg)); return false; }
  return true;
}
}  // namespace mc
