// C12: whichever entries are symbolic, every function has the value the all-symbolic robot has at the same
// parameter values; argument lists, packing of get_arg, and frozen entries keeping the configured numbers.
#include "model.hpp"
#include "patterns.hpp"
using namespace mc; using ref::Mat;

static const map<string, vector<string>> PREG = {{"reg_dl", {"par_Dl"}}, {"reg_k", {"par_K"}}, {"reg_d", {"par_D"}}, {"reg_dm", {"par_Dm"}}, {"reg_Mm", {"par_Mm"}}, {"reg_Jdq", {"par_DHtable", "par_world2L0", "par_Ln2EE"}}, {"reg_JTw", {"par_DHtable", "par_world2L0", "par_Ln2EE"}}};

static State full_state(const Cfg& c, int k) {  // k=0: configured values; otherwise every entry of every parameter differs from them
  State s = base_state(c, k);
  if (k) { int t = 13 * k; for (auto& p : PARS) for (auto& x : s[p]) x = x * (p == "par_DYN" ? 1.3 : 0.7) + gen(t++, 0.05, 0.4); }
  return s;
}
// only one number differs from zero (or from a plain one): its contribution is seen however small it is
static void check_alone(Ctx& c, const Cfg& g, Model& all, bool geometry) {
  Model m = make_model(c, g); c.trace(); State s = base_state(g, 1); for (auto& x : s["q"]) x = 0; State e = s; for (auto& p : PARS) e[p] = eff(g, s, p);
  if (!c.state_once(hash_state(e, hash_str(yaml(g))))) return;
  for (auto& kv : m.fn) { const string& f = kv.first; if (PREG.count(f) || !all.has(f)) continue; Mat<double> want = all.eval(f, e), got = m.eval(f, s); c.transition(2); double mx = maxabs(want.x);
    for (int i = 0; i < want.r; i++) for (int j = 0; j < want.c; j++) if (!(std::fabs(got(i, j) - want(i, j)) <= 1e-9 * (geometry ? std::fabs(want(i, j)) : mx) + 1e-200)) { c.violation(f + " alone", f + ": entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + num(got(i, j)) + ", expected " + num(want(i, j)) + " (every entry symbolic)\n" + yaml(g)); return; } }
}
static bool same(const Mat<double>& a, const Mat<double>& b, double tol, string& why) { return close(a, b, tol, why); }

// checks one mask against the all-symbolic model `all`
static void check_mask(Ctx& c, const Cfg& g, Model& all, int nstates, int kin = -1) {
  Model m = kin < 0 ? make_model(c, g) : make_kin_model(c, g, kin); c.trace();
  auto bad = [&](const string& w, const string& d) { c.violation(w, d + "\n" + yaml(g)); };
  // functions and argument lists
  for (auto& kv : all.fn) {
    const string& f = kv.first; bool want = true;
    if (PREG.count(f)) { want = false; for (auto& p : PREG.at(f)) if (any(g.mask.at(p))) want = true; }
    if (m.has(f) != want) { bad(f + (want ? " missing" : " unexpected"), "function " + f); return; }
    if (!want) continue;
    for (size_t i = 0; i < m.fn.at(f).args.size(); i++) {
      const string& p = m.fn.at(f).args[i]; if (!g.mask.count(p)) continue;
      if (!any(g.mask.at(p))) bad(f + " has argument " + p, "no entry of " + p + " is symbolic");
    }
  }
  for (auto& kv : m.fn) if (!all.has(kv.first)) bad(kv.first + " unexpected", "function " + kv.first + " does not exist with every entry symbolic");
  // configured values of the arguments
  State s0 = full_state(g, 0);
  for (auto& p : PARS) {
    if (!g.size(p)) continue; Vec want = packed(g, s0, p); c.transition();
    Eigen::VectorXd got = m.robot->get_arg(p); bool ok = (size_t)got.size() == want.size(); for (size_t i = 0; ok && i < want.size(); i++) ok = got((int)i) == want[i];
    if (!ok) { Vec gv(got.data(), got.data() + got.size()); bad("get_arg(" + p + ")", "get_arg(" + p + ") is " + nums(gv) + ", the symbolic entries of the configuration are " + nums(want)); return; }
  }
  for (int k = 0; k < nstates; k++) {
    State s = full_state(g, k); State e = s; for (auto& p : PARS) e[p] = eff(g, s, p);
    if (!c.state_once(hash_state(e, hash_str(yaml(g)) + k))) continue;
    if (c.nviol > Ctx::MAXV) return;
    for (auto& kv : m.fn) {
      const string& f = kv.first; if (!all.has(f)) continue; Mat<double> want = all.eval(f, e), got; string why; c.transition(2);
      if (PREG.count(f)) { vector<int> cols; int o = 0; for (auto& p : PREG.at(f)) { for (int i = 0; i < g.size(p); i++) if (g.mask.at(p)[i]) cols.push_back(o + i); o += g.size(p); }
        Mat<double> w(want.r, (int)cols.size()); for (int i = 0; i < want.r; i++) for (size_t j = 0; j < cols.size(); j++) w(i, (int)j) = want(i, cols[j]); want = w; }
      try { got = m.eval(f, s); } catch (const std::exception& x) { bad(f + " arguments", x.what()); return; }
      if (!same(got, want, 1e-11, why)) { bad(f, f + ": " + why + " (every entry symbolic)\nstate: " + show(s)); if (c.nviol > 2) return; }
    }
  }
}
// the same through Robot::set_arg / Robot::get
static void check_get(Ctx& c, const Cfg& g, Model& all) {
  Model m = make_model(c, g); auto& r = *m.robot;
  for (int k = 0; k < 2; k++) {
    State s = full_state(g, k), e = s; for (auto& p : PARS) e[p] = eff(g, s, p);
    for (auto& v : VARS) { if (!var_size(g, v) || (!g.elastic && (v[0] == 'x' || v == "dx" || v == "ddx" || v == "ddxr"))) continue; Eigen::VectorXd x = Eigen::Map<Eigen::VectorXd>(s[v].data(), s[v].size()); r.set_arg(v, x); }
    for (auto& p : PARS) if (any(g.mask.at(p))) { Vec v = packed(g, s, p); r.set_arg(p, Eigen::Map<Eigen::VectorXd>(v.data(), v.size())); }
    c.state_once(hash_state(e, 77 + hash_str(yaml(g)) + k));
    for (auto& kv : m.fn) { const string& f = kv.first; if (PREG.count(f) || !all.has(f)) continue; Mat<double> want = all.eval(f, e); auto E = r.get(f); Mat<double> got((int)E.rows(), (int)E.cols()); for (int i = 0; i < got.r; i++) for (int j = 0; j < got.c; j++) got(i, j) = E(i, j); string why; c.transition(2);
      if (!close(got, want, 1e-11, why)) c.violation("get(" + f + ")", f + ": " + why + "\nstate: " + show(s) + "\n" + yaml(g)); }
  }
}

static vector<Case> make(bool th) {
  vector<Case> cs;
  // a block of masks over one configuration
  auto block = [&](const Cfg& c0, const string& label, std::shared_ptr<vector<Cfg>> l, int ns, bool viaget) {
    size_t chunk = c0.n() == 1 ? 64 : c0.n() == 2 ? 24 : 8;
    for (size_t o = 0; o < l->size(); o += chunk) cs.push_back({"types " + c0.typestr() + (c0.elastic ? " elastic" : "") + ", " + label + ", block " + std::to_string(o / chunk), [=](Ctx& x) {
      Cfg a = c0; mask_all(a, 1); Model all = make_model(x, a);
      for (size_t k = o; k < std::min(l->size(), o + chunk) && x.nviol <= Ctx::MAXV; k++) { check_mask(x, (*l)[k], all, ns); if (viaget && k % 8 == 0) check_get(x, (*l)[k], all); } }});
  };
  auto L = [] { return std::make_shared<vector<Cfg>>(); };
  struct St { vector<string> t; int Dl, K, D, Dm; bool e; };
  // one joint: every mask of every group, the others frozen / symbolic
  for (auto& t : vector<St>{{{"R"}, 2, 0, 0, 0, false}, {{"P_SEA"}, 1, 2, 2, 2, true}, {{"R_SEA"}, 3, 1, 3, 2, true}, {{"P"}, 2, 0, 0, 0, false}}) {
    Cfg c = generic(t.t, 1, t.Dl, t.e, t.K, t.D, t.Dm);
    for (int others : {0, 1}) for (auto& p : PARS) { int sz = c.size(p); if (!sz) continue; auto l = L(); Cfg b = c; mask_all(b, others); for (int mk = 0; mk < (1 << sz); mk++) { Cfg g = b; for (int i = 0; i < sz; i++) g.mask[p][i] = mk >> i & 1; l->push_back(g); } block(c, "all masks of " + p + (others ? " (others symbolic)" : " (others frozen)"), l, 3, true); }
  }
  // numbers that look like noise, or like other numbers, frozen next to symbolic entries
  for (auto& t : vector<St>{{{"R", "P_SEA"}, 2, 2, 2, 2, true}, {{"P", "R_SEA"}, 1, 1, 1, 1, true}}) { Cfg c = generic(t.t, 2, t.Dl, t.e, t.K, t.D, t.Dm);
    for (int others : {0, 1, 2}) { auto l = L(); for (auto& p : PARS) for (int i = 0; i < c.size(p); i++) for (double a : special_numbers()) { Cfg g = c; if (others == 2) mask_alt(g, i); else mask_all(g, others); g.val[p][i] = a; g.mask[p][i] = 0; l->push_back(g); } block(c, string("special frozen numbers, others ") + (others == 2 ? "mixed" : others ? "symbolic" : "frozen"), l, 1, false); }
    cs.push_back({"types " + c.typestr() + ", a single tiny frozen number", [=](Ctx& x) {
      Cfg z = c; mask_all(z, 1); for (auto& p : PARS) for (auto& v : z.val[p]) v = 0; Model all = make_model(x, z);
      for (auto& p : PARS) { bool geo = p == "par_DHtable" || p == "par_world2L0" || p == "par_Ln2EE"; for (int i = 0; i < z.size(p); i++) for (double a : {1e-5, -3e-9, 2e-13, 1e-16, -5e-20, 1e-60}) for (int others : {0, 1}) { if (geo && std::fabs(a) < 1e-14) continue;  // sines below 1e-15 are zero by design
        Cfg g = z; mask_all(g, others); if (!geo) { for (int k = 0; k < g.n(); k++) { g.val["par_DHtable"][4 * k] = 1; g.val["par_DHtable"][4 * k + 2] = 2; } if (p != "par_DYN") g.val["par_DYN"] = c.val.at("par_DYN"); else g.val["par_gravity"] = {1, -2, 3}; }
        g.val[p][i] = a; g.mask[p][i] = 0; check_alone(x, g, all, geo); if (x.nviol > Ctx::MAXV) return; } } }}); }
  // special relations between the entries of a parameter, and between parameters
  for (auto& t : vector<St>{{{"R"}, 1, 0, 0, 0, false}, {{"R", "R"}, 1, 0, 0, 0, false}, {{"R_SEA", "P_SEA"}, 2, 2, 2, 2, true}, {{"P", "R"}, 0, 0, 0, 0, false}}) { Cfg c = generic(t.t, 5, t.Dl, t.e, t.K, t.D, t.Dm); auto l = L(); *l = patterns(c, PARS, th, th); block(c, "patterns", l, 1, false); }
  auto entries = [](const Cfg& c) { vector<std::pair<string, int>> e; for (auto& p : PARS) for (int i = 0; i < c.size(p); i++) e.push_back({p, i}); return e; };
  auto singles = [&](const Cfg& c, bool get) { auto l = L(); for (auto& e : entries(c)) { Cfg g = c; mask_all(g, 0); g.mask[e.first][e.second] = 1; l->push_back(g); mask_all(g, 1); g.mask[e.first][e.second] = 0; l->push_back(g); } for (int ph = 0; ph < 2; ph++) { Cfg g = c; mask_alt(g, ph); l->push_back(g); } { Cfg g = c; mask_all(g, 0); l->push_back(g); } block(c, "single entries and complements", l, 2, get); };
  auto pairs = [&](const Cfg& c) { auto l = L(); auto e = entries(c); for (size_t i = 0; i < e.size(); i++) for (size_t j = i + 1; j < e.size(); j++) { Cfg g = c; mask_all(g, 0); g.mask[e[i].first][e[i].second] = 1; g.mask[e[j].first][e[j].second] = 1; l->push_back(g); } block(c, "pairs of entries", l, 2, false); };
  auto groups = [&](const Cfg& c) { auto l = L(); vector<string> on; for (auto& p : PARS) if (c.size(p)) on.push_back(p); for (int mk = 0; mk < (1 << on.size()); mk++) { Cfg g = c; mask_all(g, 0); int k = 0; for (size_t i = 0; i < on.size(); i++) if (mk >> i & 1) for (auto& x : g.mask[on[i]]) x = (k++ % 3) != 1; l->push_back(g); } block(c, "subsets of groups", l, 2, true); };
  for (auto& t : vector<St>{{{"R", "P"}, 1, 0, 0, 0, false}, {{"P", "R_SEA"}, 1, 2, 1, 1, true}}) { Cfg c = generic(t.t, 2, t.Dl, t.e, t.K, t.D, t.Dm); singles(c, true); pairs(c); groups(c); }
  for (auto& t : vector<St>{{{"R_SEA", "R", "P_SEA"}, 2, 2, 2, 2, true}, {{"R", "P", "R"}, 1, 0, 0, 0, false}}) { Cfg c = generic(t.t, 3, t.Dl, t.e, t.K, t.D, t.Dm); singles(c, false); }
  { Cfg c = generic({"R", "R", "P", "R_SEA"}, 4, 1, true, 1, 1, 1); singles(c, false); }
  // long chains: parameters of many entries of which one, the first or last ones, or every other one are symbolic
  for (auto& t : vector<std::pair<vector<string>, int>>{{vector<string>(9, "R"), 0}, {{"R", "P", "R", "R", "P", "R", "R", "P", "R", "R", "R", "P", "R", "R", "P", "R", "R"}, 0}, {{"R", "P", "R", "R", "P", "R", "R"}, 2}}) for (auto& p : t.second ? vector<string>{"par_DYN", "par_DHtable"} : vector<string>{"par_DHtable"}) {
    Cfg c = generic(t.first, 6); int sz = c.size(p); auto l = L(); mask_all(c, 0);
    for (int i = 0; i < sz; i++) { Cfg g = c; g.mask[p][i] = 1; l->push_back(g); if (t.second && !th) continue; g = c; for (int k = i; k < sz; k++) g.mask[p][k] = 1; l->push_back(g); g = c; for (int k = 0; k <= i; k++) g.mask[p][k] = 1; l->push_back(g); }
    for (int o = 0; o < sz; o += 12) cs.push_back({"types " + c.typestr() + ", few symbolic entries of " + p + ", block " + std::to_string(o / 12), [=](Ctx& x) { Cfg a = c; mask_all(a, 1); Model all = make_kin_model(x, a, t.second); for (size_t k = o; k < l->size() && x.nviol <= Ctx::MAXV; k++) if ((int)(k % sz) >= o && (int)(k % sz) < o + 12) check_mask(x, (*l)[k], all, 1, t.second); }}); }
  if (th) {
    for (auto& t : vector<St>{{{"R", "R", "P", "R_SEA"}, 1, 1, 1, 1, true}, {{"P", "R", "R", "P"}, 2, 0, 0, 0, false}}) { Cfg c = generic(t.t, 4, t.Dl, t.e, t.K, t.D, t.Dm); singles(c, false); }
    for (auto& t : vector<St>{{{"R", "R"}, 0, 0, 0, 0, false}, {{"R_SEA", "P"}, 0, 1, 1, 1, true}}) { Cfg c = generic(t.t, 2, t.Dl, t.e, t.K, t.D, t.Dm); for (int link : {0, 1}) { auto l = L(); for (int mk = 0; mk < 1024; mk++) { Cfg g = c; mask_all(g, 0); for (int i = 0; i < 10; i++) g.mask["par_DYN"][10 * link + i] = mk >> i & 1; l->push_back(g); } block(c, "all inertial masks of link " + std::to_string(link + 1), l, 2, false); } }
    for (auto& t : vector<St>{{{"R", "R_SEA", "P"}, 1, 1, 1, 1, true}}) { Cfg c = generic(t.t, 3, t.Dl, t.e, t.K, t.D, t.Dm); pairs(c); }
    { Cfg c = generic({"R"}, 2); auto l = L(); for (int mk = 0; mk < (1 << 13); mk++) { Cfg g = c; mask_all(g, 0); int b = 0; for (auto& p : {"par_DHtable", "par_gravity", "par_world2L0"}) for (auto& x : g.mask[p]) x = mk >> b++ & 1; l->push_back(g); } block(c, "joint masks of DH, gravity, base", l, 2, false); }
  }
  return cs;
}
int main(int argc, char** argv) { return run(argc, argv, make); }
