// C20: user-defined functions, added while the robot is created, afterwards, and in generated code.
#define MC_WITH_MODEL
#include "genload.hpp"
#include "c20user.hpp"
#include <numeric>
#include <algorithm>
using namespace mc; using ref::Mat; using thunder_ns::Robot; typedef std::shared_ptr<Robot> RP;

static string user_yaml(const vector<UF>& l) { string s = "mc_user:\n"; for (auto& u : l) { string d; for (char c : u.text()) { if (c == '\n') d += "\\n"; else { if (c == '"' || c == '\\') d += '\\'; d += c; } } s += "  - \"" + d + "\"\n"; } return s; }
static vector<string> argnames(const Cfg& c) { vector<string> r; for (auto& v : VARS) if (c.elastic || (v[0] != 'x' && v != "dx" && v != "ddx" && v != "ddxr")) r.push_back(v); for (auto& p : PARS) if (c.size(p)) r.push_back(p); r.push_back("par_REG"); return r; }
static Vec to_reg_(const Vec& d) { Vec r; for (size_t k = 0; k + 10 <= d.size(); k += 10) { double m = d[k], x = d[k + 1], y = d[k + 2], z = d[k + 3]; r.insert(r.end(), {m, m * x, m * y, m * z, d[k + 4] + m * (y * y + z * z), d[k + 5] - m * x * y, d[k + 6] - m * x * z, d[k + 7] + m * (x * x + z * z), d[k + 8] - m * y * z, d[k + 9] + m * (x * x + y * y)}); } return r; }

struct RW {  // a robot with user functions; reference values
  Ctx& x; Cfg c; Model base; RP r; map<string, std::pair<UF, bool>> user;  // bool: defined during creation
  RW(Ctx& x_, const Cfg& cc) : x(x_), c(cc), base(make_model(x_, cc)) {}
  void create(const vector<UF>& during) { string f = x.tmp("u.yaml"); spit(f, yaml(c, during.empty() ? "" : user_yaml(during))); r = std::make_shared<Robot>(thunder_ns::robot_from_file("rob", f)); x.trace(); for (auto& u : during) model_add(u, true); }
  int model_add(const UF& u, bool during) { if (!u.ow && (base.has(u.name) || user.count(u.name))) return 0; user[u.name] = {u, during}; return 1; }
  State initial() { State s = base_state(c, 0); for (auto& v : VARS) for (auto& e : s[v]) e = 0; s["par_REG"] = to_reg_(c.val.at("par_DYN")); return s; }
  State other(int k) { State s = base_state(c, k); int t = 5 * k; for (auto& p : PARS) for (auto& e : s[p]) e = 0.9 * e + gen(t++, 0.05, 0.3); Vec g; for (int i = 0; i < 10 * c.n(); i++) g.push_back(gen(t++, -1, 2)); s["par_REG"] = g; return s; }
  void set(Robot& R, const State& s, const string& only = "") { for (auto& a : argnames(c)) { if (!only.empty() && a != only) continue; Vec v = c.mask.count(a) ? packed(c, s, a) : s.at(a); R.set_arg(a, Eigen::Map<Eigen::VectorXd>(v.data(), v.size())); } }
  Mat<double> want(const string& f, const State& s) { auto it = user.find(f); if (it == user.end()) return base.eval(f, s); return uf_value(it->second.first, c, s, it->second.second, [&](const string& g, int k) { auto m = base.eval(g, s); return m.x[0], m(k % m.r, k / m.r); }); }
  bool check(Robot& R, const State& s, const string& how, bool all) {
    x.state(); vector<string> names; for (auto& u : user) names.push_back(u.first); if (all) for (auto& f : base.fn) if (!user.count(f.first)) names.push_back(f.first);
    for (auto& f : names) { string why; x.transition(); Mat<double> got, w = want(f, s); try { auto E = R.get(f); got = toM(E); } catch (const std::exception& e) { x.violation("get(" + f + ") throws", how + ": " + e.what() + "\n" + desc(f) + yaml(c)); return false; } if (!close(got, w, 1e-9, why)) { x.violation(user.count(f) ? "user function" : "existing function " + f, how + ": get(" + f + "): " + why + "\n" + desc(f) + "state: " + show(s) + "\n" + yaml(c)); return false; } }
    return true;
  }
  string desc(const string& f) { return user.count(f) ? "defined as " + user[f].first.text() + (user[f].second ? " during creation\n" : " afterwards\n") : ""; }
  bool list(Robot& R, const string& how) {
    map<string, thunder_ns::fun_obj> l; for (auto& f : R.get_functions(false)) l[f.name] = f; x.transition();
    for (auto& f : base.fn) { if (!l.count(f.first)) { x.violation("function list", how + ": " + f.first + " is gone"); return false; } if (!user.count(f.first) && (l[f.first].args != f.second.args || l[f.first].out_size != vector<int>{f.second.r, f.second.c})) { x.violation("function list", how + ": " + f.first + " has other arguments or size"); return false; } }
    for (auto& u : user) { if (!l.count(u.first)) { x.violation("function list", how + ": " + u.first + " is missing"); return false; } auto& o = l[u.first]; const UF& f = u.second.first; if (o.out_size != vector<int>{f.r, f.c} || o.description != f.descr || (f.kind != 4 && o.args != f.args)) { x.violation("function list", how + ": " + u.first + " has wrong arguments, size or description"); return false; } }
    for (auto& f : l) if (!base.has(f.first) && !user.count(f.first)) { x.violation("function list", how + ": unexpected " + f.first); return false; } return true;
  }
};
// functions over the given argument lists, added during / after creation, in one robot
static void batch(Ctx& x, const Cfg& c, const vector<UF>& l, int mode) {  // mode 0 during, 1 after, 2 half and half
  RW w(x, c); vector<UF> d, a; for (size_t i = 0; i < l.size(); i++) (mode == 0 || (mode == 2 && i % 2) ? d : a).push_back(l[i]);
  w.create(d); auto m = masks_of(*w.r); string how = mode == 0 ? "added during creation" : mode == 1 ? "added afterwards" : "added during and after creation";
  for (auto& u : a) { x.transition(); int rc = 0; try { rc = uf_add(*w.r, u, m, false); } catch (const std::exception& e) { x.violation("add_function throws", u.text() + ": " + e.what() + "\n" + yaml(c)); return; } if (rc != w.model_add(u, false)) x.violation("add_function result", u.text() + " returned " + std::to_string(rc)); }
  if (!w.list(*w.r, how)) return; State s0 = w.initial(); if (!w.check(*w.r, s0, how + ", initial values", true)) return;
  State s1 = w.other(1); w.set(*w.r, s1); if (!w.check(*w.r, s1, how + ", all values set", true)) return;
  State s = s1, s2 = w.other(2); for (auto& arg : argnames(c)) { s[arg] = s2[arg]; w.set(*w.r, s, arg); if (!w.check(*w.r, s, how + ", " + arg + " changed", false)) return; }
}
static vector<UF> over(const vector<vector<string>>& lists, int shape0) { vector<UF> r; int k = 0; static const int sh[][2] = {{1, 1}, {3, 1}, {2, 2}, {1, 4}, {3, 2}, {6, 1}, {1, 1}, {2, 5}}; for (auto& a : lists) { UF u; u.name = "usr" + std::to_string(k); u.args = a; u.r = sh[(k + shape0) % 8][0]; u.c = sh[(k + shape0) % 8][1]; u.kind = k % 3; if (u.kind == 1 && u.r * u.c == 1) u.kind = 2; static const char* ds[] = {"function ", "", "Function's value, ", "", "x", " two words, "}; u.descr = ds[(k + k / 6 + shape0) % 6]; if (!u.descr.empty() && k % 4) u.descr += std::to_string(k); r.push_back(u); k++; } return r; }

// lists of m arguments in several orders: sorted both ways, rotations, strides
static vector<vector<string>> long_lists(const vector<string>& A, bool th) {
  vector<vector<string>> L; size_t n = A.size(); for (size_t m = 3; m <= n; m++) { if (!th && m > 7 && m != n && m % 3) continue; for (size_t o = 0; o < (th ? n : 3); o++) { vector<string> l; size_t st = 1; for (size_t k : {5, 7, 3, 1}) if (std::gcd(k + o % 2, n) == 1) { st = k + o % 2; break; } for (size_t i = 0; i < m; i++) l.push_back(A[(o * 4 + i * st) % n]); auto add = [&](vector<string> v) { for (int t = 0; t < 2; t++) L.push_back(v); }; add(l); auto s = l; std::sort(s.begin(), s.end()); add(s); std::reverse(s.begin(), s.end()); L.push_back(s); std::rotate(l.begin(), l.begin() + m / 2, l.end()); L.push_back(l); } } return L;
}
static Cfg conf(int k) {
  Cfg c; if (k == 0) { c = generic({"R", "P_SEA"}, 1, 1, true, 2, 1, 1); mask_alt(c, 0); } else if (k == 1) { c = generic({"R", "P_SEA"}, 2, 1, true, 2, 1, 1); mask_all(c, 1); } else if (k == 2) { c = generic({"P", "R"}, 3, 2); mask_all(c, 0); } else if (k == 3) { c = generic({"R"}, 4, 1); mask_alt(c, 1); } else if (k == 4) { c = generic({"P_SEA"}, 5, 1, true, 1, 2, 2); mask_alt(c, 0); } else if (k == 5) { c = generic({"R"}, 6, 0); mask_all(c, 0); } else { c = generic({"R_SEA", "P"}, 7, 2, true, 1, 1, 1); mask_alt(c, 1); }
  return c;
}
// ------------------------------------------------------------------ sequences of additions
struct Op { string text; UF u; int kind; };  // kind 0 add, 1 set an argument, 2 copy and go on with the copy, 3 get
static vector<Op> ops(const Cfg& c) {
  vector<Op> o; auto add = [&](const string& n, vector<string> a, int r, int cc, int kind, int ow) { UF u; u.name = n; u.args = a; u.r = r; u.c = cc; u.kind = kind; u.ow = ow; u.descr = n + std::to_string(r); o.push_back({"add " + u.text(), u, 0}); };
  string p = any(c.mask.at("par_DYN")) ? "par_DYN" : "par_gravity"; for (int ow : {0, 1}) { add("f", {"q"}, 1, 1, 0, ow); add("f", {"dq", p}, 2, 2, 0, ow); add("M", {"q", "w"}, 3, 1, 0, ow); } add("g", {p, "q"}, 2, 1, 1, 1); add("g", {"dq", "q"}, 2, 1, 4, 0); add("h", {}, 2, 3, 3, 1);
  o.push_back({"set q", UF(), 1}); o.push_back({"copy", UF(), 2});
  // additions that cannot succeed: a variable that is no argument, the same argument twice, a model function as argument, a name no function can have, the name of a variable
  auto fail = [&](const string& why, const string& n, vector<string> a, int ow) { UF u; u.name = n; u.args = a; u.r = 2; u.c = 1; u.kind = 0; u.ow = ow; u.descr = "does not work"; o.push_back({"failing add (" + why + ") " + u.text(), u, 3}); };
  for (int ow : {0, 1}) { fail("free variable", "f", {"dqr"}, ow); fail("duplicate argument", "M", {"w", "w"}, ow); } fail("free variable", "M", {"dqr", p}, 1); fail("function as argument", "g", {"q", "T_0_ee"}, 1); fail("bad name", "a b", {"q"}, 1); fail("free variable", "q", {"dq"}, 1); return o;
}
static void seqs(Ctx& x, const Cfg& c, const vector<UF>& during, int depth, size_t first) {
  RW w0(x, c); w0.create(during); auto A = ops(c); auto m = masks_of(*w0.r);
  std::function<void(RW, State, int, string)> go = [&](RW w, State s, int d, string how) {
    if (x.nviol > Ctx::MAXV) return; for (size_t k = 0; k < A.size(); k++) { if (how.empty() && k != first) continue;
      const Op& o = A[k]; RW n = w; n.r = std::make_shared<Robot>(*w.r); State t = s; string h = how + "; " + o.text; x.transition(); x.trace();
      if (o.kind == 0) { // functions that use M see the current one
        if (o.u.kind == 4 && n.user.count("M")) continue; int rc = uf_add(*n.r, o.u, m, false), want = n.model_add(o.u, false); if (rc != want) { x.violation("add_function result", h + ": returned " + std::to_string(rc)); continue; } }
      else if (o.kind == 3) { int rc = 0; bool threw = false; auto before = n.r->model; casadi::SX e = n.r->model["ddqr"](0) * casadi::SX::ones(2, 1); try { rc = n.r->add_function(o.u.name, e, o.u.args, o.u.descr, o.u.ow != 0); } catch (const std::exception&) { threw = true; }
        if (!threw && rc) { x.violation("failing addition accepted", h + ": returned " + std::to_string(rc) + "\n" + yaml(c)); continue; } if (n.r->model.size() != before.size()) { x.violation("failing addition", h + ": leaves another model entry behind\n" + yaml(c)); continue; } for (auto& b : before) { const casadi::SX& g = n.r->model[b.first]; if (g.size() != b.second.size() || (g.numel() && !casadi::SX::is_equal(g, b.second, 0))) { x.violation("failing addition", h + ": replaces the model entry " + b.first + "\n" + yaml(c)); break; } } }
      else if (o.kind == 1) { for (auto& e : t["q"]) e += 0.37; n.set(*n.r, t, "q"); } else if (o.kind == 2) { RP keep = n.r; n.r = std::make_shared<Robot>(*keep); }
      if (!n.list(*n.r, h) || !n.check(*n.r, t, h, d <= 1)) continue; if (d > 1) { go(n, t, d - 1, h); if (!w.check(*w.r, s, how + "; (original after a copy went through" + o.text + ")", false)) return; } } };
  go(w0, w0.initial(), depth, "");
}

// ------------------------------------------------------------------ generated
static vector<UF> gen_functions(const Cfg& c, int k) {
  vector<vector<string>> L; auto A = argnames(c); size_t n = A.size(); for (size_t i = 0; i < n; i++) L.push_back({A[i]}); for (size_t i = 0; i < n; i++) L.push_back({A[(i * 5 + k) % n], A[(i * 7 + 3 + k) % n == (i * 5 + k) % n ? (i * 7 + 4 + k) % n : (i * 7 + 3 + k) % n]}); { auto X = long_lists(A, false); for (size_t i = k; i < X.size(); i += 5) L.push_back(X[i]); } for (int t = 0; t < 2; t++) { L.push_back(A); auto B = A; std::reverse(B.begin(), B.end()); L.push_back(B); } L.push_back({});
  auto r = over(L, k); for (auto& u : r) if (u.args.empty()) u.kind = 3; static const string LONG = "distance_of_the_end_effector_from_the_table_in_the_frame_of_the_"; static const vector<string> nm = {"f", "q2", "robot_thing", "M2", "get_x", "T", "reg", "Yr2", "conf", "dist_q0", LONG + "left", LONG + "right", LONG + LONG + LONG + LONG + "last", "ff", "f_fun", "F", "get_f", "f2", "f20", "double", "T_0_ee_2", "M_fun", "aB_C9z", "ug0", "ug2_get_q"}; for (size_t i = 0; i < nm.size() && i + 1 < r.size(); i++) r[i].name = nm[i]; r[1].descr = "has \"quotes\", a back\\slash and robot"; r[2].descr = "two\nlines"; r[3].descr = ""; r[4].descr = "comment */ end /* start // and %s"; 
  UF u; u.name = "M"; u.args = {"q", "dq"}; u.r = 2; u.c = 3; u.kind = 0; u.descr = "replaces M"; r.push_back(u); u = UF(); u.name = "usem"; u.args = {"dqr"}; u.kind = 4; u.r = 2; u.c = 2; if (k % 2) { r.pop_back(); r.push_back(u); } u = UF(); u.name = "zeros"; u.args = {"q"}; u.kind = 6; u.r = 3; u.c = 2; r.push_back(u); return r;
}
static vector<GenSpec> specs(bool th) { vector<GenSpec> l; vector<int> ks = {0, 2, 3, 4}; if (th) ks = {0, 1, 2, 3, 4, 5, 6}; for (int k : ks) { Cfg c = conf(k); l.push_back({"ug" + std::to_string(k), c, {}, {}, user_yaml(gen_functions(c, k)), ""}); } l.push_back({"uex", conf(2), {}, {}, "mc_example: 1\nq0: [0.3, -0.7]\n", ""}); return l; }
static void gen_case(Ctx& x, const GenSpec& sp, int k) {
  if (!gen_table().count(sp.name)) return; const Cfg& c = sp.cfg; RW w(x, c); bool ex = sp.name == "uex"; vector<UF> l; if (!ex) l = gen_functions(c, k); for (auto& u : l) w.model_add(u, true);
  auto R = gen_make(sp.name); R->load_conf(gen_handle(sp.name).dir + "/" + sp.name + "_conf.yaml"); x.trace();
  auto set = [&](const State& s) { for (auto& v : VARS) R->set(v, ev(s.at(v))); for (auto& p : PARS) { if (!c.size(p)) continue; bool kin = p == "par_DHtable" || p == "par_world2L0" || p == "par_Ln2EE" || p == "par_gravity"; R->set(p, ev(kin ? packed(c, s, p) : eff(c, s, p)), false); } R->set("par_REG", ev(s.at("par_REG")), false); };
  State s0 = w.initial(), s1 = w.other(1), s2 = w.other(2);
  auto check = [&](const State& s, const string& how) { x.state(); vector<string> names; for (auto& u : w.user) names.push_back(u.first); for (auto& f : w.base.fn) if (!w.user.count(f.first)) names.push_back(f.first); if (ex) names.push_back("q0_dist");
    for (auto& f : names) { string why; x.transition(); Mat<double> want; if (f == "q0_dist") { want = Mat<double>(1, 1); want(0, 0) = std::hypot(s.at("q")[0] - 0.3, s.at("q")[1] + 0.7); } else want = w.want(f, s); if (!close(toM(R->get(f)), want, 1e-9, why)) { x.violation(w.user.count(f) ? "generated user function" : "generated function " + f, how + ": get_" + f + "(): " + why + "\n" + w.desc(f) + "state: " + show(s) + "\n" + yaml(c)); if (x.nviol > 2) return; } } };
  for (auto& v : VARS) s0[v] = s1[v]; for (auto& v : VARS) R->set(v, ev(s0.at(v))); check(s0, "after load_conf"); set(s1); check(s1, "all values set"); State s = s1; for (auto& a : argnames(c)) { s[a] = s2[a]; set(s); check(s, a + " changed"); if (x.nviol) return; }
}

static vector<Case> cases(bool th, const vector<GenSpec>& sp) {
  vector<Case> cs;
  for (int k = 0; k < 7; k++) {
    Cfg c = conf(k); auto A = argnames(c); string t = "types " + c.typestr() + " configuration " + std::to_string(k) + ": ";
    vector<vector<string>> L; L.push_back({}); for (auto& a : A) L.push_back({a}); for (auto& a : A) for (auto& b : A) if (a != b && (th || k < 3 || hash_str(a + b + std::to_string(k)) % 3 == 0)) L.push_back({a, b});
    if (k == 0 || k == 3 || th) { vector<string> T = {"q", "par_DYN", "dqr", "par_gravity", "par_DHtable", "w"}; if (c.elastic) { T[2] = "x"; T[5] = "par_K"; } for (auto& a : T) for (auto& b : T) for (auto& d : T) if (a != b && b != d && a != d) L.push_back({a, b, d}); }
    for (auto& l : long_lists(A, th)) L.push_back(l); L.push_back(A); { auto B = A; std::reverse(B.begin(), B.end()); L.push_back(B); }
    auto U = over(L, k); for (auto& u : U) if (u.args.empty()) u.kind = 3; size_t chunk = 120;
    for (size_t o = 0; o < U.size(); o += chunk) for (int mode : {0, 1, 2}) { if (mode == 2 && !th && (o / chunk + k) % 2) continue; vector<UF> l(U.begin() + o, U.begin() + std::min(U.size(), o + chunk)); cs.push_back({t + "argument lists from " + l[0].text() + " mode " + std::to_string(mode), [=](Ctx& x) { batch(x, c, l, mode); }}); }
    // shapes and kinds
    vector<UF> S; int id = 0; for (int r : {1, 2, 3, 4, 7}) for (int cc : {1, 2, 3, 6}) for (int kind = 0; kind < 7; kind++) { UF u; u.name = "s" + std::to_string(id++); u.args = {A[id % A.size()], A[(id * 3 + 1) % A.size()] == A[id % A.size()] ? A[(id + 1) % A.size()] : A[(id * 3 + 1) % A.size()]}; u.r = r; u.c = cc; u.kind = kind; S.push_back(u); }
    for (int mode : {0, 1, 2}) { if (!th && mode != k % 3 && k > 1) continue; cs.push_back({t + "shapes and kinds, mode " + std::to_string(mode), [=](Ctx& x) { batch(x, c, S, mode); }}); }
    // sequences with and without overwriting
    if (k != 1) { size_t nops = ops(c).size(); for (int d : {0, 1}) for (size_t f = 0; f < nops; f++) { if (!th && k > 3 && d) continue; vector<UF> dur; if (d) { UF u; u.name = "f"; u.args = {"q", "par_gravity"}; u.r = 2; u.c = 1; u.descr = "first"; dur.push_back(u); u.name = "h"; u.args = {"w"}; dur.push_back(u); } int depth = th && c.n() == 1 ? 4 : c.n() == 1 || th ? 3 : 2; cs.push_back({t + "sequences starting with " + ops(c)[f].text + (d ? ", functions defined during creation" : ""), [=](Ctx& x) { seqs(x, c, dur, depth, f); }}); } }
    // the example function, with and without its value in the configuration
    cs.push_back({t + "example function", [=](Ctx& x) {
      for (int v = 0; v < 3; v++) { Model b = make_model(x, c); string f = x.tmp("e.yaml"); Vec q0; for (int i = 0; i < c.n(); i++) q0.push_back(gen(i + 3 * v, -1, 1)); spit(f, yaml(c, "mc_example: 1\n" + (v ? "q0: " + nums(q0) + "\n" : string()))); RP r = std::make_shared<Robot>(thunder_ns::robot_from_file("rob", f)); x.state(); x.trace(); bool has = false; for (auto& g : r->get_functions()) if (g.name == "q0_dist") has = true; if (has != (v > 0)) { x.violation("example function", has ? "exists without q0" : "missing"); return; }
        if (r->get_functions().size() != b.fn.size() + (v > 0)) x.violation("example function", "changes the other functions"); for (int k = 0; k < 3 && v; k++) { Vec q; for (int i = 0; i < c.n(); i++) q.push_back(gen(7 * k + i, -2, 2)); if (k == 2) q = q0; r->set_q(ev(q)); double d = 0; for (size_t i = 0; i < q.size(); i++) d += (q[i] - q0[i]) * (q[i] - q0[i]); x.transition(); auto E = r->get("q0_dist"); if (E.size() != 1 || std::fabs(E(0) - std::sqrt(d)) > 1e-12) x.violation("example function", "value " + num(E(0)) + " instead of " + num(std::sqrt(d))); } } }});
  }
  for (size_t i = 0; i < sp.size(); i++) { int k = sp[i].name == "uex" ? 2 : sp[i].name[2] - '0'; cs.push_back({"generated robot " + sp[i].name + " with user functions", [=](Ctx& x) { gen_case(x, sp[i], k); }}); }
  return cs;
}
int main(int argc, char** argv) { return gen_main(argc, argv, specs, cases); }
