// C01..C08, C10, C11: every function of the model equals the reference on every state of a
// deviation-bounded neighbourhood of generic and degenerate configurations.
#include <eigen3/Eigen/Dense>
#include "model.hpp"
#include "patterns.hpp"
using namespace mc; using ref::Mat;

static string PROP;
static const double PI = 3.14159265358979323846;

// ---------------------------------------------------------------- checkers
static Mat<double> toMat(const ref::M4<double>& T) { Mat<double> m(4, 4); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m(i, j) = T.a[i][j]; return m; }
static Mat<double> coef(const Mat<ref::Jet>& J, int k) { Mat<double> m(J.r, J.c); double f = 1; for (int i = 2; i <= k; i++) f *= i; for (size_t i = 0; i < m.x.size(); i++) m.x[i] = J.x[i].c[k] * f; return m; }
static Mat<double> mul(const Mat<double>& a, const Mat<double>& b) { Mat<double> r(a.r, b.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < b.c; j++) { double s = 0; for (int k = 0; k < a.c; k++) s += a(i, k) * b(k, j); r(i, j) = s; } return r; }
static Mat<double> trn(const Mat<double>& a) { Mat<double> r(a.c, a.r); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) r(j, i) = a(i, j); return r; }
static Mat<double> colv(const Vec& v) { Mat<double> r((int)v.size(), 1); r.x = v; return r; }

static void chk01(Ctx& c, Model& m, const State& s) {
  int n = m.cfg.n(); auto ch = chain<double>(m.cfg, s); auto T = ref::frames(ch, s.at("q"));
  check_fn(c, m, "T_0", s, toMat(T[0]), 2e-12);
  for (int i = 0; i < n; i++) check_fn(c, m, "T_" + std::to_string(i + 1), s, toMat(ref::rel(ch, s.at("q"), i)), 2e-12);
  for (int i = 0; i <= n + 1; i++) {
    string f = "T_0_" + std::to_string(i);
    if (!check_fn(c, m, f, s, toMat(T[i]), 1e-11)) continue;
    auto g = m.eval(f, s); double e = 0;  // rigid: R'R = I, last row 0 0 0 1, det +1
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { double d = a == b ? -1 : 0; for (int k = 0; k < 3; k++) d += g(k, a) * g(k, b); e = std::max(e, std::fabs(d)); }
    for (int b = 0; b < 4; b++) e = std::max(e, std::fabs(g(3, b) - (b == 3)));
    double det = g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1)) - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0)) + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0));
    if (!(e < 1e-10) || !(std::fabs(det - 1) < 1e-10)) c.violation(f + " rigid", f + " is not a rigid transform\nstate: " + show(s) + "\n" + yaml(m.cfg));
  }
  check_fn(c, m, "T_0_ee", s, toMat(T[n + 1]), 1e-11);
}
static void chk02(Ctx& c, Model& m, const State& s) {
  int n = m.cfg.n(); auto ch = chain<double>(m.cfg, s);
  vector<std::pair<int, ref::V3<double>>> pts;
  for (int i = 0; i < n; i++) pts.push_back({i + 1, ref::zero3<double>()});
  pts.push_back({n + 1, ref::zero3<double>()});
  bool dyn = m.has("M");
  if (dyn) for (int i = 0; i < n; i++) pts.push_back({i + 1, {{ch.dyn[10 * i + 1], ch.dyn[10 * i + 2], ch.dyn[10 * i + 3]}}});
  auto J = ref::jacobians<double>(ch, s.at("q"), pts);
  for (int i = 0; i <= n; i++) check_fn(c, m, "J_" + std::to_string(i + 1), s, J[i], 1e-11);
  check_fn(c, m, "J_ee", s, J[n], 1e-11);
  if (dyn) for (int i = 0; i < n; i++) check_fn(c, m, "J_cm_" + std::to_string(i + 1), s, J[n + 1 + i], 1e-11);
}
static void chk03(Ctx& c, Model& m, const State& s) {
  auto cj = chain<ref::Jet>(m.cfg, s); auto J = ref::jac_ee(cj, traj(s, false));
  check_fn(c, m, "J_ee_dot", s, coef(J, 1), 1e-10);
  check_fn(c, m, "J_ee_ddot", s, coef(J, 2), 1e-10);
  auto J0 = coef(J, 0); int n = m.cfg.n();
  Eigen::MatrixXd E(6, n); for (int i = 0; i < 6; i++) for (int j = 0; j < n; j++) E(i, j) = J0(i, j);
  Eigen::MatrixXd A = E * E.transpose() + 0.02 * Eigen::MatrixXd::Identity(6, 6);
  Eigen::MatrixXd P = A.ldlt().solve(E).transpose();
  Mat<double> p(n, 6); for (int i = 0; i < n; i++) for (int j = 0; j < 6; j++) p(i, j) = P(i, j);
  check_fn(c, m, "J_ee_pinv", s, p, 1e-8);
}
static void chk04(Ctx& c, Model& m, const State& s) {
  int n = m.cfg.n(); auto ch = chain<double>(m.cfg, s); auto M = ref::massM(ch, s.at("q"));
  if (!check_fn(c, m, "M", s, M, 1e-10)) return;
  auto g = m.eval("M", s); Eigen::MatrixXd E(n, n); bool ok = true;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { E(i, j) = g(i, j); if (!(std::fabs(g(i, j) - g(j, i)) <= 1e-11 * (1 + maxabs(g.x)))) ok = false; }
  if (!ok) c.violation("M symmetric", "M is not symmetric\nstate: " + show(s) + "\n" + yaml(m.cfg));
  for (int i = 0; i < n; i++) { double I[6]; for (int k = 0; k < 6; k++) I[k] = ch.dyn[10 * i + 4 + k]; Eigen::Matrix3d A; A << I[0], I[1], I[2], I[1], I[3], I[4], I[2], I[4], I[5]; if (ch.dyn[10 * i] < 0 || A.selfadjointView<Eigen::Lower>().eigenvalues().minCoeff() < 0) ok = false; }
  if (ok && E.selfadjointView<Eigen::Lower>().eigenvalues().minCoeff() < -1e-10 * (1 + maxabs(g.x))) c.violation("M psd", "M is not positive semidefinite\nstate: " + show(s) + "\n" + yaml(m.cfg));
}
static void chk05(Ctx& c, Model& m, const State& s) {
  int n = m.cfg.n(); auto ch = chain<double>(m.cfg, s); auto d = ref::dM(ch, s.at("q")); auto C = ref::christoffel(d, s.at("dq"));
  bool ok = check_fn(c, m, "C", s, C, 1e-10); ok = check_fn(c, m, "C_std", s, C, 1e-10) && ok;
  if (!ok) return;
  auto g = m.eval("C", s); double e = 0, sc = 1 + maxabs(g.x);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double x = 0; for (int k = 0; k < n; k++) x += (d[k](i, j) + d[k](j, i)) * s.at("dq")[k]; e = std::max(e, std::fabs(x - 2 * g(i, j) - 2 * g(j, i))); }
  if (!(e <= 1e-9 * sc)) c.violation("skew", "M_dot - 2C is not skew-symmetric\nstate: " + show(s) + "\n" + yaml(m.cfg));
}
static void chk06(Ctx& c, Model& m, const State& s) { auto ch = chain<double>(m.cfg, s); check_fn(c, m, "G", s, ref::gravG(ch, s.at("q")), 1e-10); }
static void chk07(Ctx& c, Model& m, const State& s) {
  auto cj = chain<ref::Jet>(m.cfg, s); auto q = traj(s, false), dq = traj(s, true);
  auto M = ref::massM(cj, q); auto C = ref::corC(cj, q, dq); auto G = ref::gravG(cj, q);
  double v = 1 + maxabs(s.at("dq")), a = 1 + maxabs(s.at("ddq")), t = 1e-10, t1 = t * v, t2 = t * (v * v + a);  // terms of this size may cancel
  check_fn(c, m, "M_dot", s, coef(M, 1), t1); check_fn(c, m, "M_ddot", s, coef(M, 2), t2);
  check_fn(c, m, "C_dot", s, coef(C, 1), t1); check_fn(c, m, "C_ddot", s, coef(C, 2), t2);
  check_fn(c, m, "G_dot", s, coef(G, 1), t1); check_fn(c, m, "G_ddot", s, coef(G, 2), t2);
}
static void chk08(Ctx& c, Model& m, const State& s) {
  int n = m.cfg.n(); auto ch = chain<double>(m.cfg, s); auto cd = ref::lift<ref::Dual<double>>(ch);
  const Vec &q = s.at("q"), &dq = s.at("dq"), &v = s.at("dqr"), &a = s.at("ddqr");
  Mat<double> RM(n, 10 * n), RC(n, 10 * n), RG(n, 10 * n), Y(n, 10 * n);
  for (int i = 0; i < n; i++) for (int l = 0; l < 10; l++) {
    auto M = ref::massUnit(ch, q, i, l); vector<Mat<double>> d;
    for (int k = 0; k < n; k++) { auto x = ref::massUnit(cd, ref::seed(q, k), i, l); Mat<double> e(n, n); for (size_t t = 0; t < e.x.size(); t++) e.x[t] = x.x[t].d; d.push_back(e); }
    auto C = ref::christoffel(d, dq);
    for (int r = 0; r < n; r++) {
      double x = 0, y = 0; for (int k = 0; k < n; k++) { x += M(r, k) * a[k]; y += C(r, k) * v[k]; }
      double g = ref::potentialUnit(cd, ref::seed(q, r), i, l).d;
      RM(r, 10 * i + l) = x; RC(r, 10 * i + l) = y; RG(r, 10 * i + l) = g; Y(r, 10 * i + l) = x + y + g;
    }
  }
  check_fn(c, m, "Yr", s, Y, 1e-10); check_fn(c, m, "reg_M", s, RM, 1e-10); check_fn(c, m, "reg_C", s, RC, 1e-10); check_fn(c, m, "reg_G", s, RG, 1e-10);
  for (auto& f : {"Yr", "reg_M", "reg_C", "reg_G"}) for (auto& p : m.fn.at(f).args) if (p == "par_DYN" || p == "par_REG") c.violation(string(f) + " depends on inertial parameters", yaml(m.cfg));
  // against the implementation's own M, C, G with the converted parameters
  Vec dyn = eff(m.cfg, s, "par_DYN"), reg(10 * n); for (int i = 0; i < n; i++) ref::dyn2reg(&dyn[10 * i], &reg[10 * i]);
  auto p = colv(reg), Ma = mul(m.eval("M", s), colv(a)), Cv = mul(m.eval("C", s), colv(v)), G = m.eval("G", s); Mat<double> all(n, 1); for (int i = 0; i < n; i++) all(i, 0) = Ma(i, 0) + Cv(i, 0) + G(i, 0);
  string why; c.transition(3);
  struct { const char* f; const Mat<double>* w; } t[] = {{"Yr", &all}, {"reg_M", &Ma}, {"reg_C", &Cv}, {"reg_G", &G}};
  for (auto& x : t) if (!close(mul(m.eval(x.f, s), p), *x.w, 1e-9, why)) c.violation(string(x.f) + " times parameters", why + "\nstate: " + show(s) + "\n" + yaml(m.cfg));
}
static Mat<double> diag(const Vec& v) { Mat<double> m((int)v.size(), (int)v.size()); for (size_t i = 0; i < v.size(); i++) m((int)i, (int)i) = v[i]; return m; }
static Vec pick(const Vec& v, int start, int step, int k) { Vec r; for (int i = 0; i < k; i++) r.push_back(v[start + i * step]); return r; }
static void chk10(Ctx& c, Model& m, const State& s) {
  const Cfg& g = m.cfg; int n = g.n(), ne = g.ne(); vector<int> jq; for (int i = 0; i < n; i++) if (g.isE(i)) jq.push_back(i);
  std::set<string> expect;
  auto chkF = [&](const string& f, const Mat<double>& w) { expect.insert(f); check_fn(c, m, f, s, w, 1e-12); };
  if (g.Dl_order) {
    Vec p = eff(g, s, "par_Dl"), dl(n); for (int i = 0; i < n; i++) for (int o = 0; o < g.Dl_order; o++) dl[i] += p[i * g.Dl_order + o] * ref::fric(s.at("dq")[i], o);
    chkF("dl", colv(dl)); for (int o = 0; o < g.Dl_order; o++) chkF("Dl" + std::to_string(o + 1), diag(pick(p, o, g.Dl_order, n)));
  }
  if (g.elastic) {
    Vec K = eff(g, s, "par_K"), D = eff(g, s, "par_D"), Dm = eff(g, s, "par_Dm"), Mm = eff(g, s, "par_Mm"), k(ne), d(ne), dm(ne);
    for (int e = 0; e < ne; e++) {
      double dx = s.at("x")[e] - s.at("q")[jq[e]], dv = s.at("dx")[e] - s.at("dq")[jq[e]], v = s.at("dx")[e];
      for (int o = 0; o < g.K_order; o++) k[e] += K[e * g.K_order + o] * ref::spring(dx, o);
      for (int o = 0; o < g.D_order; o++) d[e] += D[e * g.D_order + o] * ref::fric(dv, o);
      for (int o = 0; o < g.Dm_order; o++) dm[e] += Dm[e * g.Dm_order + o] * ref::fric(v, o);
    }
    if (ne) {
      if (g.K_order) chkF("k", colv(k));
      if (g.D_order) chkF("d", colv(d));
      if (g.Dm_order) chkF("dm", colv(dm));
      for (int o = 0; o < g.K_order; o++) chkF("K" + std::to_string(2 * o + 1), diag(pick(K, o, g.K_order, ne)));
      for (int o = 0; o < g.D_order; o++) chkF("D" + std::to_string(o + 1), diag(pick(D, o, g.D_order, ne)));
      for (int o = 0; o < g.Dm_order; o++) chkF("Dm" + std::to_string(o + 1), diag(pick(Dm, o, g.Dm_order, ne)));
      chkF("Mm", diag(Mm));
    }
  }
  for (auto& f : m.fn) {  // no term of an order or model that was not asked for
    const string& x = f.first; bool fam = x == "dl" || x == "k" || x == "d" || x == "dm" || x == "Mm" || (isdigit(x.back()) && (x[0] == 'K' || x[0] == 'D'));
    if (fam && !expect.count(x) && !(g.elastic && !ne)) c.violation(x + " unexpected", "function " + x + " exists although the configuration has no such term\n" + yaml(g));
  }
}
static void chk11(Ctx& c, Model& m, const State& s) {
  const Cfg& g = m.cfg; int n = g.n(), ne = g.ne(); vector<int> jq; for (int i = 0; i < n; i++) if (g.isE(i)) jq.push_back(i);
  auto exists = [&](const string& f, bool want) { if (m.has(f) != want) { c.violation(f + (want ? " missing" : " unexpected"), yaml(g)); return false; } return want; };
  // friction-like regressors: rows = joints, columns = symbolic entries
  auto law = [&](const string& f, const string& term, const string& par, int ord, int rows, std::function<double(int, int)> basis) {
    bool on = ord > 0 && rows > 0 && any(g.mask.at(par)); if (!exists(f, on)) return;
    vector<int> idx; for (int i = 0; i < g.size(par); i++) if (g.mask.at(par)[i]) idx.push_back(i);
    Mat<double> R(rows, (int)idx.size()); for (size_t k = 0; k < idx.size(); k++) R(idx[k] / ord, (int)k) = basis(idx[k] / ord, idx[k] % ord);
    if (!check_fn(c, m, f, s, R, 1e-12) || term.empty()) return;
    // regressor times entries plus frozen contribution is the term itself
    Vec p = eff(g, s, par); Mat<double> t(rows, 1); auto got = m.eval(f, s);
    for (int i = 0; i < g.size(par); i++) if (!g.mask.at(par)[i]) t(i / ord, 0) += p[i] * basis(i / ord, i % ord);
    for (size_t k = 0; k < idx.size(); k++) for (int r = 0; r < rows; r++) t(r, 0) += got(r, (int)k) * p[idx[k]];
    check_fn(c, m, term, s, t, 1e-11);
  };
  law("reg_dl", "dl", "par_Dl", g.Dl_order, n, [&](int i, int o) { return ref::fric(s.at("dq")[i], o); });
  if (g.elastic || m.has("reg_k")) law("reg_k", "k", "par_K", g.elastic ? g.K_order : 0, ne, [&](int e, int o) { return ref::spring(s.at("x")[e] - s.at("q")[jq[e]], o); });
  if (g.elastic || m.has("reg_d")) law("reg_d", "d", "par_D", g.elastic ? g.D_order : 0, ne, [&](int e, int o) { return ref::fric(s.at("dx")[e] - s.at("dq")[jq[e]], o); });
  if (g.elastic || m.has("reg_dm")) law("reg_dm", "dm", "par_Dm", g.elastic ? g.Dm_order : 0, ne, [&](int e, int o) { return ref::fric(s.at("dx")[e], o); });
  if (g.elastic || m.has("reg_Mm")) law("reg_Mm", "", "par_Mm", g.elastic ? 1 : 0, ne, [&](int e, int) { return s.at("ddx")[e]; });
  // kinematic-parameter regressors
  vector<std::pair<int, int>> idx; int gi = 0; for (auto& p : {"par_DHtable", "par_world2L0", "par_Ln2EE"}) { for (int i = 0; i < g.size(p); i++) if (g.mask.at(p)[i]) idx.push_back({gi, i}); gi++; }
  if (exists("reg_Jdq", !idx.empty()) && exists("reg_JTw", !idx.empty())) {
    typedef ref::Dual<double> D; auto base = chain<D>(g, s); vector<D> q; for (double x : s.at("q")) q.push_back(D(x));
    Mat<double> A(6, (int)idx.size()), B(n, (int)idx.size());
    for (size_t k = 0; k < idx.size(); k++) {
      auto ch = base; (idx[k].first == 0 ? ch.dh : idx[k].first == 1 ? ch.base : ch.ee)[idx[k].second].d = 1;
      auto J = ref::jac_ee(ch, q);
      for (int i = 0; i < 6; i++) for (int j = 0; j < n; j++) { A(i, (int)k) += J(i, j).d * s.at("dq")[j]; B(j, (int)k) += J(i, j).d * s.at("w")[i]; }
    }
    check_fn(c, m, "reg_Jdq", s, A, 1e-10); check_fn(c, m, "reg_JTw", s, B, 1e-10);
  } else if (idx.empty()) exists("reg_JTw", false);
}

// ---------------------------------------------------------------- spaces
struct Dim { string key; int i; Vec a; bool var; Vec fine; };  // a: combined with each other; fine: one at a time
static const Vec ANG = {0, PI / 2, -PI / 2, PI, 2.1, 1e-5}, LEN = {0, 1, -0.37, 1e-5}, VEL = {0, 1.3, -2.2};
struct Spec {
  vector<string> vars, groups; std::function<void(Ctx&, Model&, const State&)> chk; double cost;  // cost: rough ms per state of a 3-joint robot
};
static Spec spec() {
  if (PROP == "C01") return {{"q"}, {"par_DHtable", "par_world2L0", "par_Ln2EE"}, chk01, 0.05};
  if (PROP == "C02") return {{"q"}, {"par_DHtable", "par_world2L0", "par_Ln2EE", "par_DYN"}, chk02, 0.05};
  if (PROP == "C03") return {{"q", "dq", "ddq"}, {"par_DHtable", "par_world2L0", "par_Ln2EE"}, chk03, 0.3};
  if (PROP == "C04") return {{"q"}, {"par_DHtable", "par_world2L0", "par_DYN"}, chk04, 0.06};
  if (PROP == "C05") return {{"q", "dq"}, {"par_DHtable", "par_world2L0", "par_DYN"}, chk05, 0.25};
  if (PROP == "C06") return {{"q"}, {"par_DHtable", "par_world2L0", "par_gravity", "par_DYN"}, chk06, 0.05};
  if (PROP == "C07") return {{"q", "dq", "ddq", "d3q"}, {"par_DHtable", "par_world2L0", "par_gravity", "par_DYN"}, chk07, 2};
  if (PROP == "C08") return {{"q", "dq", "dqr", "ddqr"}, {"par_DHtable", "par_world2L0", "par_gravity", "par_DYN"}, chk08, 1};
  if (PROP == "C10") return {{"q", "dq", "x", "dx"}, {"par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"}, chk10, 0.01};
  if (PROP == "C11") return {{"q", "dq", "x", "dx", "ddx", "w"}, {"par_DHtable", "par_world2L0", "par_Ln2EE", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"}, chk11, 0.3};
  fprintf(stderr, "unknown property\n"); exit(2);
}
static Vec alphabet(const Cfg& c, const string& k, int i) {
  if (k == "q") return c.isP(i) ? LEN : ANG;
  if (k == "par_DHtable") return i % 2 ? ANG : LEN;
  if (k == "par_world2L0" || k == "par_Ln2EE") return i < 3 ? LEN : ANG;
  if (k == "par_gravity") return {0, 9.81, -3.3};
  if (k == "par_DYN") return i % 10 == 0 ? Vec{0, 2.5} : Vec{0, 0.45, -1.2};
  if (k.substr(0, 4) == "par_") return {0, 1.7, -0.6};
  if (k == "x") return {0, 1.1, -2.4, 1e-3};
  return VEL;
}
// values close to, but not at, the ones code likes to treat specially, and values far out
static Vec fine(const Cfg& c, const string& k, int i) {
  static Vec ang; if (ang.empty()) { int n = 0; static const double eps[] = {5e-11, -4e-9, 4e-7, -3e-5, 8e-4}; for (double b : {0.0, PI / 2, -PI / 2, PI, -PI}) for (double e : eps) ang.push_back(b + (n++ % 2 ? e : -e)); for (double a : {3 * PI / 2, -3 * PI / 2, 2 * PI, 7.4, -4.2, 25.0, PI / 4, PI / 3}) ang.push_back(a); }
  static const Vec len = {4e-11, -3e-9, 5e-7, 2e-4, -0.999999, 1.000001, 9.5, -31.0};
  bool angle = k == "q" ? !c.isP(i) : k == "par_DHtable" ? i % 2 : (k == "par_world2L0" || k == "par_Ln2EE") ? i >= 3 : false;
  if (angle) return ang;
  if (k == "par_DYN") return i % 10 == 0 ? Vec{3e-9, 1e-6, 2e-4, 30.0} : Vec{4e-10, -3e-7, 2e-4, 15.0};
  if (k == "par_gravity") return {1e-9, -3e-6, 1e-3, 1.0, 120.0};
  if (k == "x") return {-1e-3, 3e-5, -2e-7, 9.0};
  if (k == "dq" || k == "dx" || k == "dqr") return {3e-9, -2e-7, 5e-5, -1e-3, 8.0, -14.0};
  return len;
}
static vector<Dim> dims(const Cfg& c, const Spec& sp, bool params) {
  vector<Dim> d;
  for (auto& v : sp.vars) for (int i = 0; i < var_size(c, v); i++) d.push_back({v, i, alphabet(c, v, i), true, fine(c, v, i)});
  if (params) for (auto& p : sp.groups) for (int i = 0; i < c.size(p); i++) if (c.mask.at(p)[i]) d.push_back({p, i, alphabet(c, p, i), false, fine(c, p, i)});
  return d;
}
// level: 1 singles, 2 pairs with a joint variable, 3 all pairs, 4 all triples
static int PART = 0, PARTS = 1;  // long explorations are divided among several cases
static void explore(Ctx& c, Model& m, const State& base, const vector<Dim>& d, int level, const Spec& sp) {
  uint64_t h0 = c.idx * 0x9E3779B97F4A7C15ull; int nr = 0;
  auto visit = [&](const State& s) { if (nr++ % PARTS != PART) return; if (c.nviol <= Ctx::MAXV && c.state_once(hash_state(s, h0))) sp.chk(c, m, s); };
  State s = base; visit(s);
  for (size_t i = 0; i < d.size(); i++) { double& x = s[d[i].key][d[i].i]; double ox = x;
    for (double a : d[i].a) { x = a; visit(s);
      if (level >= 2) for (size_t j = i + 1; j < d.size(); j++) { if (level == 2 && !d[i].var && !d[j].var) continue; double& y = s[d[j].key][d[j].i]; double oy = y;
        for (double b : d[j].a) { y = b; visit(s);
          if (level >= 4) for (size_t k = j + 1; k < d.size(); k++) { double& z = s[d[k].key][d[k].i]; double oz = z; for (double e : d[k].a) { z = e; visit(s); } z = oz; } }
        y = oy; } }
    for (double a : d[i].fine) { x = a; visit(s); }
    x = ox; }
}
static void explore_model(Ctx& c, Model& m, const Spec& sp, int level, int nbg) {
  for (int bg = 0; bg < nbg; bg++) explore(c, m, base_state(m.cfg, bg), dims(m.cfg, sp, true), level, sp);
  State z = base_state(m.cfg, 0); for (auto& v : VARS) for (auto& x : z[v]) x = 0; explore(c, m, z, dims(m.cfg, sp, false), 1, sp);
  c.trace();
}
static vector<vector<string>> words(const vector<string>& al, int n) { vector<vector<string>> r = {{}}; for (int i = 0; i < n; i++) { vector<vector<string>> t; for (auto& w : r) for (auto& a : al) { auto x = w; x.push_back(a); t.push_back(x); } r = t; } return r; }
static const vector<string> A2 = {"R", "P"}, A4 = {"R", "P", "R_SEA", "P_SEA"};

static vector<Case> make_main(bool th) {
  Spec sp = spec(); vector<Case> cs;
  auto add = [&](vector<string> t, int bg, int mode, int level, int nbg, bool ela) {
    Cfg c = generic(t, bg, mode == 2 ? 2 : 0, ela, 1, 1, 1); if (mode == 0) mask_all(c, 0); else if (mode == 1) mask_all(c, 1); else mask_alt(c, bg);
    static const char* mn[] = {"frozen", "symbolic", "mixed"};
    int parts = sp.cost < 0.2 ? 1 : t.size() >= 7 ? 8 : t.size() == 6 ? 4 : t.size() == 5 && sp.cost >= 1 ? 2 : 1;
    for (int part = 0; part < parts; part++)
      cs.push_back({"types " + c.typestr() + ", background " + std::to_string(bg) + ", parameters " + mn[mode] + ", deviations level " + std::to_string(level) + (ela ? ", elastic" : "") + (parts > 1 ? ", part " + std::to_string(part + 1) + " of " + std::to_string(parts) : ""), [=](Ctx& x) { Model m = make_model(x, c); PART = part; PARTS = parts; explore_model(x, m, sp, level, nbg); PART = 0; PARTS = 1; }});
  };
  bool slow = sp.cost >= 1, mid = sp.cost >= 0.2;
  auto hasE = [](const vector<string>& t) { for (auto& x : t) if (x.size() > 1) return true; return false; };
  // long chains first (they take longest)
  vector<vector<string>> big = {{"R", "R", "R", "R", "R", "R", "R"}, {"R", "P", "R", "R_SEA", "P", "R"}};
  if (th) { big.push_back({"P", "R", "R", "P", "R", "P", "R"}); big.push_back({"R_SEA", "R_SEA", "R_SEA", "R_SEA", "R_SEA", "R_SEA", "R_SEA"}); big.push_back({"R", "P", "R", "P", "R", "P", "R", "P"}); }
  for (auto& t : big) for (int mode : {0, 2}) add(t, mode, mode, slow && !th ? 1 : 1, 1, false);
  for (auto& t : words(A2, 5)) { if (!th && !(t == vector<string>{"R", "R", "R", "R", "R"} || t == vector<string>{"P", "R", "P", "R", "R"} || t == vector<string>{"R", "R", "P", "P", "R"})) continue; for (int mode : {1, 2}) if (mode == 1 || th) add(t, 1, mode, 1, 1, false); }
  for (auto& t : words(A2, 4)) for (int mode : {0, 1, 2}) if (th || mode == 1 || (mode == 2 && !slow)) add(t, mode, mode, th && !slow ? 2 : (slow ? 1 : (mid ? 1 : 2)), 1, false);
  for (auto& t : words(th ? A4 : A2, 3)) for (int mode : {0, 1, 2}) add(t, 2 + mode, mode, th ? (slow ? 2 : 3) : slow ? 1 : 2, 1, hasE(t));
  for (auto& t : vector<vector<string>>{{"R_SEA", "P", "R"}, {"P_SEA", "R", "R_SEA"}, {"R", "R_SEA", "P_SEA"}}) for (int e : {0, 1}) add(t, 3, 2, 1, 1, e);
  for (auto& t : words(A4, 2)) for (int mode : {0, 1, 2}) { bool e = hasE(t); add(t, mode, mode, th ? (slow ? 3 : 3) : (slow ? (e ? 1 : 2) : (mid && e ? 2 : 3)), th && !slow ? 2 : 1, e && mode != 1); }
  for (auto& t : words(A4, 1)) for (int mode : {0, 1, 2}) { bool e = hasE(t); add(t, mode, mode, th ? 4 : slow ? 3 : (mid ? 3 : 4), 2, e && mode != 1); }
  // configuration deviations: frozen (constant-folded) robots, one build per configuration
  auto cfgdev = [&](vector<string> t, int bg, int level, bool zero) {
    Cfg c = generic(t, bg); mask_all(c, 0);
    if (zero) { for (auto& p : {"par_DHtable", "par_world2L0", "par_Ln2EE"}) for (auto& x : c.val[p]) x = 0; c.val["par_gravity"] = {0, 0, -9.81}; }
    vector<Dim> d; for (auto& p : sp.groups) if (p != "par_DYN" || t.size() <= 2) for (int i = 0; i < c.size(p); i++) d.push_back({p, i, alphabet(c, p, i), false, fine(c, p, i)});
    auto list = std::make_shared<vector<vector<std::array<double, 2>>>>();  // list of (dim, value) sets
    for (size_t i = 0; i < d.size(); i++) for (double a : d[i].a) { list->push_back({{(double)i, a}}); if (level >= 2) for (size_t j = i + 1; j < d.size(); j++) { if (d[i].key == "par_DYN" || d[j].key == "par_DYN") continue; for (double b : d[j].a) list->push_back({{(double)i, a}, {(double)j, b}}); } }
    for (size_t i = 0; i < d.size(); i++) for (double a : d[i].fine) list->push_back({{(double)i, a}});
    size_t chunk = 24;
    for (size_t o = 0; o < list->size(); o += chunk) cs.push_back({"types " + c.typestr() + ", frozen " + (zero ? "zero" : "generic") + " configuration with " + std::to_string(level) + " deviations, block " + std::to_string(o / chunk), [=](Ctx& x) {
      for (size_t k = o; k < std::min(list->size(), o + chunk); k++) {
        Cfg g = c; for (auto& e : (*list)[k]) g.val[d[(int)e[0]].key][d[(int)e[0]].i] = e[1];
        Model m = make_model(x, g); x.trace();
        for (int b = 0; b < 2; b++) { State s = base_state(g, b); uint64_t h = hash_str(yaml(g)); if (x.state_once(hash_state(s, h))) sp.chk(x, m, s); if (sp.cost < 0.2) { s = base_state(g, 0); for (size_t i = 0; i < s["q"].size(); i++) for (double v : {0.0, PI / 2}) { s["q"][i] = v; if (x.state_once(hash_state(s, h))) sp.chk(x, m, s); } } }
        if (x.nviol > Ctx::MAXV) return;
      } }});
  };
  for (auto& t : words(A2, 1)) for (bool z : {false, true}) cfgdev(t, 1, 2, z);
  for (auto& t : words(A2, 2)) for (bool z : {false, true}) cfgdev(t, 2, th ? 2 : 1, z);
  for (auto& t : words(A2, 3)) for (bool z : {true, false}) if (th || (z && (t == vector<string>{"R", "R", "R"} || t == vector<string>{"R", "P", "R"} || t == vector<string>{"P", "R", "R"}))) cfgdev(t, 3, 1, z);
  // structured frozen values, which code likes to treat as special cases: all Euler triples and
  // Denavit-Hartenberg rows over right angles, point masses, diagonal and trace-free tensors, centred
  // links, gravity along any axis, in every position of short chains
  auto frozen_list = [&](const string& what, vector<Cfg> list) {
    size_t chunk = 16; auto l = std::make_shared<vector<Cfg>>(list);
    for (size_t o = 0; o < l->size(); o += chunk) cs.push_back({"structured frozen " + what + " of " + (*l)[0].typestr() + ", block " + std::to_string(o / chunk), [=](Ctx& x) {
      for (size_t k = o; k < std::min(l->size(), o + chunk); k++) {
        const Cfg& g = (*l)[k]; Model m = make_model(x, g); x.trace(); uint64_t h = hash_str(yaml(g));
        for (int b = 0; b < 2; b++) { State s = base_state(g, b); if (x.state_once(hash_state(s, h))) sp.chk(x, m, s); }
        State s = base_state(g, 0); for (auto& v : s["q"]) v = 0; if (x.state_once(hash_state(s, h))) sp.chk(x, m, s);
        if (x.nviol > Ctx::MAXV) return;
      } }});
  };
  auto has = [&](const char* p) { return std::count(sp.groups.begin(), sp.groups.end(), string(p)) > 0; };
  const Vec right = {0, PI / 2, -PI / 2, PI}, someang = {0, PI / 2, -PI / 2, PI, 0.7};
  for (auto& t : vector<vector<string>>{{"R"}, {"R", "P"}}) {
    Cfg c = generic(t, 1); mask_all(c, 0);
    for (const char* p : {"par_world2L0", "par_Ln2EE"}) if (has(p)) { vector<Cfg> l; for (double a : someang) for (double b : someang) for (double e : someang) for (int tr : {0, 1}) { if (!th && (t.size() == 2) != (tr == 0)) continue; Cfg g = c; g.val[p] = {tr ? 0.3 : 0, tr ? -0.2 : 0, tr ? 0.4 : 0, a, b, e}; l.push_back(g); } frozen_list(p, l); }
  }
  for (auto& t : vector<vector<string>>{{"R"}, {"P"}, {"R", "R"}, {"R", "P"}, {"P", "R"}}) {
    Cfg c = generic(t, 2); mask_all(c, 0); vector<Cfg> l; int n = t.size();
    for (int link = 0; link < n; link++) for (double a : {0.0, 0.5}) for (double al : right) for (double d : {0.0, 0.4}) for (double te : right) for (int z : {0, 1}) {
      if (!th && n == 2 && (z || (a != 0 && d != 0))) continue;
      Cfg g = c; if (z) for (const char* p : {"par_world2L0", "par_Ln2EE", "par_DHtable"}) for (auto& x : g.val[p]) x = 0;
      Vec row = {a, al, d, te}; for (int k = 0; k < 4; k++) g.val["par_DHtable"][4 * link + k] = row[k]; l.push_back(g); }
    frozen_list("Denavit-Hartenberg rows", l);
  }
  for (auto& t : vector<vector<string>>{{"R", "R", "R"}, {"R", "R", "P"}, {"P", "P", "R"}, {"R", "P", "R"}, {"P", "R", "R"}, {"R_SEA", "R", "P"}, {"P", "P", "P"}}) {  // spatial arrangements at right angles
    vector<Cfg> l; for (double a1 : right) for (double a2 : right) for (int len : {0, 1}) for (int w : {0, 1}) { if (!th && len == w) continue; Cfg g = generic(t, 3); mask_all(g, 0);
      g.val["par_DHtable"] = {0, 0, 0, 0, len ? 0.5 : 0, a1, 0, 0, len ? 0.4 : 0, a2, 0.2 * len, 0}; for (const char* p : {"par_Ln2EE"}) for (auto& x : g.val[p]) x = 0;
      for (auto& x : g.val["par_world2L0"]) x = 0; if (w) g.val["par_world2L0"][5] = PI / 2; g.val["par_gravity"] = w ? Vec{0, -9.81, 0} : Vec{0, 0, -9.81}; l.push_back(g); }
    frozen_list("arrangements", l);
  }
  if (has("par_DYN")) {
    const vector<Vec> tensors = {{0, 0, 0, 0, 0, 0}, {1, 0, 0, 1, 0, 1}, {0.4, 0, 0, 0.9, 0, 1.1}, {0.5, 0.1, 0.05, -0.2, 0.07, -0.3}, {0, 0.3, 0, 0, 0, 0}, {0, 0, 0.3, 0, -0.2, 0}, {0.6, 0, 0, 0, 0, 0}, {0, 0, 0, 0.6, 0, 0}, {0, 0, 0, 0, 0, 0.6}, {0.9, 0.05, 0, 1.1, 0, 1.3}, {-0.4, 0, 0, 0.4, 0, 0.7}};
    for (auto& t : vector<vector<string>>{{"R"}, {"R", "R"}, {"R", "P"}, {"P", "R"}, {"R_SEA", "R_SEA", "P"}}) {
      int n = t.size(); vector<Cfg> l;
      for (int link = 0; link < n; link++) for (auto& I : tensors) for (double m : {0.0, 1.5}) for (int com = 0; com < 8; com++) for (int all : {0, 1}) {
        if (!th && (com % 7 || m == 0) && (com * 3 + (int)(&I - &tensors[0]) + link) % 5) continue; if (!th && all && n > 1 && com % 7) continue; if (all && (link || n == 1)) continue;
        Cfg g = generic(t, 4); mask_all(g, 0); if (com < 4) for (auto& x : g.val["par_DHtable"]) if (com == 0) x = 0;
        for (int k = all ? 0 : link; k <= (all ? n - 1 : link); k++) { Vec& v = g.val["par_DYN"]; v[10 * k] = m; for (int e = 0; e < 3; e++) v[10 * k + 1 + e] = com >> e & 1 ? 0.2 - 0.15 * e : 0; for (int e = 0; e < 6; e++) v[10 * k + 4 + e] = I[e]; }
        l.push_back(g); }
      frozen_list("inertial parameters", l);
    }
  }
  if (has("par_gravity")) for (auto& t : vector<vector<string>>{{"R"}, {"R", "R"}, {"R", "P"}, {"P", "R"}, {"P", "P"}}) {
    vector<Cfg> l; for (double gx : {0.0, 9.81, -3.0}) for (double gy : {0.0, -9.81, 3.0}) for (double gz : {0.0, -9.81, 2.0}) for (int z : {0, 1}) { Cfg g = generic(t, 5); mask_all(g, 0); g.val["par_gravity"] = {gx, gy, gz}; if (z) for (const char* p : {"par_world2L0", "par_DHtable"}) for (int k = 0; k < g.size(p); k++) if (p[4] == 'w' || k % 4 == 1) g.val[p][k] = 0; l.push_back(g); }
    frozen_list("gravity", l);
  }
  for (auto& ty : vector<vector<string>>{{"R"}, {"P"}, {"R", "R"}, {"R", "P"}, {"P", "R"}, {"R", "R", "R"}, {"R", "R", "P"}}) frozen_list("patterns", patterns(generic(ty, 6), sp.groups, th, !slow || th));
  // kinematics of chains longer than nine joints (two-digit names)
  if (PROP == "C01" || PROP == "C02") for (int n : {10, 12}) for (int mode : {0, 1}) {
    vector<string> t; for (int i = 0; i < n; i++) t.push_back(i % 4 == 2 ? "P" : (i % 4 == 3 ? "R_SEA" : "R"));
    Cfg c = generic(t, 4); mask_all(c, mode);
    cs.push_back({"types " + c.typestr() + " (kinematics)", [=](Ctx& x) { Model m = make_kin_model(x, c, 0); explore_model(x, m, sp, 1, 1); }});
  }
  // complete long chains, two-digit link numbers included
  if (PROP != "C01") { int lo = 8, hi = slow ? (th ? 12 : 10) : (th ? 13 : 11);
    for (int n = hi; n >= lo; n--) for (int mode : {0, 2}) { if (!th && (n + mode) % 4 == 1) continue; if (!th && slow && (n == 9 || mode == (n == 10 ? 0 : 2))) continue;
      vector<string> t; for (int i = 0; i < n; i++) t.push_back((i + n) % 4 == 2 ? "P" : (i % 5 == 3 ? "R_SEA" : "R")); Cfg c = generic(t, n, 1); if (mode == 0) mask_all(c, 0); else mask_alt(c, n);
      cs.insert(cs.begin(), {"types " + c.typestr() + " (long chain), " + (mode ? "mixed" : "frozen"), [=](Ctx& x) { Model m = make_model(x, c);
        uint64_t h0 = x.idx * 0x9E3779B97F4A7C15ull; auto visit = [&](const State& z) { if (x.nviol <= Ctx::MAXV && x.state_once(hash_state(z, h0))) sp.chk(x, m, z); };
        if (slow) { for (int b = 0; b < 2; b++) visit(base_state(m.cfg, b)); State s = base_state(m.cfg, 0); for (auto& v : sp.vars) { State z = s; z[v].back() = 0; visit(z); } x.trace(); }
        else explore_model(x, m, sp, 1, 1); }}); } }
  return cs;
}

static vector<Case> make10(bool th) {
  Spec sp = spec(); vector<Case> cs;
  auto add = [&](vector<string> t, int Dl, bool ela, int K, int D, int Dm, int mode, int level) {
    Cfg c = generic(t, mode + (int)t.size(), Dl, ela, K, D, Dm); if (mode == 1) mask_all(c, 1); else if (mode == 2) mask_alt(c, K + Dm); else if (mode == 3) mask_alt(c, 1 + K + Dm);
    cs.push_back({"types " + c.typestr() + (ela ? " elastic" : " rigid") + " orders Dl/K/D/Dm " + std::to_string(Dl) + "/" + std::to_string(K) + "/" + std::to_string(D) + "/" + std::to_string(Dm) + " mask mode " + std::to_string(mode), [=](Ctx& x) { Model m = make_model(x, c); explore_model(x, m, sp, level, 1); }});
  };
  for (auto& t : words(A4, 3)) { int o = 0; for (auto& q : vector<std::array<int, 4>>{{1, 1, 1, 1}, {2, 3, 2, 2}, {3, 2, 4, 3}, {4, 1, 3, 4}}) { o++; if (!th && o == 4) continue; for (int mode : {0, 1, 2}) if (th || (o + mode) % 2) add(t, q[0], true, q[1], q[2], q[3], mode, 1); } }
  for (auto& t : words({"R", "R_SEA"}, th ? 5 : 4)) add(t, 2, true, 2, 2, 2, 2, 1);
  for (auto& t : words(A4, 2)) for (bool ela : {true, false}) for (int Dl : {0, 2, 3}) for (int o : {1, 2, 4}) for (int mode : {0, 1, 2, 3}) if (ela || o == 1) add(t, Dl, ela, o > 3 ? 3 : o, o, o, mode, th ? 3 : 2);
  for (auto& t : vector<vector<string>>{{"R_SEA"}, {"P_SEA"}, {"R"}}) for (int Dl = 0; Dl < 6; Dl++) for (int K = 0; K < 4; K++) for (int D = 0; D < 5; D++) for (int Dm = 0; Dm < 5; Dm++) { if (!th && (Dl + K + D + Dm) % 2) continue; if (t[0] == "R" && (D || Dm)) continue; add(t, Dl, true, K, D, Dm, (Dl + K + D + Dm) % 4, 3); }
  // every combination of orders with two elastic joints
  for (auto& t : vector<vector<string>>{{"R_SEA", "P_SEA"}, {"R_SEA", "R", "R_SEA"}}) for (int K = 0; K < 5; K++) for (int D = 0; D < 6; D++) for (int Dm = 0; Dm < 6; Dm++) { if (!th && t.size() == 3 && (K + D + Dm) % 3) continue; add(t, (K + D + Dm) % 5, true, K, D, Dm, (K + 2 * D + Dm) % 4, 1); }
  // many joints
  for (int n : {11, 9, 7, 6}) for (int mode : {1, 2}) { if (!th && (n + mode) % 2) continue; vector<string> t; for (int i = 0; i < n; i++) t.push_back(i == 1 || i == 8 ? "R" : i == 4 ? "P" : i % 3 == 2 ? "P_SEA" : "R_SEA"); add(t, 2, true, 2, 3, 2, mode, 1); }
  // special relations between the coefficients
  for (auto& t : vector<vector<string>>{{"R_SEA"}, {"R_SEA", "P_SEA"}, {"R", "R_SEA"}, {"R_SEA", "R_SEA", "R"}}) for (int o : {2, 3}) { if (t.size() == 3 && o == 3 && !th) continue; auto l = std::make_shared<vector<Cfg>>(patterns(generic(t, 6, o, true, o, o, o), sp.groups, th, th)); size_t chunk = 24;
    for (size_t b = 0; b < l->size(); b += chunk) cs.push_back({"types " + (*l)[0].typestr() + " orders " + std::to_string(o) + ", patterns, block " + std::to_string(b / chunk), [=](Ctx& x) {
      for (size_t k = b; k < std::min(l->size(), b + chunk) && x.nviol <= Ctx::MAXV; k++) { Model m = make_model(x, (*l)[k]); explore(x, m, base_state((*l)[k], 0), dims((*l)[k], sp, false), 1, sp); x.trace(); } }}); }
  // higher orders, one law at a time and together
  for (int o = 4; o <= (th ? 10 : 8); o++) for (int which = 0; which < 5; which++) for (auto& t : vector<vector<string>>{{"R_SEA"}, {"R", "P_SEA"}}) add(t, which == 0 || which == 4 ? o : 1, true, which == 1 || which == 4 ? o : 1, which == 2 || which == 4 ? o : 1, which == 3 || which == 4 ? o : 1, (o + which) % 4, t.size() == 1 ? 2 : 1);
  return cs;
}

static vector<Case> make11(bool th) {
  Spec sp = spec(); vector<Case> cs; auto cur = std::make_shared<vector<Cfg>>(); string label;
  int chunk = 12;
  auto flush = [&]() { if (cur->empty()) return; auto l = cur; cs.push_back({label + ", block " + std::to_string(cs.size()), [=](Ctx& x) {
    for (auto& g : *l) { Model m = make_model(x, g); x.trace(); uint64_t h = hash_str(yaml(g));
      for (int b = 0; b < 3; b++) { State s = base_state(g, b); if (b == 2) { for (auto& v : VARS) for (auto& e : s[v]) e = 0; } for (auto& p : PARS) for (size_t i = 0; i < s[p].size(); i++) if (g.mask.at(p)[i] && b) s[p][i] = gen((int)i + 7 * b, -1.5, 1.5); if (x.state_once(hash_state(s, h))) sp.chk(x, m, s); }
      if (x.nviol > Ctx::MAXV) return; } }}); cur = std::make_shared<vector<Cfg>>(); };
  auto put = [&](const Cfg& g, const string& l) { label = l; cur->push_back(g); if ((int)cur->size() >= chunk) flush(); };
  // full exploration with every entry / alternate entries symbolic
  for (auto& t : vector<vector<string>>{{"R"}, {"P_SEA"}, {"R_SEA", "P"}, {"R", "R_SEA"}, {"P", "R"}, {"R_SEA", "R", "P_SEA"}}) for (int mode : {1, 2, 3}) {
    Cfg c = generic(t, mode, 3, true, 2, 3, 2); if (mode == 1) mask_all(c, 1); else mask_alt(c, mode);
    int lv = t.size() == 1 ? 3 : t.size() == 2 ? (th ? 3 : 2) : 1;
    cs.push_back({"types " + c.typestr() + " mask mode " + std::to_string(mode) + ", deviations level " + std::to_string(lv), [=](Ctx& x) { Model m = make_model(x, c); explore_model(x, m, sp, lv, 1); }});
  }
  // many joints
  for (int n : {7, 10}) for (int mode : {1, 2, 3}) { if (n == 10 && mode == 1 && !th) continue; vector<string> t; for (int i = 0; i < n; i++) t.push_back(i == 1 || i == 8 ? "R" : i == 4 ? "P" : i % 3 == 2 ? "P_SEA" : "R_SEA"); Cfg c = generic(t, n + mode, 2, true, 2, 3, 2); if (mode == 1) mask_all(c, 1); else mask_alt(c, mode);
    cs.push_back({"types " + c.typestr() + " (many joints) mask mode " + std::to_string(mode), [=](Ctx& x) { Model m = make_model(x, c); for (int b = 0; b < 3; b++) sp.chk(x, m, base_state(c, b)); x.trace(); }}); }
  for (int o = 4; o <= (th ? 8 : 7); o++) for (auto& t : vector<vector<string>>{{"P_SEA"}, {"R", "R_SEA"}}) { Cfg c = generic(t, o, o, true, o - 1, o, o); if (o % 2) mask_all(c, 1); else mask_alt(c, o / 2);
    cs.push_back({"types " + c.typestr() + " orders up to " + std::to_string(o), [=](Ctx& x) { Model m = make_model(x, c); explore_model(x, m, sp, 1, 1); }}); }
  for (auto& t : vector<vector<string>>{{"R"}, {"R", "R"}, {"R_SEA", "P_SEA"}}) { bool e = t[0].size() > 1; for (auto& g : patterns(generic(t, 6, 2, e, 2, 2, 2), sp.groups, th, th)) put(g, "types " + g.typestr() + ", patterns"); flush(); }
  const vector<string> kin = {"par_DHtable", "par_world2L0", "par_Ln2EE"}, oth = {"par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"};
  // every mask of one group, others frozen or symbolic
  for (auto& t : vector<vector<string>>{{"R"}, {"P"}}) for (auto& p : kin) for (int others : {0, 1}) {
    Cfg c = generic(t, 1); mask_all(c, others); if (others) for (auto& o : PARS) if (o[4] != 'D' || o == "par_DHtable") continue; else c.mask[o].assign(c.size(o), 0);
    int sz = c.size(p); if (!th && p == "par_Ln2EE" && others && t[0] == "P") continue;
    for (int mk = 0; mk < (1 << sz); mk++) { Cfg g = c; for (int i = 0; i < sz; i++) g.mask[p][i] = mk >> i & 1; put(g, "types " + c.typestr() + ", all masks of " + p); }
    flush();
  }
  for (auto& t : vector<vector<string>>{{"R_SEA", "R", "P_SEA"}, {"R_SEA", "P_SEA"}}) for (auto& p : oth) {
    Cfg c = generic(t, 2, 2, true, 2, 2, 2); int sz = c.size(p);
    if (t.size() == 3 && !th && p == "par_Dl") { sz = 6; }
    for (int mk = 0; mk < (1 << sz); mk++) { Cfg g = c; for (int i = 0; i < sz; i++) g.mask[p][i] = mk >> i & 1; put(g, "types " + c.typestr() + ", all masks of " + p); }
    flush();
  }
  // singles, complements and pairs over all kinematic entries
  for (auto& t : th ? words(A2, 2) : vector<vector<string>>{{"R", "P"}, {"P", "R"}}) {
    Cfg c = generic(t, 3); vector<std::pair<string, int>> e; for (auto& p : kin) for (int i = 0; i < c.size(p); i++) e.push_back({p, i});
    for (size_t i = 0; i < e.size(); i++) { Cfg g = c; g.mask[e[i].first][e[i].second] = 1; put(g, "types " + c.typestr() + ", pairs of kinematic entries"); g = c; for (auto& p : kin) g.mask[p].assign(c.size(p), 1); g.mask[e[i].first][e[i].second] = 0; put(g, "types " + c.typestr() + ", pairs of kinematic entries");
      for (size_t j = i + 1; j < e.size(); j++) { Cfg g = c; g.mask[e[i].first][e[i].second] = 1; g.mask[e[j].first][e[j].second] = 1; put(g, "types " + c.typestr() + ", pairs of kinematic entries"); } }
    flush();
  }
  for (auto& t : vector<vector<string>>{{"R", "R", "P"}, {"P", "R_SEA", "R"}}) { Cfg c = generic(t, 3, 1, true, 1, 1, 1); for (auto& p : PARS) for (int i = 0; i < c.size(p); i++) { if (p == "par_DYN" || p == "par_gravity") continue; Cfg g = c; g.mask[p][i] = 1; put(g, "types " + c.typestr() + ", single entries"); } flush(); }
  return cs;
}

int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; i++) if (string(argv[i]) == "--prop") PROP = argv[i + 1];
  return run(argc, argv, [](bool th) { return PROP == "C10" ? make10(th) : PROP == "C11" ? make11(th) : make_main(th); });
}
