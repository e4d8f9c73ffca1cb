// C19: rotation helpers, FrameOffset, inertia tensors, and sequences of transform / merge on link inertias.
// Compiled twice: with the thunder library and (GENY) with the helpers of the genYAML tool.
#ifdef GENY
#include <vector>
#include <string>
#include "library/urdf2dh_inertial.h"
#else
#include "utils.h"
#include "FrameOffset.h"
#endif
#include "common.hpp"
#include <yaml-cpp/yaml.h>
#include <sys/wait.h>
using namespace mc; using thunder_ns::LinkProp; using M3 = Eigen::Matrix3d; using M4 = Eigen::Matrix4d; using V3 = Eigen::Vector3d;

// ------------------------------------------------------------------ reference
static M3 el(int ax, double a) { M3 r = M3::Identity(); int i = (ax + 1) % 3, j = (ax + 2) % 3; r(i, i) = std::cos(a); r(j, j) = std::cos(a); r(i, j) = -std::sin(a); r(j, i) = std::sin(a); return r; }
static M3 rot(double r, double p, double y) { return el(2, y) * el(1, p) * el(0, r); }
static M4 rigid(const Vec& d, const Vec& rpy) { M4 t = M4::Identity(); t.block<3, 3>(0, 0) = rot(rpy[0], rpy[1], rpy[2]); t.block<3, 1>(0, 3) = V3(d[0], d[1], d[2]); return t; }
// pseudo-inertia of a body: the second moments of its mass in homogeneous coordinates
static M4 pseudo(double m, V3 c, M3 Ic) { M3 S = 0.5 * Ic.trace() * M3::Identity() - Ic; M4 J; J.block<3, 3>(0, 0) = S + m * c * c.transpose(); J.block<3, 1>(0, 3) = m * c; J.block<1, 3>(3, 0) = (m * c).transpose(); J(3, 3) = m; return J; }
static M3 tensor(const Vec& p) { M3 I; I << p[0], p[1], p[2], p[1], p[3], p[4], p[2], p[4], p[5]; return I; }
static M4 pseudo(const LinkProp& b) { M3 R = rot(b.rpy[0], b.rpy[1], b.rpy[2]); return pseudo(b.mass, V3(b.xyz[0], b.xyz[1], b.xyz[2]), R * tensor(b.parI) * R.transpose()); }
static string text(const M4& J) { std::ostringstream o; o.precision(12); o << J; return o.str(); }
static string show(const LinkProp& b) { return "m=" + num(b.mass) + " com=" + nums(b.xyz) + " I=" + nums(b.parI) + " rpy=" + nums(b.rpy); }
static bool nearM(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b, double scale) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (int i = 0; i < a.size(); i++) if (!(std::abs(a(i) - b(i)) <= 1e-11 * scale)) return false; return true; }

// ------------------------------------------------------------------ alphabets
static Vec angles(bool th) { Vec r; int k = th ? 24 : 8; for (int i = -k; i <= k; i++) r.push_back(M_PI * 2 * i / k); for (double x : {0.3, -1.1, 1e-9, -1e-4, 2.9, 17.3, -0.77, M_PI_2 + 3e-5, M_PI_2 - 4e-9, 2e-7 - M_PI_2, M_PI + 5e-6}) r.push_back(x); return r; }
static LinkProp body(double m, Vec c, Vec I, Vec rpy, const string& nm) { LinkProp b; b.mass = m; b.xyz = c; b.parI = I; b.rpy = rpy; b.name = nm; return b; }
static vector<LinkProp> bodies(bool th) {
  vector<LinkProp> r; double t[6];
  for (int k = 0; k < 3; k++) { spd(k, t); r.push_back(body(gen(k, 0.5, 4), {gen(k + 3, -1, 1), gen(k + 9, -1, 1), gen(k + 17, -1, 1)}, Vec(t, t + 6), k ? Vec{gen(k, -3, 3), gen(k + 1, -3, 3), gen(k + 2, -3, 3)} : Vec{0, 0, 0}, "b" + std::to_string(k))); }
  r.push_back(body(2.5, {0, 0, 0}, {0.3, 0, 0, 0.5, 0, 0.7}, {0, 0, 0}, "centred"));
  r.push_back(body(1.5, {0.2, -0.4, 0.9}, {0, 0, 0, 0, 0, 0}, {0, 0, 0}, "point"));
  r.push_back(body(0, {0.2, -0.4, 0.9}, {0.1, 0.02, -0.03, 0.2, 0.05, 0.3}, {0.4, 0, 0}, "massless"));
  for (int i = 0; i < 6; i++) { Vec I(6, 0.0); I[i] = i == 0 || i == 3 || i == 5 ? 1.25 : -0.4; r.push_back(body(1, {0, 0, 0}, I, {0, 0, 0}, "I" + std::to_string(i))); }
  for (int i = 0; i < 3; i++) { Vec c(3, 0.0); c[i] = 0.6; r.push_back(body(2, c, {0, 0, 0, 0, 0, 0}, {0, 0, 0}, "c" + std::to_string(i))); }
  for (int i = 0; i < 3; i++) { Vec a(3, 0.0); a[i] = 0.7; spd(7, t); r.push_back(body(3, {0.1, 0.2, 0.3}, Vec(t, t + 6), a, "r" + std::to_string(i))); }
  r.push_back(body(1e4, {30, -20, 10}, {5e3, 1e2, -2e2, 6e3, 3e2, 7e3}, {0, 0, 0}, "big")); r.push_back(body(1e-5, {1e-4, -2e-4, 1e-3}, {1e-9, 2e-10, -1e-10, 2e-9, 3e-10, 1.5e-9}, {1, 2, 3}, "tiny"));
  (void)th; return r;
}
struct Frame { Vec d, rpy; };
static vector<Frame> frames(bool th) {
  vector<Frame> r = {{{0, 0, 0}, {0, 0, 0}}, {{0.3, -0.2, 0.5}, {0.4, -0.9, 1.7}}, {{-1.1, 0.7, 0.2}, {-2.5, 0.3, -0.8}}};
  for (int i = 0; i < 3; i++) { Vec d(3, 0.0), a(3, 0.0); d[i] = 0.8; r.push_back({d, {0, 0, 0}}); a[i] = 0.5; r.push_back({{0, 0, 0}, a}); a[i] = M_PI_2; r.push_back({d, a}); a[i] = -M_PI_2; r.push_back({{0, 0, 0}, a}); a[i] = M_PI; r.push_back({{0.1, 0.2, 0.3}, a}); }
  r.push_back({{0.1, 0.2, 0.3}, {0, M_PI_2, 1}}); r.push_back({{0.1, 0.2, 0.3}, {1, -M_PI_2, 0}}); r.push_back({{2, 3, -4}, {7, -8, 9}}); r.push_back({{0.5, 0.5, 0}, {0.6, 0, 0.6}});
  if (th) for (int k = 0; k < 12; k++) r.push_back({{gen(k, -1, 1), gen(k + 5, -1, 1), gen(k + 11, -1, 1)}, {gen(k + 2, -4, 4), gen(k + 7, -4, 4), gen(k + 13, -4, 4)}});
  return r;
}
static bool check_body(Ctx& x, const LinkProp& b, const M4& want, const string& what, const string& how) {
  double sc = std::max(1e-300, want.cwiseAbs().maxCoeff()); M4 got = pseudo(b); x.transition();
  if (b.parI.size() != 6 || b.xyz.size() != 3) { x.violation(what, how + ": wrong sizes"); return false; }
  if (!(std::abs(b.mass - want(3, 3)) <= 1e-13 * std::abs(want(3, 3)))) { x.violation(what + ": mass", how + "\n" + show(b) + "\nexpected mass " + num(want(3, 3))); return false; }
  if (!nearM(got.block<3, 1>(0, 3), want.block<3, 1>(0, 3), want.block<3, 1>(0, 3).cwiseAbs().maxCoeff() + 1e-4 * sc)) { x.violation(what + ": first moment", how + "\n" + show(b) + "\nexpected\n" + text(want) + "\ngot\n" + text(got)); return false; }
  if (!nearM(got, want, sc)) { x.violation(what + ": inertia", how + "\n" + show(b) + "\nexpected\n" + text(want) + "\ngot\n" + text(got)); return false; }
  return true;
}
static string fr(const Frame& f) { return "d=" + nums(f.d) + " rpy=" + nums(f.rpy); }

// sequences of operations on a working body; the reference is its pseudo-inertia
struct Op { int kind, k; };  // 0 transform by frame k into a new object, 1 transform in place, 2 merge with body k (working first), 3 merge (working second), 4 merge in place
struct Seq { vector<LinkProp> B; vector<Frame> F; vector<LinkProp> B0; };  // B0: bodies expressed in the common frame (axes aligned)
static void explore(Ctx& x, const Seq& s, const vector<Op>& al, const LinkProp& b, const M4& J, int depth, const string& how) {
  if (!depth) return;
  for (auto& o : al) {
    if (x.nviol > Ctx::MAXV) return;
    LinkProp w = b, nw; M4 nj; string h = how;
    if (o.kind < 2) { const Frame& f = s.F[o.k]; M4 T = rigid(f.d, f.rpy); nj = T * J * T.transpose(); h += (o.kind ? "; transformed in place by " : "; transformed by ") + fr(f);
      if (o.kind) { thunder_ns::transformBodyInertial(f.d, f.rpy, w, w); nw = w; } else { thunder_ns::transformBodyInertial(f.d, f.rpy, w, nw); if (nw.name != b.name) x.violation("transform: name", h + ": name '" + nw.name + "' instead of '" + b.name + "'"); }
    } else { const LinkProp& c = s.B0[o.k]; if (w.mass + c.mass == 0) continue; nj = J + pseudo(c); h += (o.kind == 3 ? "; merged into body " : "; merged with body ") + show(c);
      if (o.kind == 2) thunder_ns::mergeBodyInertial(w, c, nw); else if (o.kind == 3) thunder_ns::mergeBodyInertial(c, w, nw); else { thunder_ns::mergeBodyInertial(w, c, w); nw = w; } nw.name = b.name; }
    x.state(); if (!check_body(x, nw, nj, o.kind < 2 ? "transform" : "merge", h)) continue;
    explore(x, s, al, nw, nj, depth - 1, h);
  }
}

static vector<Case> make(bool th) {
  vector<Case> cs; Vec A = angles(th);
  for (double y : A) cs.push_back({"rotations with yaw " + num(y), [=](Ctx& x) {
    for (double p : A) for (double r : A) {
      M3 want = rot(r, p, y); x.state(); x.transition(); string at = "roll " + num(r) + " pitch " + num(p) + " yaw " + num(y);
      M3 got = thunder_ns::rpyRot({r, p, y}); if (!nearM(got, want, 1)) x.violation("rpyRot", at); if (std::abs(got.determinant() - 1) > 1e-11) x.violation("rpyRot: not a rotation", at);
#ifndef GENY
      auto dm = [](const casadi::SX& s) { Eigen::MatrixXd m(s.size1(), s.size2()); casadi::DM d = casadi::DM(casadi::SX::densify(s)); for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) m(i, j) = (double)d(i, j); return m; };
      if ((&p - &A[0]) % 3 == (&r - &A[0]) % 3 || &p - &A[0] > 23 || th) {  // FrameOffset: [yaw, pitch, roll]
        thunder_ns::FrameOffset f({y, p, r}, {0.3, -0.7, 1.1}, {1, 2, -9}); x.transition(3);
        M4 T = M4::Identity(); T.block<3, 3>(0, 0) = want; T.block<3, 1>(0, 3) = V3(0.3, -0.7, 1.1);
        if (!nearM(dm(f.get_rotation()), want, 1)) x.violation("FrameOffset::get_rotation", at); if (!nearM(dm(f.get_transform()), T, 1)) x.violation("FrameOffset::get_transform", at); if (!nearM(dm(f.get_translation()), V3(0.3, -0.7, 1.1), 1)) x.violation("FrameOffset::get_translation", at); if (f.get_ypr() != Vec{y, p, r}) x.violation("FrameOffset::get_ypr", at);
      }
#endif
    } }});
  cs.push_back({"tensors and cross products", [=](Ctx& x) {
    for (auto& b : bodies(th)) { x.state(); x.transition(); if (!nearM(thunder_ns::createI(b.parI), tensor(b.parI), 0)) x.violation("createI", nums(b.parI)); }
    for (int i = 0; i < 6; i++) { Vec v(6, 0.0); v[i] = 3; x.state(); x.transition(); if (!nearM(thunder_ns::createI(v), tensor(v), 0)) x.violation("createI", nums(v)); }
    for (double a : {0.0, 1.0, -2.5, 1e-7}) for (double b : {0.0, 3.0, -0.4}) for (double c : {0.0, -7.0, 0.9}) for (int k = 0; k < 3; k++) {
      V3 v(a, b, c), e = V3::Unit(k); x.state(); x.transition(); V3 want = v.cross(e); string at = nums({a, b, c}); M3 h = thunder_ns::hat(v);
      if (!nearM(h * e, want, 0)) x.violation("hat", at);
#ifndef GENY
      casadi::SX s = casadi::SX::zeros(3, 1); for (int i = 0; i < 3; i++) s(i) = v(i); thunder_ns::FrameOffset f; vector<casadi::SX> hs = {thunder_ns::hat(s), f.hat({a, b, c})};
      for (auto& H : hs) for (int i = 0; i < 3; i++) if ((double)casadi::DM(casadi::SX::densify(H))(i, k) != want(i)) x.violation("symbolic hat", at);
#endif
    } }});
#ifndef GENY
  cs.push_back({"FrameOffset as a state machine", [=](Ctx& x) {
    struct S { Vec y, t, g; }; vector<Vec> V = {{0.1, -0.2, 0.3}, {-1.4, 2.5, 0.7}}; auto dm = [](const casadi::SX& s) { Vec r; casadi::DM d = casadi::DM(casadi::SX::densify(s)); for (int i = 0; i < d.size1(); i++) r.push_back((double)d(i)); return r; };
    auto chk = [&](thunder_ns::FrameOffset f, const S& s, const string& how) { x.state(); x.transition(4); if (f.get_ypr() != s.y || dm(f.get_translation()) != s.t || dm(f.get_gravity()) != s.g) x.violation("FrameOffset getters", how); M4 T = M4::Identity(); T.block<3, 3>(0, 0) = rot(s.y[2], s.y[1], s.y[0]); for (int i = 0; i < 3; i++) T(i, 3) = s.t[i]; casadi::DM d = casadi::DM(casadi::SX::densify(f.get_transform())), r = casadi::DM(casadi::SX::densify(f.get_rotation())); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { if (std::abs((double)d(i, j) - T(i, j)) > 1e-12) x.violation("FrameOffset transform", how); if (i < 3 && j < 3 && std::abs((double)r(i, j) - T(i, j)) > 1e-12) x.violation("FrameOffset rotation", how); } };
    std::function<void(thunder_ns::FrameOffset, S, int, string)> go = [&](thunder_ns::FrameOffset f, S s, int d, string how) { chk(f, s, how); if (!d) return; for (int w = 0; w < 3; w++) for (auto& v : V) { auto g = f; S t = s; if (w == 0) g.set_ypr(v), t.y = v; if (w == 1) g.set_translation(v), t.t = v; if (w == 2) g.set_gravity(v), t.g = v; go(g, t, d - 1, how + "; set " + "ytg"[w] + nums(v)); } };
    Vec z = {0, 0, 0}, a = {0.5, 0.6, 0.7}, b = {1, 2, 3}, c = {0, 0, -9.81}; int D = th ? 5 : 4;
    go(thunder_ns::FrameOffset(), {z, z, z}, D, "empty"); go(thunder_ns::FrameOffset(a, b), {a, b, z}, D, "two arguments"); go(thunder_ns::FrameOffset(a, b, c), {a, b, c}, D, "three arguments");
    for (int w = 0; w < 3; w++) for (int n : {0, 2, 4}) { Vec v[3] = {a, b, c}; v[w].resize(n); x.state(); x.transition(); bool e = false; try { thunder_ns::FrameOffset f(v[0], v[1], v[2]); } catch (const std::exception&) { e = true; } if (!e) x.violation("FrameOffset accepts wrong sizes", std::to_string(w)); if (w < 2) { e = false; try { thunder_ns::FrameOffset f(v[0], v[1]); } catch (const std::exception&) { e = true; } if (!e) x.violation("FrameOffset accepts wrong sizes", std::to_string(w)); } }
  }});
#endif
  auto B = bodies(th); auto F = frames(th);
  auto seq = std::make_shared<Seq>(); seq->B = B; seq->F = F; for (auto b : B) { M3 R = rot(b.rpy[0], b.rpy[1], b.rpy[2]); M3 I = R * tensor(b.parI) * R.transpose(); b.parI = {I(0, 0), I(0, 1), I(0, 2), I(1, 1), I(1, 2), I(2, 2)}; b.rpy = {0, 0, 0}; seq->B0.push_back(b); }
  // every body x every frame, every pair of bodies
  for (size_t i = 0; i < B.size(); i++) cs.push_back({"transforms of body " + B[i].name, [=](Ctx& x) { vector<Op> al; for (size_t k = 0; k < F.size(); k++) for (int d : {0, 1}) al.push_back({d, (int)k}); x.trace(); explore(x, *seq, al, B[i], pseudo(B[i]), 2, show(B[i])); }});
  for (size_t i = 0; i < B.size(); i++) cs.push_back({"merges of body " + B[i].name, [=](Ctx& x) { vector<Op> al; for (size_t k = 0; k < B.size(); k++) for (int d : {2, 3, 4}) al.push_back({d, (int)k}); LinkProp b = seq->B0[i]; x.trace(); explore(x, *seq, al, b, pseudo(b), 2, show(b)); }});
  // mixed sequences: three bodies, a few frames, all operations
  for (int i : {0, 1, 4, 5}) cs.push_back({"operation sequences from body " + B[i].name, [=](Ctx& x) { vector<Op> al; for (int k : {1, 2, 6}) for (int d : {0, 1}) al.push_back({d, k}); for (int k : {0, 2, 4}) for (int d : {2, 3, 4}) al.push_back({d, k}); x.trace();
    // the first step aligns the axes of the body with the frame, as merging requires
    for (int k : {0, 1, 9}) { LinkProp w; const Frame& f = F[k]; thunder_ns::transformBodyInertial(f.d, f.rpy, B[i], w); M4 T = rigid(f.d, f.rpy), J = T * pseudo(B[i]) * T.transpose(); if (check_body(x, w, J, "transform", show(B[i]) + "; " + fr(f))) explore(x, *seq, al, w, J, th ? 5 : 4, show(B[i]) + "; " + fr(f)); } }});
#ifdef GENY
  // the program: files of link inertias in the axes of the URDF links -> files in the Denavit-Hartenberg frames it documents
  struct Var { string name; vector<LinkProp> L; bool rev; };
  auto vars = std::make_shared<vector<Var>>(); vector<LinkProp> base; double t[6];
  for (int k = 0; k < 8; k++) { spd(k, t); base.push_back(body(gen(k, 0.5, 4), {gen(k + 3, -0.3, 0.3), gen(k + 9, -0.3, 0.3), gen(k + 17, -0.3, 0.3)}, Vec(t, t + 6), {0, 0, 0}, "link" + std::to_string(k))); }
  vars->push_back({"generic", base, false}); vars->push_back({"generic, keys in another order", base, true});
  { auto l = base; for (int k = 1; k < 8; k++) l[k].rpy = {gen(k, -3, 3), gen(k + 2, -3, 3), gen(k + 4, -3, 3)}; vars->push_back({"with orientations", l, false}); vars->push_back({"with orientations, keys in another order", l, true}); auto e = l; e.push_back(e[1]); e.back().name = "hand"; vars->push_back({"with a hand", e, false}); for (auto& b : l) b.name = "arm_" + b.name; vars->push_back({"other names", l, false}); }
  for (int k = 0; k < 8; k++) for (int e = 0; e < 13; e++) for (double a : {0.0, -0.7351}) { if ((e == 0 || e > 9) && a == 0) continue; auto l = base; auto& b = l[k]; if (e == 0) b.mass = 7.25; else if (e < 4) b.xyz[e - 1] = a; else if (e < 10) b.parI[e - 4] = a; else b.rpy[e - 10] = a; if (!th && k == 0 && e % 3) continue; vars->push_back({"link " + std::to_string(k) + " entry " + std::to_string(e) + " = " + num(a), l, false}); }
  for (double s : {1e-6, 1e5}) { auto l = base; for (auto& b : l) { b.mass *= s; for (auto& i : b.parI) i *= s * s; for (auto& c : b.xyz) c /= s; } vars->push_back({"scaled " + num(s), l, false}); }
  for (size_t o = 0; o < vars->size(); o += 8) cs.push_back({"genYAML program, inputs from " + (*vars)[o].name, [=](Ctx& x) {
    for (size_t v = o; v < std::min(vars->size(), o + 8); v++) {
      const Var& w = (*vars)[v]; string d = x.tmp("run" + std::to_string(v)); mkdir(d.c_str(), 0755); for (auto s : {"/prog", "/generatedFiles", "/prog/yaml"}) mkdir((d + s).c_str(), 0755);
      std::ostringstream y; for (auto& b : w.L) { string org = "  origin:\n    xyz: " + num(b.xyz[0]) + " " + num(b.xyz[1]) + "  " + num(b.xyz[2]) + "\n    rpy: " + num(b.rpy[0]) + " " + num(b.rpy[1]) + " " + num(b.rpy[2]) + "\n", mass = "  mass: " + num(b.mass) + "\n"; const char* nm[] = {"xx", "xy", "xz", "yy", "yz", "zz"}; string in = "  inertia:\n"; for (int q = 0; q < 6; q++) { int k = w.rev ? 5 - q : q; in += string("    ") + nm[k] + ": " + num(b.parI[k]) + "\n"; } y << b.name << ":\n" << (w.rev ? in + mass + org : org + mass + in); }
      spit(d + "/prog/yaml/inertial.yaml", y.str()); for (auto& file : {"DH", "DH_DYN", "DH_REG", "DH_REG_p2", "DH_REG_p5", "DH_REG_p10", "DH_REG_p20"}) occupied(d + "/generatedFiles/inertial_" + file + ".yaml"); fflush(stdout); pid_t p = fork(); if (!p) { if (chdir((d + "/prog").c_str())) _exit(9); execl(getenv("MC_GENYAML"), "main_YAML", (char*)0); _exit(9); } int st = 0; waitpid(p, &st, 0); x.trace(); x.state();
      auto bad = [&](const string& a, const string& b) { x.violation("genYAML: " + a, b + "\ninput " + w.name + "\n" + y.str()); };
      if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad("program fails", "status " + std::to_string(st)); continue; }
      // documented table: rows a, alpha, d; the URDF frame of link i is the one before Trans_x(a) Rot_x(alpha) (and Trans_z(d) for the last one)
      static const double a[7] = {0, 0, 0.0825, -0.0825, 0, 0.088, 0}, al[7] = {-M_PI_2, M_PI_2, M_PI_2, -M_PI_2, M_PI_2, M_PI_2, 0};
      for (auto& file : {string("inertial_DH"), string("inertial_DH_DYN"), string("inertial_DH_REG"), string("inertial_DH_REG_p2"), string("inertial_DH_REG_p5"), string("inertial_DH_REG_p10"), string("inertial_DH_REG_p20")}) {
        bool reg = file.find("REG") != string::npos; vector<YAML::Node> docs; vector<string> names; vector<YAML::Node> nodes; x.transition();
        try { for (auto doc : YAML::LoadAllFromFile(d + "/generatedFiles/" + file + ".yaml")) for (auto l : doc) { names.push_back(l.first.as<string>()); nodes.push_back(l.second); } } catch (const std::exception& e) { bad(file, e.what()); continue; }
        if (names.size() != 7) { bad(file, std::to_string(names.size()) + " links"); continue; }
        for (int i = 0; i < 7; i++) {
          const LinkProp& b = w.L[i + 1]; if (names[i] != b.name) { bad(file + ": names", names[i] + " instead of " + b.name); break; }
          M4 U = M4::Identity(); U.block<3, 3>(0, 0) = el(0, al[i]); U(0, 3) = a[i]; if (i == 6) U(2, 3) = 0.107; M4 T = M4(U.inverse()), J = T * pseudo(b) * T.transpose();
          LinkProp g; V3 fm; try { auto N = nodes[i]; string k = reg ? "m_CoM_" : "CoM_"; g.mass = N["mass"].as<double>(); g.xyz = {N[k + "x"].as<double>(), N[k + "y"].as<double>(), N[k + "z"].as<double>()}; g.parI = {N["Ixx"].as<double>(), N["Ixy"].as<double>(), N["Ixz"].as<double>(), N["Iyy"].as<double>(), N["Iyz"].as<double>(), N["Izz"].as<double>()}; } catch (const std::exception& e) { bad(file, e.what()); break; }
          if (file.find("_p") != string::npos) continue;  // randomly perturbed values
          if (reg) { M3 IO = tensor(g.parI); g.mass = g.mass; M3 S = 0.5 * IO.trace() * M3::Identity() - IO; M4 G; G.block<3, 3>(0, 0) = S; for (int q = 0; q < 3; q++) G(q, 3) = G(3, q) = g.xyz[q]; G(3, 3) = g.mass; if (!nearM(G, J, J.cwiseAbs().maxCoeff())) { bad(file, "link " + b.name + "\n" + text(G) + "\nexpected\n" + text(J)); break; } }
          else { g.rpy = {0, 0, 0}; if (!check_body(x, g, J, "genYAML: " + file, "link " + b.name + " input " + w.name)) break; }
        }
      }
    } }});
#endif
  return cs;
}
int main(int argc, char** argv) { return run(argc, argv, make); }
