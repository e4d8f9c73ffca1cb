// Reference rigid-body mechanics, from first principles, over a generic scalar.
//
// The only ingredients are: elementary 4x4 transforms multiplied in the modified-DH order, the
// definition of velocity as derivative of position / of rotation matrices, kinetic and potential
// energy, and Lagrange's equations.  Derivatives are exact: forward-mode dual numbers (d/dq) and
// truncated Taylor series (d/dt along a trajectory).
#pragma once
#include <array>
#include <cmath>
#include <string>
#include <vector>

namespace ref {

// ---------- scalars ----------
template <class T> struct Dual { T v, d; Dual() : v(0.0), d(0.0) {} Dual(double x) : v(x), d(0.0) {} Dual(T a, T b) : v(a), d(b) {} };
template <> struct Dual<double> { double v, d; Dual() : v(0), d(0) {} Dual(double x) : v(x), d(0) {} Dual(double a, double b) : v(a), d(b) {} };
template <class T> Dual<T> operator+(const Dual<T>& a, const Dual<T>& b) { return {a.v + b.v, a.d + b.d}; }
template <class T> Dual<T> operator-(const Dual<T>& a, const Dual<T>& b) { return {a.v - b.v, a.d - b.d}; }
template <class T> Dual<T> operator-(const Dual<T>& a) { return {-a.v, -a.d}; }
template <class T> Dual<T> operator*(const Dual<T>& a, const Dual<T>& b) { return {a.v * b.v, a.v * b.d + a.d * b.v}; }
// truncated Taylor series: sum c[k] t^k, k<N
constexpr int NT = 4;
struct Jet { std::array<double, NT> c{}; Jet() {} Jet(double x) { c[0] = x; } };
inline Jet operator+(const Jet& a, const Jet& b) { Jet r; for (int k = 0; k < NT; k++) r.c[k] = a.c[k] + b.c[k]; return r; }
inline Jet operator-(const Jet& a, const Jet& b) { Jet r; for (int k = 0; k < NT; k++) r.c[k] = a.c[k] - b.c[k]; return r; }
inline Jet operator-(const Jet& a) { Jet r; for (int k = 0; k < NT; k++) r.c[k] = -a.c[k]; return r; }
inline Jet operator*(const Jet& a, const Jet& b) { Jet r; for (int i = 0; i < NT; i++) for (int j = 0; i + j < NT; j++) r.c[i + j] += a.c[i] * b.c[j]; return r; }
inline void sincos_(double x, double& s, double& c) { s = std::sin(x); c = std::cos(x); }
inline void sincos_(const Jet& x, Jet& s, Jet& c) {
  s = Jet(std::sin(x.c[0])); c = Jet(std::cos(x.c[0]));
  for (int k = 1; k < NT; k++) { double a = 0, b = 0; for (int j = 1; j <= k; j++) { a += j * x.c[j] * c.c[k - j]; b += j * x.c[j] * s.c[k - j]; } s.c[k] = a / k; c.c[k] = -b / k; }
}
template <class T> void sincos_(const Dual<T>& x, Dual<T>& s, Dual<T>& c) { T a, b; sincos_(x.v, a, b); s = Dual<T>(a, b * x.d); c = Dual<T>(b, -a * x.d); }

// ---------- small matrices ----------
template <class S> struct M3 { S a[3][3]; };
template <class S> struct V3 { S a[3]; };
template <class S> struct M4 { S a[4][4]; };
template <class S> M4<S> eye4() { M4<S> r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.a[i][j] = S(i == j ? 1.0 : 0.0); return r; }
template <class S> M4<S> operator*(const M4<S>& x, const M4<S>& y) { M4<S> r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { S s(0.0); for (int k = 0; k < 4; k++) s = s + x.a[i][k] * y.a[k][j]; r.a[i][j] = s; } return r; }
template <class S> M3<S> operator*(const M3<S>& x, const M3<S>& y) { M3<S> r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { S s(0.0); for (int k = 0; k < 3; k++) s = s + x.a[i][k] * y.a[k][j]; r.a[i][j] = s; } return r; }
template <class S> V3<S> operator*(const M3<S>& x, const V3<S>& y) { V3<S> r; for (int i = 0; i < 3; i++) { S s(0.0); for (int k = 0; k < 3; k++) s = s + x.a[i][k] * y.a[k]; r.a[i] = s; } return r; }
template <class S> M3<S> tr(const M3<S>& x) { M3<S> r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.a[i][j] = x.a[j][i]; return r; }
template <class S> M4<S> transl(S x, S y, S z) { auto r = eye4<S>(); r.a[0][3] = x; r.a[1][3] = y; r.a[2][3] = z; return r; }
template <class S> M4<S> rotx(S t) { S s, c; sincos_(t, s, c); auto r = eye4<S>(); r.a[1][1] = c; r.a[1][2] = -s; r.a[2][1] = s; r.a[2][2] = c; return r; }
template <class S> M4<S> roty(S t) { S s, c; sincos_(t, s, c); auto r = eye4<S>(); r.a[0][0] = c; r.a[0][2] = s; r.a[2][0] = -s; r.a[2][2] = c; return r; }
template <class S> M4<S> rotz(S t) { S s, c; sincos_(t, s, c); auto r = eye4<S>(); r.a[0][0] = c; r.a[0][1] = -s; r.a[1][0] = s; r.a[1][1] = c; return r; }
template <class S> M4<S> frame6(const std::vector<S>& f) { return transl<S>(f[0], f[1], f[2]) * rotz<S>(f[3]) * roty<S>(f[4]) * rotx<S>(f[5]); }
template <class S> V3<S> pos(const M4<S>& T) { return {{T.a[0][3], T.a[1][3], T.a[2][3]}}; }
template <class S> M3<S> rot(const M4<S>& T) { M3<S> r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.a[i][j] = T.a[i][j]; return r; }
template <class S> V3<S> point(const M4<S>& T, const V3<S>& c) { V3<S> r = pos(T); V3<S> d = rot(T) * c; for (int i = 0; i < 3; i++) r.a[i] = r.a[i] + d.a[i]; return r; }

// dense column-major matrix
template <class S> struct Mat { int r = 0, c = 0; std::vector<S> x; Mat() {} Mat(int R, int C) : r(R), c(C), x((size_t)R * C, S(0.0)) {} S& operator()(int i, int j) { return x[(size_t)j * r + i]; } const S& operator()(int i, int j) const { return x[(size_t)j * r + i]; } };

// ---------- a chain ----------
// all parameters as scalars of type S so that they can be differentiated too
template <class S> struct Chain {
  int n = 0;
  std::vector<char> prism;              // per joint
  std::vector<S> dh, base, ee, grav;    // 4n, 6, 6, 3
  std::vector<S> dyn;                   // 10n (m, c, I_c)
};
template <class S2, class S> Chain<S2> lift(const Chain<S>& c) {
  Chain<S2> r; r.n = c.n; r.prism = c.prism;
  auto f = [](const std::vector<S>& a) { std::vector<S2> b; for (auto& x : a) b.push_back(S2(x, S(0.0))); return b; };
  r.dh = f(c.dh); r.base = f(c.base); r.ee = f(c.ee); r.grav = f(c.grav); r.dyn = f(c.dyn); return r;
}
template <class S> M4<S> rel(const Chain<S>& c, const std::vector<S>& q, int i) {
  S a = c.dh[4 * i], al = c.dh[4 * i + 1], d = c.dh[4 * i + 2], th = c.dh[4 * i + 3];
  if (c.prism[i]) d = d + q[i]; else th = th + q[i];
  return transl<S>(a, S(0.0), S(0.0)) * rotx<S>(al) * transl<S>(S(0.0), S(0.0), d) * rotz<S>(th);
}
// absolute transforms 0..n, and n+1 = end effector
template <class S> std::vector<M4<S>> frames(const Chain<S>& c, const std::vector<S>& q) {
  std::vector<M4<S>> T; T.push_back(frame6<S>(c.base));
  for (int i = 0; i < c.n; i++) T.push_back(T.back() * rel(c, q, i));
  T.push_back(T.back() * frame6<S>(c.ee));
  return T;
}
template <class S> std::vector<Dual<S>> seed(const std::vector<S>& q, int j) { std::vector<Dual<S>> r; for (size_t k = 0; k < q.size(); k++) r.push_back(Dual<S>(q[k], S((int)k == j ? 1.0 : 0.0))); return r; }
template <class S> void angvel(const M3<S>& R, const M3<S>& dR, S w[3]) { M3<S> W = dR * tr(R); w[0] = W.a[2][1]; w[1] = W.a[0][2]; w[2] = W.a[1][0]; }
// twists of several (frame k, point p in frame k) pairs: 6 x n matrices
template <class S> std::vector<Mat<S>> jacobians(const Chain<S>& c, const std::vector<S>& q, const std::vector<std::pair<int, V3<S>>>& pts) {
  std::vector<Mat<S>> J(pts.size(), Mat<S>(6, c.n));
  auto cd = lift<Dual<S>>(c);
  for (int j = 0; j < c.n; j++) {
    auto T = frames(cd, seed(q, j));
    for (size_t p = 0; p < pts.size(); p++) {
      const auto& Tk = T[pts[p].first];
      V3<Dual<S>> loc; for (int i = 0; i < 3; i++) loc.a[i] = Dual<S>(pts[p].second.a[i], S(0.0));
      auto x = point(Tk, loc);
      M3<S> R, dR; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) { R.a[i][k] = Tk.a[i][k].v; dR.a[i][k] = Tk.a[i][k].d; }
      S w[3]; angvel(R, dR, w);
      for (int i = 0; i < 3; i++) { J[p](i, j) = x.a[i].d; J[p](3 + i, j) = w[i]; }
    }
  }
  return J;
}
template <class S> V3<S> zero3() { return {{S(0.0), S(0.0), S(0.0)}}; }
template <class S> Mat<S> jac_ee(const Chain<S>& c, const std::vector<S>& q) { return jacobians<S>(c, q, {{c.n + 1, zero3<S>()}})[0]; }
template <class S> M3<S> sym3(const S* I) { M3<S> r; r.a[0][0] = I[0]; r.a[0][1] = r.a[1][0] = I[1]; r.a[0][2] = r.a[2][0] = I[2]; r.a[1][1] = I[3]; r.a[1][2] = r.a[2][1] = I[4]; r.a[2][2] = I[5]; return r; }
// kinetic-energy matrix: sum over links of m |v_com|^2 + w' R I R' w
template <class S> Mat<S> massM(const Chain<S>& c, const std::vector<S>& q) {
  std::vector<std::pair<int, V3<S>>> pts; for (int i = 0; i < c.n; i++) pts.push_back({i + 1, V3<S>{{c.dyn[10 * i + 1], c.dyn[10 * i + 2], c.dyn[10 * i + 3]}}});
  auto J = jacobians(c, q, pts); auto T = frames(c, q);
  Mat<S> M(c.n, c.n);
  for (int i = 0; i < c.n; i++) {
    auto R = rot(T[i + 1]); auto I = R * (sym3<S>(&c.dyn[10 * i + 4]) * tr(R));
    for (int a = 0; a < c.n; a++) {
      S Iw[3]; for (int r = 0; r < 3; r++) { Iw[r] = S(0.0); for (int k = 0; k < 3; k++) Iw[r] = Iw[r] + I.a[r][k] * J[i](3 + k, a); }
      for (int b = 0; b < c.n; b++) { S s(0.0), w(0.0); for (int r = 0; r < 3; r++) { s = s + J[i](r, a) * J[i](r, b); w = w + Iw[r] * J[i](3 + r, b); } M(a, b) = M(a, b) + c.dyn[10 * i] * s + w; }
    }
  }
  return M;
}
template <class S> S potential(const Chain<S>& c, const std::vector<S>& q) {
  auto T = frames(c, q); S U(0.0);
  for (int i = 0; i < c.n; i++) { auto p = point(T[i + 1], V3<S>{{c.dyn[10 * i + 1], c.dyn[10 * i + 2], c.dyn[10 * i + 3]}}); S s(0.0); for (int k = 0; k < 3; k++) s = s + c.grav[k] * p.a[k]; U = U - c.dyn[10 * i] * s; }
  return U;
}
template <class S> std::vector<Mat<S>> dM(const Chain<S>& c, const std::vector<S>& q) {
  std::vector<Mat<S>> r; auto cd = lift<Dual<S>>(c);
  for (int k = 0; k < c.n; k++) { auto m = massM(cd, seed(q, k)); Mat<S> d(c.n, c.n); for (size_t i = 0; i < d.x.size(); i++) d.x[i] = m.x[i].d; r.push_back(d); }
  return r;
}
// Christoffel: C_ij = sum_k 1/2 (dM_ij/dq_k + dM_ik/dq_j - dM_jk/dq_i) dq_k
template <class S> Mat<S> christoffel(const std::vector<Mat<S>>& d, const std::vector<S>& dq) {
  int n = (int)dq.size(); Mat<S> C(n, n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { S s(0.0); for (int k = 0; k < n; k++) s = s + (d[k](i, j) + d[j](i, k) - d[i](j, k)) * dq[k]; C(i, j) = S(0.5) * s; }
  return C;
}
template <class S> Mat<S> corC(const Chain<S>& c, const std::vector<S>& q, const std::vector<S>& dq) { return christoffel(dM(c, q), dq); }
template <class S> Mat<S> gravG(const Chain<S>& c, const std::vector<S>& q) {
  Mat<S> G(c.n, 1); auto cd = lift<Dual<S>>(c);
  for (int j = 0; j < c.n; j++) G(j, 0) = potential(cd, seed(q, j)).d;
  return G;
}
// ---- the same in the regressor parametrisation, per unit parameter (linear in the parameters) ----
// link i, parameter l: l=0 mass, 1..3 first moment (link frame), 4..9 inertia about the link origin
template <class S> Mat<S> massUnit(const Chain<S>& c, const std::vector<S>& q, int i, int l) {
  auto J = jacobians<S>(c, q, {{i + 1, zero3<S>()}})[0]; auto T = frames(c, q); auto R = rot(T[i + 1]);
  Mat<S> M(c.n, c.n);
  for (int a = 0; a < c.n; a++) for (int b = 0; b < c.n; b++) {
    S s(0.0);
    if (l == 0) { for (int k = 0; k < 3; k++) s = s + J(k, a) * J(k, b); }
    else if (l < 4) {  // v_a . (w_b x Re) + v_b . (w_a x Re)
      S e[3]; for (int k = 0; k < 3; k++) e[k] = R.a[k][l - 1];
      for (int t = 0; t < 2; t++) { int p = t ? b : a, r = t ? a : b;
        S x = J(4, r) * e[2] - J(5, r) * e[1], y = J(5, r) * e[0] - J(3, r) * e[2], z = J(3, r) * e[1] - J(4, r) * e[0];
        s = s + J(0, p) * x + J(1, p) * y + J(2, p) * z; }
    } else {
      S I[6]; for (int k = 0; k < 6; k++) I[k] = S(k == l - 4 ? 1.0 : 0.0);
      auto W = R * (sym3<S>(I) * tr(R));
      for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) s = s + J(3 + x, a) * W.a[x][y] * J(3 + y, b);
    }
    M(a, b) = s;
  }
  return M;
}
template <class S> S potentialUnit(const Chain<S>& c, const std::vector<S>& q, int i, int l) {
  auto T = frames(c, q); S U(0.0);
  if (l == 0) for (int k = 0; k < 3; k++) U = U - c.grav[k] * T[i + 1].a[k][3];
  else if (l < 4) for (int k = 0; k < 3; k++) U = U - c.grav[k] * T[i + 1].a[k][l - 1];
  return U;
}

// ---------- conversions and laws ----------
inline void dyn2reg(const double* d, double* r) {
  double m = d[0], x = d[1], y = d[2], z = d[3];
  r[0] = m; r[1] = m * x; r[2] = m * y; r[3] = m * z;
  r[4] = d[4] + m * (y * y + z * z); r[5] = d[5] - m * x * y; r[6] = d[6] - m * x * z;
  r[7] = d[7] + m * (x * x + z * z); r[8] = d[8] - m * y * z; r[9] = d[9] + m * (x * x + y * y);
}
inline void reg2dyn(const double* r, double* d) {
  double m = r[0], x = r[1] / m, y = r[2] / m, z = r[3] / m;
  d[0] = m; d[1] = x; d[2] = y; d[3] = z;
  d[4] = r[4] - m * (y * y + z * z); d[5] = r[5] + m * x * y; d[6] = r[6] + m * x * z;
  d[7] = r[7] - m * (x * x + z * z); d[8] = r[8] + m * y * z; d[9] = r[9] - m * (x * x + y * y);
}
// friction term of order o (0-based): v*|v|^o
inline double fric(double v, int o) { double r = v; for (int i = 0; i < o; i++) r *= (o % 2 ? std::fabs(v) : v); return r; }
inline double spring(double v, int o) { double r = v; for (int i = 0; i < o; i++) r *= v * v; return r; }

}  // namespace ref
