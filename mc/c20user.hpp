// User-defined functions described by text, built as expressions on the model and evaluated by a reference.
#pragma once
#include "common.hpp"
#include "robot.h"
#include "userDefined.h"
namespace mc {
struct UF {  // name|arg,arg|rows|cols|kind|overwrite|description
  string name; vector<string> args; int r = 1, c = 1, kind = 0; int ow = 1; string descr = "d";
  string text() const { string a; for (auto& x : args) a += (a.empty() ? "" : ",") + x; return name + "|" + a + "|" + std::to_string(r) + "|" + std::to_string(c) + "|" + std::to_string(kind) + "|" + std::to_string(ow) + "|" + descr; }
  static UF parse(const string& s) { UF u; vector<string> p; string t; for (char ch : s + "|") if (ch == '|') { p.push_back(t); t = ""; } else t += ch; u.name = p[0]; u.args = split(p[1]); u.r = atoi(p[2].c_str()); u.c = atoi(p[3].c_str()); u.kind = atoi(p[4].c_str()); u.ow = atoi(p[5].c_str()); u.descr = p[6]; return u; }
};
// kinds: 0 sums of weighted terms, 1 the same with structural zeros, 2 products of neighbours, 3 constant, 4 like 0 plus model functions, 5 only the first argument is used, 6 whole thing structurally zero
inline double wgt(const UF& u, int i, int j, const string& arg, int l, int which) { uint64_t h = hash_str(u.name + "#" + arg); return gen((int)((h % 911) + 7 * i + 13 * j + 29 * l + 101 * which), 0.2, 1.7); }
inline bool zero_entry(const UF& u, int i, int j) { return u.kind == 6 || (u.kind == 1 && (i + 2 * j) % 3 != 1 && u.r * u.c > 1); }
template <class T> T ssin(const T& x) { using std::sin; return sin(x); }
// value of one entry; in: per argument the used entries with their full index
template <class T> T uf_entry(const UF& u, int i, int j, const vector<vector<std::pair<int, T>>>& in) {
  T r = T(wgt(u, i, j, "const", 0, 0)); if (u.kind == 3) return r; T prev = T(1.0);
  for (size_t a = 0; a < in.size(); a++) { if (u.kind == 5 && a) break; for (auto& e : in[a]) { const T& x = e.second; if (u.kind == 2) { r = r + T(wgt(u, i, j, u.args[a], e.first, 0)) * x * prev; prev = x; } else r = r + T(wgt(u, i, j, u.args[a], e.first, 0)) * x + T(wgt(u, i, j, u.args[a], e.first, 1)) * ssin(x); } }
  return r;
}
static const vector<std::pair<string, string>> UF_MODEL = {{"M", "0"}, {"T_0_ee", "12"}, {"G", "0"}};  // functions used by kind 4 and the entry (column-major)
struct UserCtx { bool during = true; };
inline casadi::SX uf_expr(thunder_ns::Robot& r, const UF& u, const map<string, vector<int>>& mask, bool during) {
  vector<vector<std::pair<int, casadi::SX>>> in;
  for (auto& a : u.args) { vector<std::pair<int, casadi::SX>> v; const casadi::SX& m = r.model[a]; if (mask.count(a)) { const auto& k = mask.at(a); if (during) for (size_t i = 0; i < k.size(); i++) v.push_back({(int)i, m((int)i)}); else { int p = 0; for (size_t i = 0; i < k.size(); i++) if (k[i]) v.push_back({(int)i, m(p++)}); } } else for (int i = 0; i < m.size1(); i++) v.push_back({i, m(i)}); in.push_back(v); }
  casadi::SX e(u.r, u.c); casadi::SX add = 0; if (u.kind == 4) for (auto& f : UF_MODEL) { const casadi::SX& F = r.model[f.first]; add = add + casadi::SX::densify(F)(atoi(f.second.c_str())); }
  for (int i = 0; i < u.r; i++) for (int j = 0; j < u.c; j++) if (!zero_entry(u, i, j)) { casadi::SX v = uf_entry<casadi::SX>(u, i, j, in); if (u.kind == 4) v = v + (i + 1) * add; e(i, j) = v; }
  return e;
}
inline vector<string> uf_args(thunder_ns::Robot& r, const UF& u) { vector<string> a = u.args; if (u.kind == 4) for (auto& f : r.get_functions()) for (auto& g : UF_MODEL) if (f.name == g.first) for (auto& x : f.args) if (std::find(a.begin(), a.end(), x) == a.end()) a.push_back(x); return a; }
inline int uf_add(thunder_ns::Robot& r, const UF& u, const map<string, vector<int>>& mask, bool during) { auto a = uf_args(r, u); return r.add_function(u.name, uf_expr(r, u, mask, during), a, u.descr, u.ow != 0); }
// reference value; model: values of the functions kind 4 needs
inline ref::Mat<double> uf_value(const UF& u, const Cfg& c, const State& s, bool during, const std::function<double(const string&, int)>& model) {
  vector<vector<std::pair<int, double>>> in; for (auto& a : u.args) { vector<std::pair<int, double>> v; if (c.mask.count(a)) { Vec x = eff(c, s, a); for (size_t i = 0; i < x.size(); i++) if (during || c.mask.at(a)[i]) v.push_back({(int)i, x[i]}); } else { const Vec& x = s.at(a); for (size_t i = 0; i < x.size(); i++) v.push_back({(int)i, x[i]}); } in.push_back(v); }
  double add = 0; if (u.kind == 4) for (auto& f : UF_MODEL) add += model(f.first, atoi(f.second.c_str()));
  ref::Mat<double> m(u.r, u.c); for (int i = 0; i < u.r; i++) for (int j = 0; j < u.c; j++) m(i, j) = zero_entry(u, i, j) ? 0 : uf_entry<double>(u, i, j, in) + (u.kind == 4 ? (i + 1) * add : 0); return m;
}
inline map<string, vector<int>> masks_of(thunder_ns::Robot& r) { map<string, vector<int>> m; for (auto& p : PARS) if (r.symb.count(p)) m[p] = r.symb[p]; return m; }
}  // namespace mc
