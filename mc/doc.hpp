// Configurations as trees of keys, and the comparison of two robots.
#pragma once
#include "model.hpp"
namespace mc {
using ref::Mat;
struct Doc { string key, val; vector<Doc> kids; };  // leaf: kids empty and val set
inline void emit(const Doc& d, int ind, string& o) { for (auto& k : d.kids) { o += string(ind, ' ') + k.key + ":"; if (k.kids.empty()) o += " " + k.val + "\n"; else { o += "\n"; emit(k, ind + 2, o); } } }
inline string text(const Doc& d) { string o; emit(d, 0, o); return o; }
// parse the block-style text that mc::yaml writes
inline Doc parse(const string& s) {
  Doc root; vector<std::pair<int, Doc*>> st = {{-1, &root}}; std::stringstream ss(s); string l;
  struct Line { int ind; string k, v; }; vector<Line> ls;
  while (std::getline(ss, l)) { size_t i = l.find_first_not_of(' '); if (i == string::npos) continue; size_t c = l.find(':'); string v = l.substr(c + 1); size_t b = v.find_first_not_of(' '); ls.push_back({(int)i, l.substr(i, c - i), b == string::npos ? "" : v.substr(b)}); }
  std::function<size_t(size_t, int, Doc&)> rec = [&](size_t i, int ind, Doc& d) { while (i < ls.size() && ls[i].ind == ind) { Doc k{ls[i].k, ls[i].v, {}}; size_t j = i + 1; if (j < ls.size() && ls[j].ind > ind) j = rec(j, ls[j].ind, k); d.kids.push_back(k); i = j; } return i; };
  rec(0, 0, root); return root;
}
inline Doc* at(Doc& d, const string& path) { Doc* p = &d; for (auto& k : split(path, '/')) { Doc* n = nullptr; for (auto& x : p->kids) if (x.key == k) n = &x; if (!n) return nullptr; p = n; } return p; }
inline void drop(Doc& d, const string& path) { size_t c = path.rfind('/'); Doc* p = c == string::npos ? &d : at(d, path.substr(0, c)); string k = c == string::npos ? path : path.substr(c + 1); for (size_t i = 0; i < p->kids.size(); i++) if (p->kids[i].key == k) { p->kids.erase(p->kids.begin() + i); return; } }

inline Model build(Ctx& c, const Cfg& cfg, const string& y) { string f = c.tmp("v.yaml"); spit(f, y); Model m; m.cfg = cfg; m.robot = std::make_shared<thunder_ns::Robot>(thunder_ns::robot_from_file("rob", f)); m.collect(); c.transition(); c.trace(); return m; }
// two robots are the same robot: functions, arguments, values, argument values
inline void equal_robots(Ctx& c, Model& a, Model& b, const string& what, const string& y) {
  auto bad = [&](const string& w) { c.violation(what, w + "\nvariant:\n" + y + "\nmeaning:\n" + yaml(b.cfg)); };
  if (a.fn.size() != b.fn.size()) { string d; for (auto& k : b.fn) if (!a.has(k.first)) d += " -" + k.first; for (auto& k : a.fn) if (!b.has(k.first)) d += " +" + k.first; bad("different functions:" + d); return; }
  for (auto& k : b.fn) { if (!a.has(k.first)) { bad("no function " + k.first); return; } auto& x = a.fn.at(k.first); if (x.args != k.second.args) { bad("different arguments of " + k.first); return; } if (x.r != k.second.r || x.c != k.second.c) { bad("different size of " + k.first); return; } }
  auto& ra = *a.robot; auto& rb = *b.robot;
  if (ra.get_numJoints() != rb.get_numJoints() || ra.get_jointsType() != rb.get_jointsType() || ra.get_ELASTIC() != rb.get_ELASTIC() || ra.get_numElasticJoints() != rb.get_numElasticJoints() || ra.get_isElasticJoint() != rb.get_isElasticJoint() || ra.get_Dl_order() != rb.get_Dl_order() || ra.get_K_order() != rb.get_K_order() || ra.get_D_order() != rb.get_D_order() || ra.get_Dm_order() != rb.get_Dm_order()) { bad("different description getters"); return; }
  for (auto& p : PARS) if (b.cfg.size(p)) { auto x = ra.get_arg(p), y2 = rb.get_arg(p); if (x.size() != y2.size() || !(x.array() == y2.array()).all()) { bad("different values of " + p); return; } }
  auto x = ra.get_arg("par_REG"), z = rb.get_arg("par_REG"); if (x.size() != z.size() || !(x.array() == z.array()).all()) { bad("different values of par_REG"); return; }
  for (int k = 0; k < 2; k++) { State s = base_state(b.cfg, k); c.state_once(hash_state(s, hash_str(y)));
    for (auto& f : b.fn) { Mat<double> g, w; string why; try { g = a.eval(f.first, s); w = b.eval(f.first, s); } catch (const std::exception& e) { bad(string("arguments: ") + e.what()); return; } c.transition(2); if (!close(g, w, 1e-12, why)) { bad(f.first + ": " + why); return; } } }
}
}  // namespace mc
