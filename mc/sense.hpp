// What a configuration text means, read independently: refused, a robot, or not determined by the statement of C25.
#pragma once
#include "doc.hpp"
#include <yaml-cpp/yaml.h>
namespace mc {
struct Sense { enum V { REFUSE, VALID, FREE } v = VALID; bool either = false; Cfg g; string why; };
namespace sense_impl {
struct Refuse { string why; }; struct Free { string why; };
typedef YAML::Node N;
inline N get(const N& n, const string& k) { if (n.IsDefined() && n.IsMap()) for (auto kv : n) if (kv.first.IsScalar() && kv.first.Scalar() == k) return kv.second; return N(YAML::NodeType::Undefined); }
inline bool has(const N& n, const string& k) { return get(n, k).IsDefined(); }
inline bool isnum(const N& n) { double x; return n.IsDefined() && n.IsScalar() && YAML::convert<double>::decode(n, x); }
inline bool isint(const N& n) { int x; return n.IsDefined() && n.IsScalar() && YAML::convert<int>::decode(n, x); }
inline double number(const N& n, const string& w) { if (!isnum(n)) throw Refuse{w + " is not a number"}; double x = n.as<double>(); if (!std::isfinite(x)) throw Free{w}; return x; }
inline int integer(const N& n, const string& w) { if (!isint(n)) throw Refuse{w + " is not an integer"}; return n.as<int>(); }
inline void duplicates(const N& n) { if (n.IsMap()) { std::set<string> s; for (auto kv : n) { if (!kv.first.IsScalar() || !s.insert(kv.first.Scalar()).second) throw Free{"keys"}; duplicates(kv.second); } } else if (n.IsSequence()) for (auto x : n) duplicates(x); }
struct Reader {
  bool either = false, masks = true; double absent = 0;  // value of friction that is not given; NaN: as before
  Vec list(const N& n, int m, const string& w) { if (!n.IsDefined() || !n.IsSequence()) throw Refuse{w + " is not a list"}; Vec v; int k = 0; for (auto x : n) { if (k < m) v.push_back(number(x, w)); k++; } if (k < m) throw Refuse{w + " is too short"}; if (k > m) either = true; return v; }
  // masks: whole or absent; `lenient` ones are completed by frozen entries
  vector<int> mask(const N& n, int m, bool lenient, const string& w) {
    if (!masks || !n.IsDefined()) return vector<int>(m, 0); if (n.IsNull()) { either = true; return vector<int>(m, 0); }
    if (!n.IsSequence()) throw Refuse{w + " is not a list"}; vector<int> v; int k = 0; for (auto x : n) { if (k < m) { int b = integer(x, w); if (b != 0 && b != 1) throw Free{w}; v.push_back(b); } k++; }
    if (k < m && !lenient) throw Refuse{w + " is too short"}; if (k != m) either = true; v.resize(m); return v;
  }
  void put(Cfg& c, const string& p, const Vec& v, const vector<int>& m) { auto& a = c.val[p]; auto& b = c.mask[p]; a.insert(a.end(), v.begin(), v.end()); b.insert(b.end(), m.begin(), m.end()); }
  // parameters of the links (and of the elastic joints) of a robot with the structure of c
  void dynamics(Cfg& c, const N& y, bool reg) {
    static const char* nd[] = {"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"}; static const char* nr[] = {"mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
    N d = get(y, "dynamics"); if (!d.IsDefined() || !d.IsMap()) throw Free{"dynamics"};
    int i = 0; string fr; bool short_ = false, extra_bad = false; (void)extra_bad;
    for (auto kv : d) { if (i == c.n()) { either = true; break; } N l = kv.second, in = get(l, "inertial"); string w = kv.first.Scalar();
      Vec v; for (auto k : reg ? nr : nd) v.push_back(number(get(in, k), w + "/" + k)); put(c, "par_DYN", v, mask(get(in, "symb"), 10, true, w + "/symb"));
      N f = get(l, "friction"); int o = c.Dl_order;
      if (!f.IsDefined()) put(c, "par_Dl", Vec(o, absent), vector<int>(o, 0)); else if (f.IsNull()) { either = true; put(c, "par_Dl", Vec(o, absent), vector<int>(o, 0)); }
      else if (o == 0) either = true; else put(c, "par_Dl", list(get(f, "Dl"), o, w + "/Dl"), mask(get(f, "symb"), o, true, w + "/friction/symb"));
      i++; }
    if (i < c.n()) short_ = true; if (short_) throw Free{"links"};
  }
  void elastic(Cfg& c, const N& y) {
    N js = get(get(y, "elastic"), "joints"); if (!js.IsDefined() || !js.IsMap()) { if (c.ne()) throw Free{"joints"}; either = true; return; }
    int i = 0; for (auto kv : js) { if (i == c.ne()) { either = true; break; } N j = kv.second; string w = kv.first.Scalar();
      struct { const char *v, *m, *p; int o; } g[] = {{"K", "K_symb", "par_K", c.K_order}, {"D", "D_symb", "par_D", c.D_order}, {"Dm", "Dm_symb", "par_Dm", c.Dm_order}};
      for (auto& x : g) if (x.o) put(c, x.p, list(get(j, x.v), x.o, w + "/" + x.v), mask(get(j, x.m), x.o, true, w + "/" + x.m)); else if (has(j, x.v) || has(j, x.m)) { const N a = get(j, x.v), b = get(j, x.m); if (!(a.IsDefined() && a.IsSequence() && a.size() == 0 && b.IsDefined() && b.IsSequence() && b.size() == 0)) either = true; }
      double Mm = number(get(j, "Mm"), w + "/Mm"); N mm = get(j, "Mm_symb"); int b = 0; if (masks && mm.IsDefined()) { if (mm.IsNull()) either = true; else b = integer(mm, w + "/Mm_symb"); } if (b != 0 && b != 1) throw Free{w}; put(c, "par_Mm", {Mm}, {b}); i++; }
    if (i < c.ne()) throw Free{"elastic joints"};
  }
  void frame(Cfg& c, const N& y, const string& s, const string& p) { N f = get(y, s); if (!f.IsDefined() || !f.IsMap()) throw Refuse{s + " is missing"}; Vec v = list(get(f, "tr"), 3, s + "/tr"), r = list(get(f, "ypr"), 3, s + "/ypr"); v.insert(v.end(), r.begin(), r.end()); put(c, p, v, mask(get(f, "symb"), 6, false, s + "/symb")); }
};
}  // namespace sense_impl
// a whole configuration
inline Sense sense(const string& text) {
  using namespace sense_impl; Sense s; Reader r; Cfg& c = s.g; N y;
  try { y = YAML::Load(text); } catch (const YAML::Exception&) { s.v = Sense::REFUSE; s.why = "not YAML"; return s; }
  // everything that may be refused is looked at before anything that is not determined
  bool free_ = false; string fw; auto step = [&](std::function<void()> f) { try { f(); } catch (const Free& e) { free_ = true; fw = e.why; } };
  try {
    if (!y.IsMap()) throw Refuse{"no configuration"};
    step([&] { duplicates(y); }); if (free_) throw Free{fw};
    for (auto& p : PARS) { c.val[p]; c.mask[p]; }
    int n = integer(get(y, "num_joints"), "num_joints"); N t = get(y, "type_joints"); if (!t.IsDefined() || !t.IsSequence()) throw Refuse{"type_joints"};
    for (auto x : t) { if (x.IsNull()) { c.types.push_back("null"); continue; } if (!x.IsScalar()) throw Refuse{"type_joints"}; c.types.push_back(x.Scalar()); } if ((int)c.types.size() != n) throw Refuse{"type_joints has another length"};
    if (n == 0) throw Free{"no joints"};
    bool unknown = false; for (auto& x : c.types) if (x != "R" && x != "P" && x != "R_SEA" && x != "P_SEA") unknown = true; if (unknown) throw Refuse{"type"};
    if (has(y, "Dl_order")) { N o = get(y, "Dl_order"); if (o.IsNull()) { r.either = true; } else c.Dl_order = integer(o, "Dl_order"); if (c.Dl_order < 0) throw Refuse{"Dl_order"}; }
    if (has(y, "ELASTIC_MODEL")) { N e = get(y, "ELASTIC_MODEL"); bool b = false; if (e.IsNull()) r.either = true; else if (!e.IsScalar() || !YAML::convert<bool>::decode(e, b)) throw Refuse{"ELASTIC_MODEL"}; c.elastic = b; }
    if (c.elastic) { N e = get(y, "elastic"); if (!e.IsDefined() || !e.IsMap()) throw Refuse{"elastic"}; c.K_order = integer(get(e, "K_order"), "K_order"); c.D_order = integer(get(e, "D_order"), "D_order"); c.Dm_order = integer(get(e, "Dm_order"), "Dm_order"); if (c.K_order < 0 || c.D_order < 0 || c.Dm_order < 0) throw Refuse{"order"}; }
    else if (has(y, "elastic")) r.either = true;
    step([&] { N k = get(y, "kinematics"); if (!k.IsDefined() || !k.IsMap()) throw Refuse{"kinematics"}; r.put(c, "par_DHtable", r.list(get(k, "DH"), 4 * n, "DH"), r.mask(get(k, "symb"), 4 * n, false, "kinematics/symb")); });
    step([&] { N g = get(y, "gravity"); if (!g.IsDefined()) r.put(c, "par_gravity", {0, 0, 0}, {0, 0, 0}); else if (g.IsNull()) { r.either = true; r.put(c, "par_gravity", {0, 0, 0}, {0, 0, 0}); } else if (!g.IsMap()) throw Refuse{"gravity"}; else r.put(c, "par_gravity", r.list(get(g, "value"), 3, "gravity/value"), r.mask(get(g, "symb"), 3, false, "gravity/symb")); });
    step([&] { r.frame(c, y, "Base_to_L0", "par_world2L0"); }); step([&] { r.frame(c, y, "Ln_to_EE", "par_Ln2EE"); });
    step([&] { r.dynamics(c, y, false); });
    if (c.elastic) step([&] { r.elastic(c, y); });
    s.either = r.either; if (free_) throw Free{fw};
  } catch (const Refuse& e) { s.v = Sense::REFUSE; s.why = e.why; } catch (const Free& e) { s.v = Sense::FREE; s.why = e.why; }
  return s;
}
// the dynamic parameters a file gives to a robot of known structure; reg: file of par_REG
inline Sense sense_dyn(const string& text, const Cfg& base, bool reg) {
  using namespace sense_impl; Sense s; Reader r; r.masks = false; r.absent = NAN; s.g = base; N y;
  try { y = YAML::Load(text); } catch (const YAML::Exception&) { s.v = Sense::REFUSE; s.why = "not YAML"; return s; }
  for (auto& p : {"par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"}) { s.g.val[p].clear(); s.g.mask[p].clear(); }
  bool free_ = false; string fw; auto step = [&](std::function<void()> f) { try { f(); } catch (const Free& e) { free_ = true; fw = e.why; } };
  try { if (!y.IsMap()) throw Free{"no configuration"}; step([&] { duplicates(y); }); if (free_) throw Free{fw}; step([&] { r.dynamics(s.g, y, reg); }); if (base.elastic && !reg) { if (!has(y, "elastic")) throw Free{"elastic"}; step([&] { r.elastic(s.g, y); }); } s.either = r.either; if (free_) throw Free{fw}; }
  catch (const Refuse& e) { s.v = Sense::REFUSE; s.why = e.why; } catch (const Free& e) { s.v = Sense::FREE; s.why = e.why; }
  return s;
}
// ---------------------------------------------------------------- malformed variants of a text
struct Variant { string what, text; };
inline vector<string> items(const string& v) { vector<string> l; for (auto a : split(v.substr(1, v.size() - 2), ',')) { while (!a.empty() && a[0] == ' ') a.erase(0, 1); if (!a.empty()) l.push_back(a); } return l; }
inline string listof(const vector<string>& l) { string o = "["; for (size_t i = 0; i < l.size(); i++) o += (i ? ", " : "") + l[i]; return o + "]"; }
inline void paths(const Doc& d, const string& p, vector<string>& o) { for (auto& k : d.kids) { string q = p.empty() ? k.key : p + "/" + k.key; o.push_back(q); paths(k, q, o); } }
static const vector<string> BADNUM = {"abc", "~", "[1.0]", "{a: 1}", "'1,5'", "'1 2'", "''", "1.2.3", "--1", "1e", "0.1m"};
// every place of the document changed in one way
inline vector<Variant> single(const Doc& d0, bool wide) {
  vector<Variant> r; vector<string> ps; paths(d0, "", ps); vector<string> bad = BADNUM; if (!wide) bad.resize(7);
  auto put = [&](const string& p, const string& w, std::function<void(Doc&)> f) { Doc d = d0; f(*at(d, p)); r.push_back({p + ": " + w, text(d)}); };
  for (auto& p : ps) { Doc t = d0; Doc& n = *at(t, p);
    { Doc d = d0; drop(d, p); r.push_back({p + ": missing", text(d)}); }
    if (n.kids.empty() && !n.val.empty() && n.val[0] == '[') { auto l = items(n.val); int m = (int)l.size();
      auto as = [&](const string& w, const vector<string>& v) { put(p, w, [&](Doc& x) { x.val = listof(v); }); };
      for (int k = 0; k < m; k++) as(std::to_string(k) + " entries", vector<string>(l.begin(), l.begin() + k));
      for (int k = 0; k < m; k++) { auto v = l; v.erase(v.begin() + k); if (k + 1 < m) as("without entry " + std::to_string(k), v); }
      for (int k : {1, 2, m, 39 * m + 1, 5000}) { auto v = l; for (int i = 0; i < k; i++) v.push_back(l.empty() ? "1" : l[i % l.size()]); as(std::to_string(k) + " more entries", v); }
      for (int k = 0; k < m; k++) for (auto& b : bad) { auto v = l; v[k] = b; as("entry " + std::to_string(k) + " is " + b, v); }
      { auto v = l; v.push_back("abc"); as("one more entry, abc", v); }
      for (string b : {"1.5", "1", "abc", "", "~", "{a: 1}", "{}", "'[1, 2]'"}) put(p, "is " + (b.empty() ? "empty" : b), [&](Doc& x) { x.val = b; });
      put(p, "nested", [&](Doc& x) { x.val = "[" + x.val + "]"; }); put(p, "entries nested", [&](Doc& x) { auto v = l; for (auto& e : v) e = "[" + e + "]"; x.val = listof(v); });
      put(p, "a map of its entries", [&](Doc& x) { string o = "{"; for (int i = 0; i < m; i++) o += (i ? ", " : "") + ("e" + std::to_string(i)) + ": " + l[i]; x.val = o + "}"; });
    } else if (n.kids.empty()) {
      for (auto& b : bad) put(p, "is " + b, [&](Doc& x) { x.val = b; }); put(p, "empty", [&](Doc& x) { x.val = ""; }); put(p, "a list", [&](Doc& x) { x.val = "[" + x.val + "]"; }); put(p, "a map", [&](Doc& x) { x.val = "{a: " + x.val + "}"; });
      if (sense_impl::isint(YAML::Load(n.val)) || n.val == "true") for (string b : {"-1", "0", "1", "2", "3", "4", "7", "1000", "1.5", "'1'", "true", "maybe"}) put(p, "is " + b, [&](Doc& x) { x.val = b; });
    } else {
      for (string b : {"", "~", "3", "text", "[]", "[1, 2, 3]", "{}", "{a: 1}", "[{a: 1}]"}) put(p, "is " + (b.empty() ? "empty" : b), [&](Doc& x) { x.kids.clear(); x.val = b; });
      put(p, "in a list", [&](Doc& x) { std::function<string(const Doc&)> flow = [&](const Doc& e) { if (e.kids.empty()) return e.val.empty() ? string("~") : e.val; string o = "{"; for (size_t i = 0; i < e.kids.size(); i++) o += (i ? ", " : "") + e.kids[i].key + ": " + flow(e.kids[i]); return o + "}"; }; string v = "[" + flow(x) + "]"; x.kids.clear(); x.val = v; });
    } }
  // surplus links and joints
  for (string s : {"dynamics", "elastic/joints"}) { Doc t = d0; Doc* p = at(t, s); if (!p || p->kids.empty()) continue;
    for (int k : {1, 3, 60}) { Doc d = d0; Doc* q = at(d, s); for (int i = 0; i < k; i++) { Doc x = q->kids[0]; x.key = "more" + std::to_string(i); q->kids.push_back(x); } r.push_back({s + ": " + std::to_string(k) + " more", text(d)}); }
    for (string b : {"~", "3", "[]", "{}", "text", "{inertial: 3}", "{inertial: {symb: [1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]}}"}) { Doc d = d0; at(d, s)->kids.push_back(Doc{"more", b, {}}); r.push_back({s + ": one more, " + b, text(d)}); } }
  return r;
}
// the text damaged line by line and sign by sign
inline vector<Variant> damaged(const string& y, bool wide) {
  vector<Variant> r; vector<string> ls; { std::stringstream s(y); string l; while (std::getline(s, l)) ls.push_back(l); }
  auto put = [&](const string& w, const vector<string>& v) { string o; for (auto& l : v) o += l + "\n"; r.push_back({w, o}); };
  for (size_t i = 0; i < ls.size(); i++) { string w = "line " + std::to_string(i + 1);
    auto v = ls; v.erase(v.begin() + i); put(w + " left out", v); v = ls; v.insert(v.begin() + i, ls[i]); put(w + " twice", v); v = ls; v[i] = "  " + v[i]; put(w + " indented", v); v = ls; v[i] = "\t" + v[i]; put(w + " with a tabulator", v); if (ls[i].substr(0, 2) == "  ") { v = ls; v[i] = v[i].substr(2); put(w + " outdented", v); }
    if (i + 1 < ls.size()) { v = ls; std::swap(v[i], v[i + 1]); put(w + " and the next exchanged", v); v = ls; v[i] += v[i + 1]; v.erase(v.begin() + i + 1); put(w + " and the next joined", v); if (wide) for (size_t j = i + 2; j < ls.size(); j++) { v = ls; std::swap(v[i], v[j]); put(w + " and line " + std::to_string(j + 1) + " exchanged", v); } }
    v = vector<string>(ls.begin(), ls.begin() + i); put("up to " + w, v); v = vector<string>(ls.begin() + i, ls.end()); if (i) put("from " + w, v); }
  for (size_t i = 0; i < y.size(); i++) if (strchr("[],:'-", y[i]) || (wide && strchr(". ", y[i]))) { string a = y; a.erase(i, 1); r.push_back({"sign " + std::to_string(i) + " left out", a}); if (wide || y[i] != ',') { a = y; a.insert(i, 1, y[i]); r.push_back({"sign " + std::to_string(i) + " twice", a}); } if (wide) { a = y; a[i] = ' '; r.push_back({"sign " + std::to_string(i) + " blank", a}); } }
  return r;
}
// two places changed at once, each by one of the typical mistakes
inline vector<Variant> pairs(const Doc& d0, bool wide) {
  struct M { string p, w; std::function<void(Doc&)> f; }; vector<M> ms; vector<string> ps; paths(d0, "", ps);
  for (auto& p : ps) { Doc t = d0; Doc& n = *at(t, p); if (!n.kids.empty()) continue;
    if (n.val[0] == '[') { auto l = items(n.val); if (l.empty()) continue; ms.push_back({p, "short", [](Doc& x) { auto l = items(x.val); l.pop_back(); x.val = listof(l); }}); ms.push_back({p, "long", [](Doc& x) { auto l = items(x.val); l.push_back(l.back()); l.push_back(l[0]); l.push_back(l[0]); l.push_back(l[0]); x.val = listof(l); }}); if (wide) { ms.push_back({p, "bad", [](Doc& x) { auto l = items(x.val); l.back() = "abc"; x.val = listof(l); }}); ms.push_back({p, "empty", [](Doc& x) { x.val = "[]"; }}); } }
    else { if (sense_impl::isint(YAML::Load(n.val))) { ms.push_back({p, "+1", [](Doc& x) { x.val = std::to_string(atoi(x.val.c_str()) + 1); }}); ms.push_back({p, "-1", [](Doc& x) { x.val = std::to_string(atoi(x.val.c_str()) - 1); }}); } else if (wide) ms.push_back({p, "bad", [](Doc& x) { x.val = "abc"; }}); } }
  vector<Variant> r; for (size_t i = 0; i < ms.size(); i++) for (size_t j = i + 1; j < ms.size(); j++) if (ms[i].p != ms[j].p) { Doc d = d0; ms[i].f(*at(d, ms[i].p)); ms[j].f(*at(d, ms[j].p)); r.push_back({ms[i].p + " " + ms[i].w + ", " + ms[j].p + " " + ms[j].w, text(d)}); }
  return r;
}
// file of par_REG
inline string regtext(const Cfg& c) {
  std::ostringstream o; o << "dynamics:\n"; static const char* nm[] = {"mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
  for (int i = 0; i < c.n(); i++) { o << "  link" << i + 1 << ":\n    inertial:\n"; for (int k = 0; k < 10; k++) o << "      " << nm[k] << ": " << num(c.val.at("par_DYN")[10 * i + k]) << "\n"; if (c.Dl_order) { auto& v = c.val.at("par_Dl"); o << "    friction:\n      Dl: " << nums(Vec(v.begin() + c.Dl_order * i, v.begin() + c.Dl_order * (i + 1))) << "\n"; } }
  return o.str();
}
}  // namespace mc
