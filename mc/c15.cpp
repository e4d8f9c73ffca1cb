// C15: every sequence of public calls on Robot model objects, in lockstep with an abstract machine.
#include "gmodel.hpp"
using namespace mc; using ref::Mat; using thunder_ns::Robot;

struct RObj { State a; Vec REG; bool derREG = false, derDYN = false; };  // arguments: variables, symbolic entries of parameters
struct Step { Robot* r; RObj* o; int depth; map<string, GFile>* files; };
struct Op { string name; std::function<bool(Step&, string&)> run; };     // the string: what was wrong with the call itself

static Vec val(int n, int k) { Vec v; for (int i = 0; i < n; i++) v.push_back(gen(31 * k + i, -1.9, 2.1)); return v; }
static Vec inert(const Cfg& c, int k) { return generic(c.types, 70 + k, 0).val.at("par_DYN"); }

struct World {
  Ctx& x; Cfg c; Model m; std::unordered_map<uint64_t, map<string, Mat<double>>> cache; vector<string> fns, vars; string dir; map<string, GFile> files;
  World(Ctx& x_, const Cfg& cc) : x(x_), c(cc), m(make_model(x_, cc)), dir(x_.dir) { for (auto& f : m.fn) fns.push_back(f.first); for (auto& v : VARS) if (c.elastic || (v[0] != 'x' && v != "dx" && v != "ddx" && v != "ddxr")) vars.push_back(v); }
  bool full(const string& p) const { for (int v : c.mask.at(p)) if (!v) return false; return true; }
  Vec pick(const string& p, const Vec& f) const { Vec r; for (size_t i = 0; i < f.size(); i++) if (c.mask.at(p)[i]) r.push_back(f[i]); return r; }
  bool has(const string& p) const { return c.size(p) > 0; }
  RObj fresh() const { RObj o; for (auto& v : vars) o.a[v] = Vec(var_size(c, v), 0.0); for (auto& p : PARS) if (has(p)) o.a[p] = pick(p, c.val.at(p)); o.REG = to_reg(c.val.at("par_DYN")); o.derREG = true; return o; }
  State full_state(const RObj& o) const { State s; for (auto& v : VARS) s[v] = o.a.count(v) ? o.a.at(v) : Vec(var_size(c, v), 0.0); for (auto& p : PARS) { Vec f = c.val.at(p); if (has(p)) { size_t k = 0; for (size_t i = 0; i < f.size(); i++) if (c.mask.at(p)[i]) f[i] = o.a.at(p)[k++]; } s[p] = f; } return s; }
  void adopt_dyn(RObj& o, const Vec& d, bool exact) const { o.a["par_DYN"] = pick("par_DYN", d); o.derDYN = !exact; }
  void conf(RObj& o, const GFile& f, bool upd) const { if (f.kind != GFile::Conf) return; for (auto& kv : f.part) if (!is_kin(kv.first)) o.a[kv.first] = pick(kv.first, kv.second); if (f.part.count("par_DYN")) { o.derDYN = false; if (upd) { o.REG = to_reg(f.part.at("par_DYN")); o.derREG = true; } } }
  void reg(RObj& o, const GFile& f, bool upd) const { if (f.kind != GFile::Reg) return; o.REG = f.part.at("par_REG"); o.derREG = false; if (f.part.count("par_Dl") && has("par_Dl")) o.a["par_Dl"] = pick("par_Dl", f.part.at("par_Dl")); if (upd) adopt_dyn(o, to_dyn(o.REG), false); }
  string getters(Robot& r, RObj& o) {
    auto one = [&](const string& p, const Vec& got, Vec& want, bool& der, const Vec& sc) -> string { x.transition(); if (got.size() != want.size()) return p + " has " + std::to_string(got.size()) + " entries, expected " + std::to_string(want.size()); for (size_t i = 0; i < got.size(); i++) if (!(der ? near(got[i], want[i], sc[i]) : got[i] == want[i])) return p + "(" + std::to_string(i) + ") is " + num(got[i]) + ", expected " + num(want[i]); if (der) { want = got; der = false; } return ""; };
    Vec sc; if (o.derREG || o.derDYN) { Vec d = to_dyn(o.REG); sc = inertia_scale(d); for (size_t i = 0; i < sc.size(); i++) sc[i] += 1e-300 + std::fabs(o.REG[i]); }
    bool no = false; Vec g = sv(r.get_par_REG()); string e = one("get_par_REG", g, o.REG, o.derREG, sc); if (!e.empty()) return e; if (sv(r.get_arg("par_REG")) != g) return "get_arg(par_REG) differs from get_par_REG";
    g = sv(r.get_par_DYN()); e = one("get_par_DYN", g, o.a["par_DYN"], o.derDYN, sc.empty() ? sc : pick("par_DYN", sc)); if (!e.empty()) return e; if (sv(r.get_arg("par_DYN")) != g) return "get_arg(par_DYN) differs from get_par_DYN";
    for (auto& kv : o.a) if (kv.first != "par_DYN") { e = one("get_arg " + kv.first, sv(r.get_arg(kv.first)), kv.second, no, sc); if (!e.empty()) return e; }
    return "";
  }
  string functions(Robot& r, const RObj& o, bool back = false) {
    State s = full_state(o); uint64_t h = hash_state(s); auto it = cache.find(h);
    if (it == cache.end()) { map<string, Mat<double>> v; for (auto& f : fns) v[f] = m.eval(f, s); it = cache.emplace(h, std::move(v)).first; }
    for (size_t k = 0; k < fns.size(); k++) { const string& f = fns[back ? fns.size() - 1 - k : k]; string why; x.transition(); if (!close(toM(r.get(f)), it->second.at(f), 1e-11, why)) return "get(" + f + "): " + why; }
    return "";
  }
  void make_files() {
    Cfg d = c; { int t = 7; for (auto& p : PARS) for (auto& z : d.val[p]) z = z * 0.9 + gen(t++, 0.1, 0.3); d.names++; }
    auto put = [&](const string& n, const string& text, const GFile& f) { spit(dir + "/" + n, text); files[dir + "/" + n] = f; };
    GFile o; o.kind = GFile::Conf; for (auto& p : PARS) if (has(p)) o.part[p] = d.val[p]; put("other.yaml", yaml(d), o);
    YAML::Node all = YAML::Load(yaml(d));
    { YAML::Node n; n["dynamics"] = all["dynamics"]; std::ostringstream s; s << n; GFile f; f.kind = GFile::Conf; f.part["par_DYN"] = d.val["par_DYN"]; if (has("par_Dl")) f.part["par_Dl"] = d.val["par_Dl"]; put("dyn.yaml", s.str(), f); for (auto l : n["dynamics"]) l.second.remove("friction"); std::ostringstream s2; s2 << n; f.part.erase("par_Dl"); put("nofric.yaml", s2.str(), f); }
    if (c.elastic) { YAML::Node n; n["elastic"] = all["elastic"]; std::ostringstream s; s << n; GFile f; f.kind = GFile::Conf; for (auto& p : {"par_K", "par_D", "par_Dm", "par_Mm"}) if (has(p)) f.part[p] = d.val[p]; put("ela.yaml", s.str(), f); }
    static const char* nm[] = {"mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
    for (int fr = 0; fr < (has("par_Dl") ? 2 : 1); fr++) { GFile f; f.kind = GFile::Reg; f.part["par_REG"] = to_reg(inert(c, 9 + fr)); if (fr) f.part["par_Dl"] = d.val["par_Dl"]; std::ostringstream s; s << "dynamics:\n"; for (int i = 0; i < c.n(); i++) { s << "  link" << i + 1 << ":\n    inertial: {"; for (int k = 0; k < 10; k++) s << (k ? ", " : "") << nm[k] << ": " << num(f.part["par_REG"][10 * i + k]); s << "}\n"; if (fr) s << "    friction: {Dl: " << nums(Vec(d.val["par_Dl"].begin() + i * c.Dl_order, d.val["par_Dl"].begin() + (i + 1) * c.Dl_order)) << "}\n"; } put(fr ? "regfric.yaml" : "reg.yaml", s.str(), f); }
    put("garbage.yaml", "par_K: [1, 2\n  dynamics: {", GFile{GFile::Garbage, {}}); files[dir + "/missing.yaml"] = GFile();
  }
};

static string how_name(int h) { return h == 0 ? "(entries rotated)" : h == 1 ? "(negated)" : h == 2 ? "(last entry +1e-9)" : h == 3 ? "(far away)" : "(nearly zero)"; }
static bool alter(Vec& z, int how) { Vec o = z; if (z.empty()) return false; if (how == 0) std::rotate(z.begin(), z.begin() + 1, z.end()); else if (how == 1) for (auto& e : z) e = -e; else if (how == 2) z.back() += 1e-9; else if (how == 3) { int k = 0; for (auto& e : z) e = 7 * e + (k++ % 2 ? -55 : 34); } else for (auto& e : z) e *= 1e-12; for (size_t i = 0; i < z.size(); i++) if (z[i] != o[i]) return true; return false; }
static vector<Op> alphabet(World& w, bool reduced) {
  vector<Op> A; const Cfg& c = w.c; World* W = &w; int k = 0;
  struct S { string v; int (Robot::*f)(Eigen::VectorXd); };
  for (auto& s : vector<S>{{"q", &Robot::set_q}, {"dq", &Robot::set_dq}, {"dqr", &Robot::set_dqr}, {"ddqr", &Robot::set_ddqr}, {"x", &Robot::set_x}, {"dx", &Robot::set_dx}, {"ddx", &Robot::set_ddx}, {"ddxr", &Robot::set_ddxr}}) {
    if (std::find(w.vars.begin(), w.vars.end(), s.v) == w.vars.end()) continue; int n = var_size(c, s.v); k++;
    for (int a = 0; a < (reduced ? 1 : 2); a++) { Vec z = val(n, k + 40 * a); if (a) for (auto& e : z) e = std::floor(e); A.push_back({"set_" + s.v + "(" + std::to_string(a) + ")", [=](Step& t, string& e) { if ((t.r->*s.f)(ev(z)) != 1) e = "valid call did not return 1"; t.o->a[s.v] = z; return true; }}); }
    for (int how = 0; how < 5; how++) { if (reduced && how < 2 || reduced && how > 3) continue; A.push_back({"set_" + s.v + how_name(how), [=](Step& t, string& e) { Vec z = t.o->a[s.v]; if (!alter(z, how)) return false; if ((t.r->*s.f)(ev(z)) != 1) e = "valid call did not return 1"; t.o->a[s.v] = z; return true; }}); }
    for (int d : {1, -1}) { if (reduced && d < 0) continue; if (n + d < 0) continue; Vec z = val(n + d, k); A.push_back({"set_" + s.v + (d > 0 ? "(one too many)" : "(one missing)"), [=](Step& t, string& e) { if ((t.r->*s.f)(ev(z)) != 0) e = "call with a wrong size did not return 0"; return true; }}); }
  }
  for (auto& v : w.vars) { if (reduced && (v == "q" || v == "dq" || v == "dqr" || v == "x" || v == "dx")) continue; Vec z = val(var_size(c, v), ++k); A.push_back({"set_arg(" + v + ")", [=](Step& t, string& e) { t.r->set_arg(v, ev(z)); t.o->a[v] = z; return true; }}); }
  if (!reduced) for (auto& v : w.vars) { Vec z(var_size(c, v), 0.0); A.push_back({"set_arg(" + v + ", 0)", [=](Step& t, string& e) { t.r->set_arg(v, ev(z)); t.o->a[v] = z; return true; }}); }
  for (auto& p : PARS) if (w.has(p) && any(c.mask.at(p))) { Vec z = val((int)w.pick(p, c.val.at(p)).size(), ++k); A.push_back({"set_arg(" + p + ")", [=](Step& t, string& e) { t.r->set_arg(p, ev(z)); t.o->a[p] = z; if (p == "par_DYN") t.o->derDYN = false; return true; }}); }
  // values that differ from the present ones by a rotation of the entries, the signs, or a little
  for (auto& v : w.vars) for (int how = 0; how < 5; how++) { if (reduced && how != 1 && how != 3) continue; A.push_back({"set_arg " + v + how_name(how), [=](Step& t, string& e) { Vec z = t.o->a[v]; if (!alter(z, how)) return false; t.r->set_arg(v, ev(z)); t.o->a[v] = z; return true; }}); }
  if (!reduced) for (auto& p : PARS) if (w.has(p) && any(c.mask.at(p))) for (int how = 0; how < 5; how++) A.push_back({"set_arg " + p + how_name(how), [=](Step& t, string& e) { Vec z = t.o->a[p]; if (!alter(z, how)) return false; t.r->set_arg(p, ev(z)); t.o->a[p] = z; if (p == "par_DYN") t.o->derDYN = false; return true; }});
  // values that are not finite, the functions used with them, and finite ones again: nothing may stick
  { int kk = 300; vector<string> all = w.vars; for (auto& p : PARS) if (w.has(p) && any(c.mask.at(p))) all.push_back(p);
    for (auto& v : all) { kk++; if (reduced && v != "q" && v != "par_DHtable") continue; A.push_back({"set_arg " + v + " (not finite), and finite again", [=](Step& t, string& e) { Vec old = t.o->a[v]; if (old.empty()) return false; Vec z = v == "par_DYN" ? W->pick("par_DYN", inert(W->c, 51)) : val((int)old.size(), kk); for (int how = 0; how < 3; how++) { Vec b = not_finite(z, how); int rc = t.r->set_arg(v, ev(b)); Vec g = sv(t.r->get_arg(v)); if (!same_bits_or_nan(g, rc ? b : how ? z : old)) { e = "after set_arg(" + v + ", " + nums(b) + ") get_arg is " + nums(g); return true; } for (auto& f : t.r->get_functions()) t.r->get(f.name); t.r->set_arg(v, ev(z)); } t.o->a[v] = z; if (v == "par_DYN") t.o->derDYN = false; return true; }}); }
    if (!reduced) for (auto& s : vector<S>{{"q", &Robot::set_q}, {"dq", &Robot::set_dq}, {"dqr", &Robot::set_dqr}, {"ddqr", &Robot::set_ddqr}, {"x", &Robot::set_x}, {"dx", &Robot::set_dx}, {"ddx", &Robot::set_ddx}, {"ddxr", &Robot::set_ddxr}}) { if (std::find(w.vars.begin(), w.vars.end(), s.v) == w.vars.end()) continue; kk++; A.push_back({"set_" + s.v + "(not finite), and finite again", [=](Step& t, string& e) { Vec old = t.o->a[s.v]; if (old.empty()) return false; Vec z = val((int)old.size(), kk); for (int how = 0; how < 3; how++) { Vec b = not_finite(z, how); int rc = (t.r->*s.f)(ev(b)); Vec g = sv(t.r->get_arg(s.v)); if (!same_bits_or_nan(g, rc ? b : how ? z : old)) { e = "after set_" + s.v + "(" + nums(b) + ") get_arg is " + nums(g); return true; } if ((t.r->*s.f)(ev(z)) != 1) e = "valid call did not return 1"; } t.o->a[s.v] = z; return true; }}); } }
  A.push_back({"assigned to itself", [=](Step& t, string& e) { Robot& r = *t.r; *t.r = r; return true; }});
  { Vec z = to_reg(inert(c, 20)); A.push_back({"set_arg(par_REG)", [=](Step& t, string& e) { t.r->set_arg("par_REG", ev(z)); t.o->REG = z; t.o->derREG = false; return true; }}); }
  for (int a = 0; a < (reduced ? 1 : 2); a++) {
    Vec d = inert(c, 1 + a), r = to_reg(inert(c, 5 + a)); Vec pd = w.pick("par_DYN", d); bool full = w.full("par_DYN");
    if (!pd.empty()) A.push_back({"set_par_DYN(" + std::to_string(a) + ")", [=](Step& t, string& e) { if (t.r->set_par_DYN(ev(pd)) != 1) e = "valid call did not return 1"; t.o->a["par_DYN"] = pd; t.o->derDYN = false; if (full) { t.o->REG = to_reg(d); t.o->derREG = true; } return true; }});
    A.push_back({"set_par_REG(" + std::to_string(a) + ")", [=](Step& t, string& e) { if (t.r->set_par_REG(ev(r)) != 1) e = "valid call did not return 1"; t.o->REG = r; t.o->derREG = false; W->adopt_dyn(*t.o, to_dyn(r), false); return true; }});
  }
  if (!reduced) for (int how = 1; how < 3; how++) {
    if (any(c.mask.at("par_DYN"))) A.push_back({"set_par_DYN" + how_name(how), [=](Step& t, string& e) { Vec z = t.o->a["par_DYN"]; if (!alter(z, how)) return false; if (t.r->set_par_DYN(ev(z)) != 1) e = "valid call did not return 1"; t.o->a["par_DYN"] = z; t.o->derDYN = false; if (W->full("par_DYN")) { t.o->REG = to_reg(z); t.o->derREG = true; } return true; }});
    A.push_back({"set_par_REG" + how_name(how), [=](Step& t, string& e) { Vec z = t.o->REG; for (int i = 0; i < W->c.n(); i++) if (z[10 * i] == 0) return false; if (!alter(z, how)) return false; if (t.r->set_par_REG(ev(z)) != 1) e = "valid call did not return 1"; t.o->REG = z; t.o->derREG = false; W->adopt_dyn(*t.o, to_dyn(z), false); return true; }});
  }
  for (int d : {1, -1}) { int nd = (int)w.pick("par_DYN", c.val.at("par_DYN")).size(); if (nd + d >= 0) { Vec z = val(nd + d, 3); A.push_back({"set_par_DYN(wrong size)", [=](Step& t, string& e) { if (t.r->set_par_DYN(ev(z)) != 0) e = "call with a wrong size did not return 0"; return true; }}); } Vec z = val(10 * c.n() + d, 3); A.push_back({"set_par_REG(wrong size)", [=](Step& t, string& e) { if (t.r->set_par_REG(ev(z)) != 0) e = "call with a wrong size did not return 0"; return true; }}); }
  for (auto& f : w.files) { string path = f.first, n = path.substr(path.rfind('/') + 1); GFile g = f.second;
    for (int fl = 0; fl < 2; fl++) { if (reduced && fl == 0 && n != "other.yaml" && n != "reg.yaml") continue; string t0 = fl ? ", true)" : ", false)";
      if (g.kind != GFile::Reg) A.push_back({"load_conf_par(" + n + t0, [=](Step& t, string& e) { int rc = t.r->load_conf_par(path, fl); if (g.kind != GFile::Conf && rc != 0) e = "unreadable file not reported"; if (g.kind == GFile::Conf && rc != 1) e = "valid file reported as wrong"; W->conf(*t.o, g, fl); return true; }});
      if (g.kind != GFile::Conf) A.push_back({"load_par_REG(" + n + t0, [=](Step& t, string& e) { t.r->load_par_REG(path, fl); W->reg(*t.o, g, fl); return true; }}); }
    if (g.kind == GFile::Missing || g.kind == GFile::Garbage) A.push_back({"load_par(" + n + ")", [=](Step& t, string& e) { if (t.r->load_par(path) != 0) e = "unreadable file not reported"; if (t.r->load_par(path, {"par_REG"}) != 0) e = "unreadable file not reported"; return true; }}); }
  // save_par of some parameters and variables, then load_par of all or some of what was saved
  vector<string> sp = {"par_REG"}; for (auto& p : PARS) if (w.has(p)) sp.push_back(p);
  A.push_back({"save_par(all)", [=](Step& t, string& e) { string f = W->dir + "/s" + std::to_string(t.depth) + ".yaml"; occupied(f); if (t.r->save_par(f, sp) != 1) e = "save_par failed"; GFile g; g.kind = GFile::Neutral; for (auto& p : sp) g.part[p] = p == "par_REG" ? t.o->REG : t.o->a[p]; (*t.files)[f] = g; return true; }});
  { string p1 = w.has("par_K") ? "par_K" : "par_gravity"; A.push_back({"save_par(" + p1 + ", q)", [=](Step& t, string& e) { string f = W->dir + "/s" + std::to_string(t.depth) + ".yaml"; occupied(f); if (t.r->save_par(f, {p1, "q"}) != 1) e = "save_par failed"; GFile g; g.kind = GFile::Neutral; g.part[p1] = t.o->a[p1]; g.part["q"] = t.o->a["q"]; (*t.files)[f] = g; return true; }}); }
  A.push_back({"save_par_REG", [=](Step& t, string& e) { string f = W->dir + "/s" + std::to_string(t.depth) + ".yaml"; occupied(f); if (t.r->save_par_REG(f) != 1) e = "save_par_REG failed"; GFile g; g.kind = GFile::Reg; g.part["par_REG"] = t.o->REG; (*t.files)[f] = g; return true; }});
  A.push_back({"save_conf", [=](Step& t, string& e) { string f = W->dir + "/s" + std::to_string(t.depth) + ".yaml"; occupied(f); if (t.r->save_conf(f) != 1) e = "save_conf failed"; GFile g; g.kind = GFile::Conf; for (auto& p : PARS) if (W->has(p)) g.part[p] = W->c.val.at(p); (*t.files)[f] = g; return true; }});
  for (int sel = 0; sel < 2; sel++) A.push_back({sel ? "load the saved file, one parameter" : "load the saved file", [=](Step& t, string& e) {
    for (int d = t.depth - 1; d >= 0; d--) { string f = W->dir + "/s" + std::to_string(d) + ".yaml"; auto it = t.files->find(f); if (it == t.files->end() || it->second.kind == GFile::Missing) continue; const GFile& g = it->second;
      if (g.kind == GFile::Reg) { for (int i = 0; i < W->c.n(); i++) if (g.part.at("par_REG")[10 * i] == 0) return false; t.r->load_par_REG(f, sel); W->reg(*t.o, g, sel); }
      else if (g.kind == GFile::Conf) { t.r->load_conf_par(f, sel); W->conf(*t.o, g, sel); }
      else { vector<string> l; if (sel) l = {g.part.count("par_K") ? "par_K" : g.part.count("par_Dl") ? "par_Dl" : "par_gravity"}; if (t.r->load_par(f, l) != 1) e = "load_par failed"; for (auto& kv : g.part) if (!sel || kv.first == l[0]) { if (kv.first == "par_REG") { t.o->REG = kv.second; t.o->derREG = false; } else { t.o->a[kv.first] = kv.second; if (kv.first == "par_DYN") t.o->derDYN = false; } } }
      return true; } return false; }});
  A.push_back({"get_functions", [=](Step& t, string& e) { auto a = t.r->get_functions(); auto b = t.r->get_functions(false); if (a.size() != W->fns.size() || b.size() != a.size()) e = "number of functions changed"; else for (size_t i = 0; i < a.size(); i++) { if (a[i].name != W->fns[i] || b[i].name != W->fns[i] || b[i].args != W->m.fn.at(b[i].name).args || a[i].args != b[i].args || a[i].out_size != b[i].out_size || a[i].out_size[0] != W->m.fn.at(a[i].name).r || a[i].out_size[1] != W->m.fn.at(a[i].name).c) e = "description of " + a[i].name + " is wrong"; } return true; }});
  A.push_back({"get(unknown)", [=](Step& t, string& e) { for (auto& n : {"no_such_function", "", "q", "par_DYN"}) { auto g = t.r->get(n); if (g.size() != 1 || g(0, 0) != 0) e = "unknown function has a value"; } return true; }});
  for (auto& f : {"M", "T_0_ee", "dl", "k"}) { string s = f; if (std::find(w.fns.begin(), w.fns.end(), s) == w.fns.end() || (reduced && s != "M")) continue; A.push_back({"get(" + s + ")", [=](Step& t, string& e) { string why; if (!close(toM(t.r->get(s)), W->m.eval(s, W->full_state(*t.o)), 1e-11, why)) e = why; return true; }}); }
  A.push_back({"description", [=](Step& t, string& e) { auto& r = *t.r; const Cfg& c = W->c; if (r.get_numJoints() != c.n() || r.get_numElasticJoints() != c.ne() || r.get_ELASTIC() != c.elastic || r.get_K_order() != c.K_order || r.get_D_order() != c.D_order || r.get_Dl_order() != c.Dl_order || r.get_Dm_order() != c.Dm_order || r.get_jointsType() != c.types || r.get_numParDYN() != 10 * c.n() || r.get_numParREG() != 10 * c.n()) e = "description of the robot changed"; auto l = r.get_isElasticJoint(); for (int i = 0; i < c.n(); i++) if (l[i] != (int)c.isE(i)) e = "isElasticJoint"; return true; }});
  A.push_back({"use of a copy", [=](Step& t, string& e) { Robot c2 = *t.r; for (auto& v : W->vars) c2.set_arg(v, ev(val(var_size(W->c, v), 80))); c2.set_par_REG(ev(to_reg(inert(W->c, 30)))); for (auto& f : W->files) if (f.second.kind == GFile::Conf) c2.load_conf_par(f.first); c2.add_function("extra_fun", c2.model["q"] * 2, {"q"}); c2.get("M"); return true; }});
  A.push_back({"moved away and back", [=](Step& t, string& e) { Robot a = std::move(*t.r); *t.r = std::move(a); return true; }});
  A.push_back({"assignment from a used copy and back", [=](Step& t, string& e) { Robot a = *t.r, b = *t.r; a.set_q(ev(val(W->c.n(), 81))); a = b; *t.r = a; a.set_q(ev(val(W->c.n(), 82))); b.set_par_REG(ev(to_reg(inert(W->c, 31)))); return true; }});
  A.push_back({"another robot built", [=](Step& t, string& e) { Cfg o = generic({W->c.n() == 1 ? "P" : "R"}, 90, 1); mask_all(o, 1); string f = W->dir + "/another.yaml"; spit(f, yaml(o)); Robot r2 = thunder_ns::robot_from_file("rob", f); r2.set_q(ev(val(1, 83))); r2.get("M"); r2.set_par_REG(ev(to_reg(inert(o, 3)))); return true; }});
  return A;
}
struct Explorer {
  World& w; Ctx& x; const vector<Op>& A; int depth; bool eager; vector<int> path; bool stop = false;
  void bad(const string& what, const string& d) { string s; for (int i : path) s += (s.empty() ? "" : "; ") + A[i].name; x.violation(what, d + "\nafter: " + s + "\n" + yaml(w.c)); if (x.nviol > 2) stop = true; }
  void node(Robot& r, RObj& o, map<string, GFile>& files, int d, int first = -1) {
    for (int i = (first >= 0 ? first : 0); i < (first >= 0 ? first + 1 : (int)A.size()) && !stop; i++) {
      Robot n = r; RObj no = o; files[w.dir + "/s" + std::to_string(d) + ".yaml"] = GFile(); string err; bool ok = false; Step s{&n, &no, d, &files};
      { Capture cap; try { ok = A[i].run(s, err); } catch (const std::exception& e) { err = string("unexpected exception: ") + e.what(); ok = true; } } if (!ok) continue;
      path.push_back(i); x.transition(); x.trace(); string e = err;
      if (e.empty()) e = w.getters(n, no);
      if (e.empty()) { if (eager) e = w.functions(n, no, d % 2); else { Robot t = n; e = w.functions(t, no); } }
      x.state_once(hash_state(no.a, hash_bytes(no.REG.data(), no.REG.size() * 8)));
      if (!e.empty()) bad(A[i].name, e); else if (d + 1 < depth) node(n, no, files, d + 1);
      path.pop_back();
    }
    string e = w.getters(r, o); if (e.empty()) e = w.functions(r, o); if (!e.empty()) bad("the original after its copy was used", e);
  }
};
static vector<Case> make(bool th) {
  vector<Case> cs; vector<Cfg> l;
  auto add = [&](const Cfg& c, bool reduced, int depth, bool eager, int chunk, const string& label) {
    for (int part = 0; part < chunk; part++) cs.push_back({"types " + c.typestr() + ", " + label + ", " + (reduced ? "small" : "full") + " alphabet, depth " + std::to_string(depth) + (eager ? "" : ", evaluated on copies") + ", part " + std::to_string(part), [=](Ctx& x) {
      World w(x, c); w.make_files(); auto A = alphabet(w, reduced); Explorer E{w, x, A, depth, eager}; map<string, GFile> files; string f = x.tmp("cfg.yaml"); spit(f, yaml(c)); Robot r = thunder_ns::robot_from_file("rob", f), other = thunder_ns::robot_from_file("rob", f); RObj o = w.fresh(), oo = w.fresh();
      string e = w.getters(r, o); if (e.empty()) e = w.getters(other, oo); if (!e.empty()) { x.violation("new robot", e + "\n" + yaml(c)); return; }
      for (int i = part; i < (int)A.size() && !E.stop; i += chunk) E.node(r, o, files, 0, i);
      e = w.getters(other, oo); if (e.empty()) e = w.functions(other, oo); if (!e.empty()) x.violation("another robot", e + "\nafter operations on a different robot\n" + yaml(c)); }});
  };
  Cfg a = generic({"R_SEA"}, 21, 1, true, 1, 1, 1); mask_all(a, 1); Cfg b = generic({"P"}, 22, 2); Cfg c = generic({"P_SEA"}, 23, 2, true, 2, 1, 2); mask_alt(c, 1); Cfg d = generic({"R", "P_SEA"}, 24, 1, true, 1, 1, 1); mask_alt(d, 0); Cfg e = generic({"R", "P"}, 25, 1); mask_all(e, 1);
  for (auto& g : {a, b, c}) { add(g, false, 2, true, 8, "one joint"); add(g, true, 2, false, 8, "one joint"); }
  add(e, true, 2, true, 8, "two joints"); add(d, true, 2, false, 8, "two joints");
  // many joints: every single call
  { Cfg m = generic({"R", "P_SEA", "R_SEA", "R", "P", "R_SEA", "R", "P_SEA"}, 26, 2, true, 2, 1, 2); mask_alt(m, 1); Cfg k = generic({"R", "R", "P", "R", "R", "P", "R", "R", "P", "R"}, 27, 1); mask_alt(k, 0); add(m, false, 1, true, 8, "many joints"); if (th) add(k, false, 1, true, 8, "many joints"); if (th) add(m, true, 2, true, 32, "many joints"); }
  if (th) { for (auto& g : {a, b, c}) { add(g, false, 2, false, 8, "one joint"); add(g, true, 3, true, 32, "one joint"); add(g, true, 3, false, 32, "one joint"); add(g, false, 3, true, 64, "one joint"); } for (auto& g : {d, e}) { add(g, false, 2, true, 32, "two joints"); add(g, false, 2, false, 32, "two joints"); } }
  return cs;
}
int main(int argc, char** argv) { return run(argc, argv, make); }
