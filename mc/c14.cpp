// C14: every sequence of public calls on a generated robot object, in lockstep with the abstract machine.
#include "gmodel.hpp"
using namespace mc; using ref::Mat;

struct Step { GenRobot* r; GObj* o; int depth; map<string, GFile>* files; string dir; string* report; std::unique_ptr<GenRobot>* slot = nullptr; };
struct Op { string name; std::function<bool(Step&)> run; bool reported = false, unreadable = false; };  // run: false if not applicable here

static Vec val(int n, int k) { Vec v; for (int i = 0; i < n; i++) v.push_back(gen(29 * k + i, -1.9, 2.1)); return v; }
static Vec inert(const Cfg& c, int k) { return generic(c.types, 40 + k, 0).val.at("par_DYN"); }

// files every case starts with
static map<string, GFile> base_files(GWorld& w, const string& dir) {
  map<string, GFile> F; const Cfg& c = w.c; F[w.conf] = w.conf_file();
  Cfg d = c; { int t = 7; for (auto& p : PARS) for (auto& z : d.val[p]) z = z * 0.9 + gen(t++, 0.1, 0.3); d.names++; }
  auto put = [&](const string& n, const string& text, const GFile& f) { spit(dir + "/" + n, text); F[dir + "/" + n] = f; };
  GFile other; other.kind = GFile::Conf; for (auto& p : PARS) if (c.size(p)) other.part[p] = d.val[p];
  put("other.yaml", yaml(d), other);
  YAML::Node all = YAML::Load(yaml(d));
  map<string, vector<string>> sec = {{"kinematics", {"par_DHtable"}}, {"gravity", {"par_gravity"}}, {"Base_to_L0", {"par_world2L0"}}, {"Ln_to_EE", {"par_Ln2EE"}}, {"dynamics", {"par_DYN", "par_Dl"}}, {"elastic", {"par_K", "par_D", "par_Dm", "par_Mm"}}};
  for (auto& s : sec) { if (!all[s.first]) continue; YAML::Node n; n[s.first] = all[s.first]; std::ostringstream o; o << n; GFile f; f.kind = GFile::Conf; for (auto& p : s.second) if (c.size(p)) f.part[p] = d.val[p]; put("part_" + s.first + ".yaml", o.str(), f); }
  { YAML::Node n = YAML::Load(yaml(d)); for (auto l : n["dynamics"]) l.second.remove("friction"); YAML::Node z; z["dynamics"] = n["dynamics"]; std::ostringstream o; o << z; GFile f; f.kind = GFile::Conf; f.part["par_DYN"] = d.val["par_DYN"]; put("nofric.yaml", o.str(), f); }
  { GFile f; f.kind = GFile::Reg; f.part["par_REG"] = to_reg(inert(c, 9)); std::ostringstream o; o << "dynamics:\n"; static const char* nm[] = {"mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"}; for (int i = 0; i < c.n(); i++) { o << "  link" << i + 1 << ":\n    inertial: {"; for (int k = 0; k < 10; k++) o << (k ? ", " : "") << nm[k] << ": " << num(f.part["par_REG"][10 * i + k]); o << "}\n"; } put("reg.yaml", o.str(), f); }
  put("garbage.yaml", "kinematics: [1, 2\n  dynamics: {", GFile{GFile::Garbage, {}}); put("empty.yaml", "", GFile{GFile::Neutral, {}}); put("scalar.yaml", "hello", GFile{GFile::Neutral, {}}); F[dir + "/missing.yaml"] = GFile(); mkdir((dir + "/adir.yaml").c_str(), 0755); F[dir + "/adir.yaml"] = GFile();
  return F;
}

static string how_name(int h) { return h == 0 ? "(entries rotated)" : h == 1 ? "(negated)" : h == 2 ? "(last entry +1e-9)" : h == 3 ? "(far away)" : "(nearly zero)"; }
static bool alter(Vec& z, int how) { Vec o = z; if (z.empty()) return false; if (how == 0) std::rotate(z.begin(), z.begin() + 1, z.end()); else if (how == 1) for (auto& e : z) e = -e; else if (how == 2) z.back() += 1e-9; else if (how == 3) { int k = 0; for (auto& e : z) e = 7 * e + (k++ % 2 ? -55 : 34); } else for (auto& e : z) e *= 1e-12; for (size_t i = 0; i < z.size(); i++) if (z[i] != o[i]) return true; return false; }
static vector<Op> alphabet(GWorld& w, const string& dir, const map<string, GFile>& F, bool reduced) {
  vector<Op> A; const Cfg& c = w.c; GWorld* pw = &w;
  auto setter = [&](const string& name, const string& what, Vec v, std::function<void(GObj&)> eff) { A.push_back({name, [=](Step& s) { s.r->set(what, ev(v)); if (eff) eff(*s.o); return true; }, !eff}); };
  int k = 0; bool whole = w.whole();
  for (auto& v : VARS) {
    int n = var_size(c, v); k++;
    if (n) for (int a = 0; a < (reduced ? 1 : 2); a++) { Vec z = val(n, k + 50 * a); setter("set_" + v + "(" + std::to_string(a) + ")", v, z, [=](GObj& o) { o.v[v] = z; }); }
    setter("set_" + v + "(one too many)", v, val(n + 1, k), nullptr); if (n && !reduced) setter("set_" + v + "(one missing)", v, val(n - 1, k), nullptr); if (n > 1 && !reduced) setter("set_" + v + "(empty)", v, Vec(), nullptr);
  }
  for (int a = 0; a < (reduced ? 1 : 2); a++) for (int fl = 0; fl < 2; fl++) {
    Vec d = inert(c, 1 + a), r = to_reg(inert(c, 5 + a));
    A.push_back({"set_par_DYN(" + std::to_string(a) + ", " + (fl ? "true)" : "false)"), [=](Step& s) { s.r->set("par_DYN", ev(d), fl); s.o->v["par_DYN"] = d; s.o->derDYN = false; if (fl) { s.o->REG = to_reg(d); s.o->derREG = true; } return true; }});
    A.push_back({"set_par_REG(" + std::to_string(a) + ", " + (fl ? "true)" : "false)"), [=](Step& s) { s.r->set("par_REG", ev(r), fl); s.o->REG = r; s.o->derREG = false; if (fl) { s.o->v["par_DYN"] = to_dyn(r); s.o->derDYN = true; } return true; }});
  }
  for (auto& p : {"par_DYN", "par_REG"}) { for (int d : {1, -1}) { string pp = p; Vec z = val(10 * c.n() + d, 3); A.push_back({"set_" + pp + (d > 0 ? "(one too many)" : "(one missing)"), [=](Step& s) { s.r->set(pp, ev(z), d > 0); return true; }, true}); } }
  for (auto& p : PARS) {
    if (p == "par_DYN") continue; k++;
    A.push_back({"set_" + p + "(ok)", [=](Step& s) { int n = (int)s.o->v[p].size(); if (!n) return false; Vec z = val(n, k); s.r->set(p, ev(z)); s.o->v[p] = z; return true; }});
    A.push_back({"set_" + p + "(one too many)", [=](Step& s) { int n = (int)s.o->v[p].size(); s.r->set(p, ev(val(n + 1, k))); return true; }, true});
    if (!reduced) A.push_back({"set_" + p + "(one missing)", [=](Step& s) { int n = (int)s.o->v[p].size(); if (!n) return false; s.r->set(p, ev(val(n - 1, k))); return true; }, true});
  }
  // values that differ from the present ones by a rotation of the entries, the signs, or a little
  for (auto& p : VARS) for (int how = 0; how < 5; how++) { if (reduced && how != 1 && how != 3) continue; A.push_back({"set_" + p + how_name(how), [=](Step& s) { Vec z = s.o->v[p]; if (!alter(z, how)) return false; s.r->set(p, ev(z)); s.o->v[p] = z; return true; }}); }
  if (!reduced) for (auto& p : PARS) if (c.size(p)) for (int how = 0; how < 5; how++) A.push_back({"set_" + p + how_name(how), [=](Step& s) { Vec z = s.o->v[p]; if (!alter(z, how)) return false; s.r->set(p, ev(z), false); s.o->v[p] = z; return true; }});
  if (!reduced) for (int how = 1; how < 3; how++) for (int fl = 0; fl < 2; fl++) {
    if (fl) A.push_back({"set_par_DYN" + how_name(how) + ", true", [=](Step& s) { Vec z = s.o->v["par_DYN"]; if (z.empty() || !alter(z, how)) return false; s.r->set("par_DYN", ev(z), true); s.o->v["par_DYN"] = z; s.o->derDYN = false; s.o->REG = to_reg(z); s.o->derREG = true; return true; }});
    A.push_back({"set_par_REG" + how_name(how) + (fl ? ", true" : ", false"), [=](Step& s) { Vec z = s.o->REG; if (fl) for (size_t i = 0; i < z.size(); i += 10) if (z[i] == 0) return false; if (!alter(z, how)) return false; s.r->set("par_REG", ev(z), fl); s.o->REG = z; s.o->derREG = false; if (fl) { s.o->v["par_DYN"] = to_dyn(z); s.o->derDYN = true; } return true; }});
  }
  // values that are not finite, the functions used with them, and finite ones again: nothing may stick
  { vector<string> all = VARS; for (auto& p : PARS) all.push_back(p); all.push_back("par_REG"); int kk = 300; for (auto& p : all) { kk++; if (reduced && p != "q" && p != "par_DHtable" && p != "par_Dl") continue; bool par = p.compare(0, 4, "par_") == 0;
    for (int fl = 0; fl < 2; fl++) { if (fl && p != "par_DYN" && p != "par_REG") continue; A.push_back({"set_" + p + "(not finite), and finite again" + (fl ? ", true" : ""), [=](Step& s) { Vec old = p == "par_REG" ? s.o->REG : s.o->v[p]; if (old.empty()) return false; Vec z = p == "par_REG" ? to_reg(inert(c, 50)) : p == "par_DYN" ? inert(c, 51) : val((int)old.size(), kk);
      for (int how = 0; how < 3; how++) { Vec b = not_finite(z, how); string rep; { Capture cap; s.r->set(p, ev(b), fl); rep = cap.o.str(); } if (par) { Vec g = sv(s.r->par(p)); if (!same_bits_or_nan(g, b) && !(same_bits_or_nan(g, how ? z : old) && !rep.empty())) throw std::runtime_error("after set_" + p + "(" + nums(b) + ") get_" + p + " is " + nums(g)); } for (auto& f : pw->fns) s.r->get(f);
        s.r->set(p, ev(z), fl); }
      if (p == "par_REG") { s.o->REG = z; s.o->derREG = false; if (fl) { s.o->v["par_DYN"] = to_dyn(z); s.o->derDYN = true; } } else s.o->v[p] = z; if (p == "par_DYN") { s.o->derDYN = false; if (fl) { s.o->REG = to_reg(z); s.o->derREG = true; } } return true; }}); } } }
  A.push_back({"set_par_DHtable(matrix)", [=](Step& s) { int n = (int)s.o->v["par_DHtable"].size(); if (n != 4 * c.n()) return false; Vec z = val(n, 77); Eigen::MatrixXd M(n / 4, 4); for (int i = 0; i < n; i++) M(i / 4, i % 4) = z[i]; s.r->set_mat("par_DHtable", M); s.o->v["par_DHtable"] = z; return true; }});
  { Vec q = val(c.n(), 61), dq = val(c.n(), 62), dqr = val(c.n(), 63), ddqr = val(c.n(), 64); A.push_back({"setArguments(ok)", [=](Step& s) { s.r->setArguments(ev(q), ev(dq), ev(dqr), ev(ddqr)); s.o->v["q"] = q; s.o->v["dq"] = dq; s.o->v["dqr"] = dqr; s.o->v["ddqr"] = ddqr; return true; }});
    for (int b = 0; b < (reduced ? 2 : 4); b++) { vector<Vec> a = {q, dq, dqr, ddqr}; if (b % 2) a[b].pop_back(); else a[b].push_back(1.0); A.push_back({"setArguments(argument " + std::to_string(b) + " of wrong size)", [=](Step& s) { s.r->setArguments(ev(a[0]), ev(a[1]), ev(a[2]), ev(a[3])); return true; }, true}); } }
  // all wrong sizes at once: none may be accepted, not even in part
  A.push_back({"setArguments(every wrong combination of sizes)", [=](Step& s) { int n = c.n(); for (int m = 0; m < 81; m++) { int k[4] = {m % 3, m / 3 % 3, m / 9 % 3, m / 27}; if (m == 40) continue; auto a = [&](int i) { return ev(val(n - 1 + k[i], 70 + i)); }; s.r->setArguments(a(0), a(1), a(2), a(3)); } return true; }, true});
  for (auto& v : VARS) A.push_back({"set_" + v + "(every wrong size)", [=](Step& s) { int n = (int)s.o->v[v].size(); for (int k = 0; k <= 2 * n + 2; k++) if (k != n) s.r->set(v, ev(val(k, 75))); return true; }, true});
  for (auto& p : PARS) if (c.size(p)) for (int fl = 0; fl < 2; fl++) { if (fl && p != "par_DYN") continue; A.push_back({"set_" + p + "(every wrong size)", [=](Step& s) { int n = (int)s.o->v[p].size(); for (int k = 0; k <= 2 * n + 2; k++) if (k != n) s.r->set(p, ev(val(k, 76)), fl); return true; }, true}); }
  A.push_back({"set_par_REG(every wrong size)", [=](Step& s) { int n = 10 * c.n(); for (int k = 0; k <= 2 * n + 2; k++) if (k != n) s.r->set("par_REG", ev(val(k, 77)), k % 2); return true; }, true});
  for (auto& f : F) { string n = f.first.substr(f.first.rfind('/') + 1), path = f.first; GFile g = f.second;
    for (int fl = 0; fl < 2; fl++) { string t = string(fl ? ", true)" : ", false)");
      if (reduced && (fl == 0) != (n == "other.yaml" || n == "garbage.yaml" || n == "reg.yaml")) continue;
      if (reduced && (n == "empty.yaml" || n == "scalar.yaml" || n == "adir.yaml" || n == "part_kinematics.yaml" || n == "part_gravity.yaml" || n == "part_Ln_to_EE.yaml")) continue;
      if (g.kind != GFile::Reg) A.push_back({"load_conf(" + n + t, [=](Step& s) { s.r->load_conf(path, fl); pw->load_conf(*s.o, g, fl); return true; }, false, g.kind != GFile::Conf});
      if (g.kind != GFile::Conf) A.push_back({"load_par_REG(" + n + t, [=](Step& s) { s.r->load_par_REG(path, fl); pw->load_reg(*s.o, g, fl); return true; }, false, g.kind != GFile::Reg}); } }
  // saving and loading what was saved (by any earlier call of the sequence)
  A.push_back({"save_par_REG", [=](Step& s) { string f = dir + "/s" + std::to_string(s.depth) + ".yaml"; occupied(f); s.r->save_par_REG(f); GFile g; g.kind = GFile::Reg; g.part["par_REG"] = s.o->REG; g.part["par_Dl"] = s.o->v["par_Dl"]; (*s.files)[f] = g; return true; }});
  A.push_back({"save_par_DYN", [=](Step& s) { string f = dir + "/s" + std::to_string(s.depth) + ".yaml"; occupied(f); s.r->save_par_DYN(f); GFile g; g.kind = GFile::Conf; g.part["par_DYN"] = s.o->v["par_DYN"]; g.part["par_Dl"] = s.o->v["par_Dl"]; (*s.files)[f] = g; return true; }});
  A.push_back({"save_par", [=](Step& s) { s.r->save_par(dir + "/sp.yaml"); return true; }});
  A.push_back({"save to a directory that does not exist", [=](Step& s) { s.r->save_par(dir + "/no/such/f.yaml"); s.r->save_par_REG(dir + "/no/such/f.yaml"); s.r->save_par_DYN(dir + "/no/such/f.yaml"); return true; }});
  for (int fl = 0; fl < 2; fl++) A.push_back({string("load the saved file (") + (fl ? "true)" : "false)"), [=](Step& s) { for (int d = s.depth - 1; d >= 0; d--) { string f = dir + "/s" + std::to_string(d) + ".yaml"; auto it = s.files->find(f); if (it == s.files->end() || it->second.kind == GFile::Missing) continue; if (it->second.kind == GFile::Reg) { for (int i = 0; fl && i < c.n(); i++) if (it->second.part["par_REG"][10 * i] == 0) return false; /* no DYN form without mass */ s.r->load_par_REG(f, fl); pw->load_reg(*s.o, it->second, fl); } else { s.r->load_conf(f, fl); pw->load_conf(*s.o, it->second, fl); } return true; } return false; }});
  A.push_back({"use of a copy", [=](Step& s) { std::unique_ptr<GenRobot> cp(s.r->clone()); for (auto& v : VARS) cp->set(v, ev(val(var_size(c, v), 90))); cp->set("par_DYN", ev(inert(c, 30))); cp->load_conf(pw->conf); for (auto& f : pw->fns) cp->get(f); return true; }});
  A.push_back({"moved to another object", [=](Step& s) { std::unique_ptr<GenRobot> m(s.r->moved()); s.slot->swap(m); s.r = s.slot->get(); return true; }});
  if (whole) A.push_back({"resizeVariables", [=](Step& s) { s.r->resizeVariables(); *s.o = pw->fresh(); return true; }});
  return A;
}

struct Explorer {
  GWorld& w; Ctx& x; const vector<Op>& A; string dir; int depth; bool eager; vector<int> path; bool stop = false;
  void bad(const string& what, const string& d) { string s; for (int i : path) s += (s.empty() ? "" : "; ") + A[i].name; x.violation(what, d + "\nafter: " + s + "\nrobot " + w.sp.name + "\n" + yaml(w.c)); if (x.nviol > 2) stop = true; }
  string check(GenRobot& r, GObj& o, bool fn) { string e = w.getters(r, o); if (e.empty() && fn) e = w.functions(r, o, false); return e; }
  void node(GenRobot& r, GObj& o, map<string, GFile>& files, int d, int first = -1) {
    for (int i = (first >= 0 ? first : 0); i < (first >= 0 ? first + 1 : (int)A.size()) && !stop; i++) {
      std::unique_ptr<GenRobot> n(r.clone()); GObj no = o; map<string, GFile> keep; string sf = dir + "/s" + std::to_string(d) + ".yaml"; files[sf] = GFile();
      string rep; bool ok = false; Step s{n.get(), &no, d, &files, dir, &rep, &n}; string ex; { Capture cap; try { ok = A[i].run(s); } catch (const std::exception& e) { ex = e.what(); } rep = cap.o.str() + ex; } if (ex.empty() && !ok) continue;
      path.push_back(i); x.transition();
      if (!ex.empty() && !A[i].reported && !A[i].unreadable) { bad(A[i].name, "unexpected exception: " + ex); path.pop_back(); continue; }
      if (A[i].reported && rep.empty()) bad("not reported", A[i].name + " was not reported");
      string e = w.getters(*n, no);
      if (e.empty()) { if (eager) e = w.functions(*n, no, d + 1 == depth); else { std::unique_ptr<GenRobot> t(n->clone()); e = w.functions(*t, no, false); } }
      x.trace(); x.state_once(hash_state(no.v, hash_bytes(no.REG.data(), no.REG.size() * 8)));
      if (!e.empty()) bad(A[i].name, e);
      else if (d + 1 < depth) { node(*n, no, files, d + 1); }
      path.pop_back();
    }
    string e = check(r, o, true); if (!e.empty()) bad("the original after its copy was used", e);
  }
};

static vector<GenSpec> specs(bool th) {
  vector<GenSpec> l; auto put = [&](const string& n, const Cfg& c) { GenSpec g; g.name = n; g.cfg = c; l.push_back(g); };
  { Cfg c = generic({"R_SEA"}, 11, 1, true, 1, 1, 1); mask_all(c, 1); put("s1", c); }
  { Cfg c = generic({"P"}, 12, 2); put("s2", c); }
  { Cfg c = generic({"R", "P_SEA"}, 13, 1, true, 2, 1, 2); mask_all(c, 1); put("s3", c); }
  { Cfg c = generic({"P_SEA", "R"}, 14, 2, true, 1, 2, 1); mask_alt(c, 0); put("s4", c); }
  { Cfg c = generic({"R", "P"}, 15, 0); mask_all(c, 1); put("s5", c); }
  { Cfg c = generic({"R", "P_SEA", "R_SEA", "R", "P", "R_SEA", "R", "P_SEA"}, 18, 2, true, 2, 1, 2); mask_all(c, 0); for (auto& p : {"par_DYN", "par_gravity", "par_K", "par_Dl"}) { auto& m = c.mask[p]; for (size_t i = 0; i < m.size(); i += 3) m[i] = 1; } put("s8", c); }
  if (th) { Cfg c = generic({"R_SEA", "P", "R_SEA"}, 16, 1, true, 1, 1, 1); mask_alt(c, 1); put("s6", c); c = generic({"R", "R_SEA", "P_SEA"}, 17, 2, true, 2, 2, 2); mask_all(c, 1); put("s7", c); }
  return l;
}
static vector<Case> cases(bool th, const vector<GenSpec>& l) {
  vector<Case> cs;
  auto add = [&](const GenSpec& sp, bool reduced, int depth, bool eager, bool loaded, int chunk) {
    for (int part = 0; part < chunk; part++) cs.push_back({"robot " + sp.name + " types " + sp.cfg.typestr() + ", " + (loaded ? "after load_conf" : "new object") + ", " + (reduced ? "small" : "full") + " alphabet, depth " + std::to_string(depth) + (eager ? ", evaluated after every call" : ", evaluated at the end") + ", part " + std::to_string(part), [=](Ctx& x) {
      if (!gen_table().count(sp.name)) return; GWorld w(x, sp); if (!loaded && !w.whole()) return; auto F = base_files(w, x.dir); auto A = alphabet(w, x.dir, F, reduced);
      auto r = w.make(); GObj o = w.fresh(); if (loaded) { r->load_conf(w.conf); w.load_conf(o, w.conf_file(), true); }
      auto other = w.make(); GObj oo = w.fresh(); other->load_conf(w.conf); w.load_conf(oo, w.conf_file(), true); { Vec q = val(w.c.n(), 5); other->set("q", ev(q)); oo.v["q"] = q; }
      Explorer E{w, x, A, x.dir, depth, eager}; map<string, GFile> files;
      { string e = w.getters(*r, o); if (!e.empty()) { x.violation("initial", e); return; } }
      for (int i = part; i < (int)A.size() && !E.stop; i += chunk) E.node(*r, o, files, 0, i);
      string e = w.getters(*other, oo); if (e.empty()) e = w.functions(*other, oo, true); if (!e.empty()) x.violation("another object", e + "\nafter operations on a different object of the same class"); }});
  };
  for (auto& sp : l) {
    bool one = sp.cfg.n() == 1; if (sp.cfg.n() > 4) { add(sp, false, 1, true, true, 8); add(sp, false, 1, false, false, 8); continue; }
    add(sp, false, 2, true, true, 4); add(sp, false, 2, false, true, 4); add(sp, false, 2, true, false, 4);
    if (one || th) { add(sp, true, 3, true, true, 16); add(sp, true, 3, false, false, 16); }
    if (th) { add(sp, false, 3, true, true, 32); add(sp, false, 3, false, true, 32); if (one) add(sp, true, 4, false, true, 32); }
  }
  return cs;
}
int main(int argc, char** argv) { return gen_main(argc, argv, specs, cases); }
