// C22: the module generated with -p, built by its own CMakeLists.txt against a recording pybind11, is driven through its
// exported names next to an object of the class generated without -p.
#define MC_WITH_MODEL
#include "genload.hpp"
#include "c20user.hpp"
#include "pymock/pybind11/pybind11.h"
using namespace mc; using pymock::Val;

static string user_yaml(const vector<UF>& l) { string s = "mc_user:\n"; for (auto& u : l) { string d; for (char c : u.text()) { if (c == '\n') d += "\\n"; else { if (c == '"' || c == '\\') d += '\\'; d += c; } } s += "  - \"" + d + "\"\n"; } return s; }
static vector<UF> users(int k) {
  static const vector<string> nm = {"f", "robot_thing", "self", "M2", "my_value", "reg2", "T"}; static const vector<string> ds = {"a \"quoted\" word", "two\nlines", "back\\slash \\n", "", "comment */ end /* start // and %s", "trigraph ??/ and \ttab and robot", "R\"(raw)\" and )\" and ;"};
  vector<UF> l; for (size_t i = 0; i < nm.size(); i++) { UF u; u.name = nm[i]; u.args = {i % 2 ? "dq" : "q"}; if (i > 3) u.args.push_back("par_gravity"); u.r = 1 + i % 3; u.c = 1 + (i + k) % 2; u.kind = i % 2 ? 0 : 2; u.descr = ds[(i + k) % ds.size()]; l.push_back(u); } return l;
}
static vector<GenSpec> specs(bool th) {
  vector<GenSpec> l; auto add = [&](const string& n, Cfg c, int mask, const string& extra = "") { if (mask == 1) mask_all(c, 1); else if (mask == 2) mask_alt(c, 0); else mask_all(c, 0); l.push_back({n, c, {}, {}, extra, ""}); };
  add("arm", generic({"R"}, 1, 1), 0); add("robot", generic({"P", "R"}, 2, 2), 2); add("my_robot", generic({"R_SEA", "P"}, 3, 1, true, 1, 1, 1), 2); add("u_bot", generic({"R"}, 4, 1), 2, user_yaml(users(0))); add("py", generic({"P_SEA"}, 5, 1, true, 2, 1, 1), 1); add("gen", generic({"R", "P_SEA"}, 6, 0, true, 1, 0, 1), 0, user_yaml(users(3)));
  // many functions: from the user and from many joints
  { vector<UF> u; for (int i = 0; i < 150; i++) { UF f; f.name = "h" + std::to_string(i); f.args = {i % 3 ? "q" : "dq"}; f.r = 1 + i % 2; f.c = 1 + i % 3 / 2; f.kind = i % 2 ? 0 : 2; f.descr = i % 4 ? "number " + std::to_string(i) : ""; u.push_back(f); } add("crowd", generic({"R", "P"}, 7, 1), 2, user_yaml(u)); }
  { vector<string> t; for (int i = 0; i < (th ? 11 : 8); i++) t.push_back(i % 3 == 1 ? "P" : i == 5 ? "R_SEA" : "R"); add("long_bot", generic(t, 8, 1, true, 1, 1, 1), 2); }
  if (th) { int k = 10; for (auto& t : vector<vector<string>>{{"R"}, {"P"}, {"R_SEA"}, {"P_SEA"}, {"R", "R"}, {"R_SEA", "R"}, {"P", "P_SEA"}, {"R", "P", "R"}, {"R", "R_SEA", "P"}}) for (int m = 0; m < 3; m++) { bool el = false; for (auto& s : t) el |= s.size() > 1; add("t" + std::to_string(k), generic(t, k, 1 + k % 2, el, 1 + k % 2, 1, 1), m, m == 1 ? user_yaml(users(k)) : string()); k++; } }
  return l;
}
struct Py {  // an object of the exported class
  pymock::Class* c; void* o; Py(pymock::Class* k, void* p) : c(k), o(p) {} Py(const Py& x) : c(x.c), o(x.c->clone(x.o)) {} ~Py() { c->destroy(o); }
  const pymock::Def* find(const string& n, size_t na) const { for (auto& d : c->defs) if (d.name == n && (int)na <= d.nargs) { bool ok = true; for (int i = na; i < d.nargs; i++) if ((size_t)i >= d.has_default.size() || !d.has_default[i]) ok = false; if (ok) return &d; } return nullptr; }
  Val call(const string& n, vector<Val> a) { const pymock::Def* d = find(n, a.size()); if (!d) throw pymock::TypeError(n + " cannot be called with " + std::to_string(a.size()) + " arguments"); for (int i = a.size(); i < d->nargs; i++) a.push_back(d->deflt[i]); return d->call(o, a); }
  Val kw(const string& n, const string& key, vector<Val> a, Val v) {  // one further argument given by its name
    for (auto& d : c->defs) if (d.name == n) for (size_t i = a.size(); i < d.argname.size(); i++) if (d.argname[i] == key) { vector<Val> b = a; for (int k = a.size(); k < d.nargs; k++) b.push_back(k == (int)i ? v : d.deflt[k]); return d.call(o, b); } throw pymock::TypeError(n + " has no argument " + key); }
  Val kws(const string& n, vector<Val> a, const map<string, Val>& named) {  // the arguments after the first ones all by their names
    string why = n + " is not there"; for (auto& d : c->defs) if (d.name == n) { why.clear(); vector<Val> b = a; if ((int)a.size() > d.nargs) { why = "too many arguments"; continue; } size_t used = 0;
      for (int i = a.size(); i < d.nargs; i++) { auto it = i < (int)d.argname.size() ? named.find(d.argname[i]) : named.end(); if (it != named.end()) { b.push_back(it->second); used++; } else if (i < (int)d.has_default.size() && d.has_default[i]) b.push_back(d.deflt[i]); else { why = n + ": argument " + std::to_string(i) + " cannot be left out"; break; } }
      if (why.empty() && used != named.size()) why = n + " has no argument of one of the names"; if (why.empty()) return d.call(o, b); } throw pymock::TypeError(why); }
};
static Val arr(const Eigen::MatrixXd& m) { Val v; v.k = Val::Array; v.m = m; return v; }
static Val txt(const string& s) { Val v; v.k = Val::Str; v.s = s; return v; }
static Val numv(double d) { Val v; v.k = Val::Num; v.d = d; return v; }
static bool same(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (int i = 0; i < a.size(); i++) { double x = a.data()[i], y = b.data()[i]; if (!(x == y || (std::isnan(x) && std::isnan(y)) || std::fabs(x - y) <= 1e-12 * (1 + std::fabs(x)))) return false; } return true; }
static string mat(const Eigen::MatrixXd& m) { string s = std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + " ["; for (int i = 0; i < m.size() && i < 40; i++) s += (i ? ", " : "") + num(m.data()[i]); return s + "]"; }
struct Op { string text, name; std::function<string(Py&, GenRobot&)> run; };  // "" or what differs
struct World {
  Ctx& x; const GenSpec& sp; const Cfg& c; pymock::Module mod; pymock::Class* cls = nullptr; string dir; bool ok = false; vector<Op> ops; vector<string> fns, pars;
  void bad(const string& what, const string& d) { x.violation(what, d + "\n" + yaml(c)); }
  World(Ctx& x_, const GenSpec& s) : x(x_), sp(s), c(s.cfg), fns(gen_make(s.name)->names()) {
    GenHandle& h = gen_handle(s.name); dir = h.dir; string so = dir + "/module.so"; void* p = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); if (!p) { bad("the binding module cannot be loaded", dlerror()); return; }
    string in = "pymock_module_thunder_" + s.name + "_py"; auto f = (void (*)(pymock::Module*))dlsym(p, in.c_str()); if (!f) { bad("the binding module does not have its name", "thunder_" + s.name + "_py expected"); return; }
    try { f(&mod); } catch (const std::exception& e) { bad("importing the binding module fails", e.what()); return; } x.state();
    for (auto& k : mod.classes) if (k.name == "thunder_" + s.name) { if (cls) { bad("class exported twice", k.name); return; } cls = &k; } if (!cls || !cls->make) { bad("class is not exported", "thunder_" + s.name + (cls ? " has no constructor" : "")); return; }
    pars = PARS; pars.push_back("par_REG"); alphabet(); ok = true;
  }
  vector<string> required() const {
    vector<string> r = {"resizeVariables", "setArguments", "load_conf", "load_par_REG", "save_par_REG", "save_par_DYN", "save_par", "get_numJoints", "get_numParDYN", "get_numParREG"}; for (auto& v : VARS) r.push_back("set_" + v); for (auto& p : pars) { r.push_back("set_" + p); r.push_back("get_" + p); } for (auto& f : fns) r.push_back("get_" + f);
    std::ifstream f(dir + "/public.txt"); string n; while (f >> n) if (std::find(r.begin(), r.end(), n) == r.end()) r.push_back(n); return r;
  }
  bool names() {
    bool good = true; for (auto& n : required()) { x.transition(); int k = 0; for (auto& d : cls->defs) k += d.name == n; if (!k) { bad("not exported", n); good = false; } }
    for (auto& d : cls->defs) for (size_t i = 0; i < d.argname.size(); i++) for (size_t j = 0; j < i; j++) if (d.argname[i] == d.argname[j]) { bad("argument names", d.name + " has two arguments " + d.argname[i]); good = false; }
    return good;
  }
  template <class P, class D> string both(P p, D d) {  // runs one call on both; compares results or the fact that both fail
    string e1, e2; Val a; Eigen::MatrixXd m; double s = 0; int kind = 0; try { a = p(); } catch (const pymock::TypeError& e) { return string("cannot be called: ") + e.what(); } catch (const std::exception& e) { e1 = "throws"; } try { kind = d(m, s); } catch (const std::exception& e) { e2 = "throws"; }
    if (e1 != e2) return "through the binding it " + (e1.empty() ? string("works") : e1) + ", directly it " + (e2.empty() ? string("works") : e2); if (!e1.empty()) return "";
    if (kind == 0) return a.k == Val::None ? "" : "returns something"; if (kind == 1) return a.k == Val::Array && same(a.m, m) ? "" : "returns " + (a.k == Val::Array ? mat(a.m) : string("no array")) + ", directly " + mat(m); return a.k == Val::Num && a.d == s ? "" : "returns " + num(a.d) + ", directly " + num(s);
  }
  Eigen::VectorXd value(const string& a, int k) const { int n = 0; if (a == "par_REG") n = 10 * c.n(); else { n = var_size(c, a); if (!c.mask.count(a)) ; else { n = c.size(a); if (is_kin(a)) { n = 0; for (int b : c.mask.at(a)) n += b; } } } Eigen::VectorXd v(n); for (int i = 0; i < n; i++) v(i) = gen((int)(hash_str(a) % 500) + 17 * k + i, 0.2, 1.5); return v; }
  static bool is_kin(const string& p) { return p == "par_DHtable" || p == "par_world2L0" || p == "par_Ln2EE" || p == "par_gravity"; }
  void alphabet() {
    for (auto a : VARS) { int n = value(a, 0).size(); (void)n; for (int k : {0, 1}) ops.push_back({"set_" + a + "(" + std::to_string(k) + ")", "set_" + a, [=](Py& p, GenRobot& d) { auto v = value(a, k); return both([&] { return k ? p.kws("set_" + a, {}, {{a, arr(v)}}) : p.call("set_" + a, {arr(v)}); }, [&](auto&, double&) { d.set(a, v); return 0; }); }}); }
    for (auto a : pars) { bool flag = a == "par_REG" || a == "par_DYN"; for (int k : {0, 1}) for (int f = 0; f < (flag ? 4 : 1); f++) ops.push_back({"set_" + a + "(" + std::to_string(k) + (f == 1 ? ", True" : f == 2 ? ", False" : f == 3 ? ", flag=False" : "") + ")", "set_" + a, [=](Py& p, GenRobot& d) { auto v = value(a, k); return both([&] { vector<Val> l = {arr(v)}; if (f == 3) return p.kw("set_" + a, a == "par_REG" ? "update_DYN" : "update_REG", l, numv(0)); if (f) l.push_back(numv(f == 1)); if (k && !f) return p.kws("set_" + a, {}, {{"par", arr(v)}}); if (k && f == 1) return p.kws("set_" + a, {}, {{"par", arr(v)}, {a == "par_REG" ? "update_DYN" : "update_REG", numv(1)}}); return p.call("set_" + a, l); }, [&](auto&, double&) { d.set(a, v, f < 2); return 0; }); }}); }
    for (int k : {0, 1, 2, 3, 4}) ops.push_back({"setArguments(" + std::to_string(k) + (k > 0 ? ", " + std::to_string(k - 1) + " by position, the others by name" : string()) + ")", "setArguments", [=](Py& p, GenRobot& d) { auto v = [&](int i) { return value(VARS[i % 4], 5 + k + 3 * i); }; Eigen::VectorXd a = v(0), b = v(1), e = v(2), g = v(3); return both([&] { vector<Val> all = {arr(a), arr(b), arr(e), arr(g)}; if (!k) return p.call("setArguments", all); static const char* nm[] = {"q", "dq", "dqr", "ddqr"}; map<string, Val> kw; for (int i = k - 1; i < 4; i++) kw[nm[i]] = all[i]; return p.kws("setArguments", vector<Val>(all.begin(), all.begin() + k - 1), kw); }, [&](auto&, double&) { d.setArguments(a, b, e, g); return 0; }); }});
    ops.push_back({"resizeVariables()", "resizeVariables", [=](Py& p, GenRobot& d) { return both([&] { return p.call("resizeVariables", {}); }, [&](auto&, double&) { d.resizeVariables(); return 0; }); }});
    for (int file = 0; file < 3; file++) for (int f = 0; f < 4; f++) { if (file == 2 && f) continue; string conf = file == 0 ? dir + "/" + sp.name + "_conf.yaml" : file == 1 ? x.tmp("other_conf.yaml") : x.tmp("missing.yaml"), reg = file == 0 ? dir + "/" + sp.name + "_par_REG.yaml" : file == 1 ? x.tmp("other_reg.yaml") : x.tmp("missing.yaml"); string t = string(file == 0 ? "own file" : file == 1 ? "other file" : "missing file") + (f == 1 ? ", True" : f == 2 ? ", False" : f == 3 ? ", flag=False" : "");
      ops.push_back({"load_conf(" + t + ")", "load_conf", [=](Py& p, GenRobot& d) { return both([&] { vector<Val> l = {txt(conf)}; if (f == 3) return file ? p.kws("load_conf", {}, {{"file_path", txt(conf)}, {"update_REG", numv(0)}}) : p.kw("load_conf", "update_REG", l, numv(0)); if (f) l.push_back(numv(f == 1)); return p.call("load_conf", l); }, [&](auto&, double&) { d.load_conf(conf, f < 2); return 0; }); }});
      ops.push_back({"load_par_REG(" + t + ")", "load_par_REG", [=](Py& p, GenRobot& d) { return both([&] { vector<Val> l = {txt(reg)}; if (f == 3) return file ? p.kws("load_par_REG", {}, {{"file_path", txt(reg)}, {"update_DYN", numv(0)}}) : p.kw("load_par_REG", "update_DYN", l, numv(0)); if (f) l.push_back(numv(f == 1)); return p.call("load_par_REG", l); }, [&](auto& m, double&) { m = d.load_par_REG(reg, f < 2); return 1; }); }}); }
    for (const char* s : {"save_par_REG", "save_par_DYN", "save_par"}) for (int byname = 0; byname < 2; byname++) { string n = s; ops.push_back({n + (byname ? "(file_path=)" : "()"), n, [=](Py& p, GenRobot& d) { string a = x.tmp("a.yaml"), b = x.tmp("b.yaml"); unlink(a.c_str()); unlink(b.c_str()); string e = both([&] { return byname ? p.kws(n, {}, {{"file_path", txt(a)}}) : p.call(n, {txt(a)}); }, [&](auto&, double& r) { if (n == "save_par_REG") d.save_par_REG(b); else if (n == "save_par_DYN") d.save_par_DYN(b); else { r = d.save_par(b); return 2; } return 0; }); if (!e.empty()) return e; return slurp(a) == slurp(b) ? string() : "writes\n" + slurp(a) + "\ndirectly\n" + slurp(b); }}); }
  }
  string observe(Py& p, GenRobot& d) {
    auto one = [&](const string& n, const Eigen::MatrixXd& w) -> string { x.transition(); Val v; try { v = p.call(n, {}); } catch (const std::exception& e) { return n + ": " + e.what(); } if (v.k != Val::Array || !same(v.m, w)) return n + "() is " + (v.k == Val::Array ? mat(v.m) : string("no array")) + ", directly " + mat(w); return ""; };
    for (auto& q : pars) { string e = one("get_" + q, d.par(q)); if (!e.empty()) return e; } for (auto& f : fns) { string e = one("get_" + f, d.get(f)); if (!e.empty()) return e; }
    auto cs = d.consts(); const char* cn[] = {"get_numJoints", "get_numParDYN", "get_numParREG"}; for (int i = 0; i < 3; i++) { x.transition(); Val v = p.call(cn[i], {}); if (v.k != Val::Num || v.d != cs[9 + i]) return string(cn[i]) + "() is " + num(v.d) + ", directly " + num(cs[9 + i]); } return "";
  }
  void files() { auto r = gen_make(sp.name); for (auto& p : pars) r->set(p, value(p, 7), false); r->save_par_REG(x.tmp("other_reg.yaml")); Cfg o = c; for (auto& kv : o.val) for (auto& e : kv.second) e *= 1.25; spit(x.tmp("other_conf.yaml"), yaml(o)); }
  // a new object holds unspecified values until they are set: both get the same first values
  void start(Py& p, GenRobot& d) { for (auto& v : VARS) { p.call("set_" + v, {arr(value(v, 3))}); d.set(v, value(v, 3)); } string conf = dir + "/" + sp.name + "_conf.yaml"; p.call("load_conf", {txt(conf)}); d.load_conf(conf); }
  void explore(int depth, size_t first) {
    files(); Py p(cls, cls->make()); auto d = gen_make(sp.name); start(p, *d); string e = observe(p, *d); if (!e.empty()) { bad("binding differs from the class", "after load_conf: " + e); return; }
    std::function<void(Py&, GenRobot&, int, string)> go = [&](Py& p, GenRobot& d, int k, string how) { for (size_t i = 0; i < ops.size(); i++) { if (how.empty() && i != first) continue; if (x.nviol > 3) return; Py q(p); std::unique_ptr<GenRobot> r(d.clone()); x.trace(); x.state(); x.transition(); string h = how + ops[i].text + "; ", e; { Quiet qt; e = ops[i].run(q, *r); } if (!e.empty()) { bad("binding " + ops[i].name, h + e); continue; } e = observe(q, *r); if (!e.empty()) { bad("binding differs from the class", "after " + h + e); continue; } if (k > 1) go(q, *r, k - 1, h); } };
    go(p, *d, depth, "");
  }
  struct Quiet { std::ostringstream o; std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
};
static vector<Case> cases(bool th, const vector<GenSpec>& l) {
  vector<Case> cs; for (size_t i = 0; i < l.size(); i++) { const GenSpec* s = &l[i]; if (!gen_table().count(s->name)) continue;
    size_t n = 0; { Shared sh; Ctx c; c.sh = &sh; c.dir = "/tmp"; World w(c, *s); n = w.ops.size(); if (!w.ok) n = 0; }
    cs.push_back({s->name + ": exported names", [=](Ctx& x) { World w(x, *s); if (w.ok) w.names(); x.trace(); }});
    for (size_t k = 0; k < n; k++) cs.push_back({s->name + ": sequences of exported names from operation " + std::to_string(k), [=](Ctx& x) { World w(x, *s); if (w.ok && w.names()) w.explore(s->name == "crowd" || s->name == "long_bot" ? 1 : th && s->cfg.n() == 1 ? 3 : 2, k); }}); }
  return cs;
}
int main(int argc, char** argv) { return gen_main(argc, argv, specs, cases); }
