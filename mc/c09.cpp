// C09: every conversion between the two inertial parametrisations, in the model, in generated classes and in files.
#include "gmodel.hpp"
#include "genYaml.h"
using namespace mc; using ref::Mat;
static const char* DK[] = {"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
static const char* RK[] = {"mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
static string file_of(const Cfg& c, const Vec& v, bool reg, const string& head = "") { std::ostringstream o; o << head << "dynamics:\n"; for (int i = 0; i < c.n(); i++) { o << "  " << c.name("link", i) << ":\n    inertial:\n"; for (int k = 0; k < 10; k++) o << "      " << (reg ? RK : DK)[k] << ": " << num(v[10 * i + k]) << "\n"; if (c.Dl_order) o << "    friction:\n      Dl: " << nums(Vec(c.val.at("par_Dl").begin() + c.Dl_order * i, c.val.at("par_Dl").begin() + c.Dl_order * (i + 1))) << "\n"; } return o.str(); }
// reads dynamics from a file written by the code; false if a key is missing
static bool read_file(const string& f, int n, bool reg, Vec& v, vector<Vec>* dl = nullptr, bool any_name = false) { v.clear(); try { YAML::Node y = YAML::LoadFile(f)["dynamics"]; int i = 0; for (auto l : y) { if (i++ == n) return false; if (!any_name && l.first.as<string>() != "link" + std::to_string(i)) return false; for (int k = 0; k < 10; k++) v.push_back(l.second["inertial"][(reg ? RK : DK)[k]].as<double>()); if (dl) dl->push_back(l.second["friction"]["Dl"].as<Vec>()); } return i == n; } catch (const std::exception&) { return false; } }

// inertial vectors: a base point, every entry of every link with every special value, pairs of entries of a link
static vector<Vec> vectors(const Cfg& c, int bg, bool pairs) {
  vector<Vec> r; Vec b = generic(c.types, bg, 0).val.at("par_DYN"); r.push_back(b);
  Vec z(b.size(), 0.0); for (size_t i = 0; i < z.size(); i += 10) z[i] = 1; r.push_back(z);  // point masses at the origins
  auto vals = [](int k) { return k == 0 ? Vec{1e-3, 0.3, 41.7, 1e4, -2.5} : k < 4 ? Vec{0, -1.37, 1e-5, 12.5, 0.1} : Vec{0, -0.31, 3e-6, 150.25, 0.7}; };
  for (size_t i = 0; i < b.size(); i++) for (double x : vals(i % 10)) { Vec v = b; v[i] = x; r.push_back(v); }
  for (size_t i = 0; i < b.size(); i++) { Vec v = z; v[i] = i % 10 ? 0.9 : 2.2; r.push_back(v); for (int k = 1; k < 10; k++) { size_t j = i - i % 10 + k; if (j > i && pairs) { Vec u = v; u[j] = -0.6; r.push_back(u); } } }
  if (pairs) for (size_t i = 0; i < b.size(); i++) for (size_t j = i + 1; j < i - i % 10 + 10; j++) for (int a : {1, 3}) for (int d : {1, 3}) { Vec v = b; v[i] = vals(i % 10)[a]; v[j] = vals(j % 10)[d]; r.push_back(v); }
  for (int k = 1; k < 6; k++) { Vec v = b; for (size_t i = 0; i < v.size(); i++) v[i] *= std::pow(10.0, (int)((i * 7 + k * 3) % 7) - 3); r.push_back(v); }
  return r;
}
static bool same(const Vec& got, const Vec& want) { return got == want; }
static string conv(const Vec& got, const Vec& want, const Vec& scale) { if (got.size() != want.size()) return std::to_string(got.size()) + " entries instead of " + std::to_string(want.size()); for (size_t i = 0; i < got.size(); i++) if (!near(got[i], want[i], scale[i] + 1e-300, 1e-11)) return "entry " + std::to_string(i) + " (link " + std::to_string(i / 10 + 1) + ", " + DK[i % 10] + ") is " + num(got[i]) + ", expected " + num(want[i]); return ""; }
static Eigen::VectorXd E(const Vec& v) { return ev(v); }

static void model_case(Ctx& x, const Cfg& c, const vector<Vec>& L, size_t from, size_t to, bool computed) {
  string f = x.tmp("c.yaml"); spit(f, yaml(c)); auto R = thunder_ns::robot_from_file("rob", f, computed);
  bool full = true; for (int m : c.mask.at("par_DYN")) if (!m && computed) full = false;
  auto pk = [&](const Vec& d) { if (!computed) return d; Vec r; for (size_t i = 0; i < d.size(); i++) if (c.mask.at("par_DYN")[i]) r.push_back(d[i]); return r; };
  auto bad = [&](const string& w, const string& d, const Vec& v) { x.violation(w, d + "\nvector " + nums(v) + "\n" + yaml(c)); };
  auto DYN = [&] { return sv(R.get_par_DYN()); }; auto REG = [&] { return sv(R.get_par_REG()); };
  { Vec d = c.val.at("par_DYN"); string e = conv(REG(), to_reg(d), inertia_scale(d)); if (!e.empty()) bad("robot_from_file", "par_REG after robot_from_file: " + e, d); if (!same(DYN(), pk(d))) bad("robot_from_file", "par_DYN " + nums(DYN()), d); }
  for (size_t k = from; k < to && k < L.size() && x.nviol <= Ctx::MAXV; k++) {
    const Vec& d = L[k]; Vec r = to_reg(d), sc = inertia_scale(d); string e; if (!x.state_once(hash_bytes(d.data(), d.size() * 8))) continue; x.trace();
    if (full) {
      if (!R.set_par_DYN(E(d))) bad("set_par_DYN", "rejected", d); x.transition();
      if (!same(DYN(), d)) bad("set_par_DYN", "par_DYN is " + nums(DYN()), d); if (!(e = conv(REG(), r, sc)).empty()) bad("set_par_DYN", "par_REG: " + e, d);
      // there and back
      Vec r1 = REG(); R.set_par_REG(E(r1)); x.transition(); if (!same(REG(), r1)) bad("round trip", "par_REG changed", d); { Vec s2 = sc; for (size_t i = 0; i < s2.size(); i++) if (i % 10 > 3) s2[i] += std::fabs(r1[i]); if (!(e = conv(DYN(), d, s2)).empty()) bad("round trip", "DYN -> REG -> DYN: " + e, d); }
    }
    const Vec& o = L[(k + 1) % L.size()];  // something else in between
    if (!R.set_par_REG(E(to_reg(o)))) bad("set_par_REG", "rejected", o); x.transition();
    if (!R.set_par_REG(E(r))) bad("set_par_REG", "rejected", d); x.transition(); if (!same(REG(), r)) bad("set_par_REG", "par_REG is " + nums(REG()), d); if (!(e = conv(DYN(), pk(d), pk(sc))).empty()) bad("set_par_REG", "par_DYN: " + e, d);
    // public conversion functions
    R.set_arg("par_REG", E(to_reg(o))); R.update_inertial_DYN(); x.transition(2); if (!(e = conv(DYN(), pk(o), pk(inertia_scale(o)))).empty()) bad("update_inertial_DYN", "par_DYN: " + e, o);
    if (full) { R.set_arg("par_DYN", E(d)); R.update_inertial_REG(); x.transition(2); if (!(e = conv(REG(), r, sc)).empty()) bad("update_inertial_REG", "par_REG: " + e, d); }
    if (k % 3) continue;
    // files
    string fd = x.tmp("d.yaml"), fr = x.tmp("r.yaml"); spit(fd, file_of(c, d, false)); spit(fr, file_of(c, r, true));
    R.set_par_REG(E(to_reg(o))); Vec rr = REG(); if (c.Dl_order == 0 || true) {
      R.load_conf_par(fd, false); x.transition(); if (!same(DYN(), pk(d))) bad("load_conf_par", "par_DYN is " + nums(DYN()), d); if (!same(REG(), rr)) bad("load_conf_par without update", "par_REG changed", d);
      R.set_par_REG(E(to_reg(o))); R.load_conf_par(fd, true); x.transition(); if (!same(DYN(), pk(d))) bad("load_conf_par", "par_DYN is " + nums(DYN()), d); if (!(e = conv(REG(), r, sc)).empty()) bad("load_conf_par", "par_REG: " + e, d); }
    R.set_par_REG(E(to_reg(o))); Vec dd = DYN();
    { Vec ret = sv(Eigen::VectorXd(E(r))); R.load_par_REG(fr, false); x.transition(); if (!same(REG(), r)) bad("load_par_REG", "par_REG is " + nums(REG()), d); if (!same(DYN(), dd)) bad("load_par_REG without update", "par_DYN changed", d);
      R.set_par_REG(E(to_reg(o))); R.load_par_REG(fr, true); x.transition(); if (!same(REG(), r)) bad("load_par_REG", "par_REG is " + nums(REG()), d); if (!(e = conv(DYN(), pk(d), pk(sc))).empty()) bad("load_par_REG", "par_DYN: " + e, d); }
    string fs = x.tmp("s.yaml"); occupied(fs); R.save_par_REG(fs); x.transition(); Vec got; if (!read_file(fs, c.n(), true, got) || !same(got, REG())) bad("save_par_REG", "the file has " + nums(got), d);
    // parameter files made from a configuration
    string cf = x.tmp("conf.yaml"), od = x.tmp("od.yaml"), orr = x.tmp("or.yaml"); occupied(od); occupied(orr); spit(cf, file_of(c, d, false, c.Dl_order ? "Dl_order: " + std::to_string(c.Dl_order) + "\n" : ""));
    vector<Vec> dl, want; for (int i = 0; i < c.n(); i++) want.push_back(Vec(c.val.at("par_Dl").begin() + c.Dl_order * i, c.val.at("par_Dl").begin() + c.Dl_order * (i + 1)));
    x.transition(); if (!thunder_ns::genInertial_files("rob", c.n(), cf, od, orr)) bad("genInertial_files", "failed", d);
    else { if (!read_file(od, c.n(), false, got, &dl, true) || !same(got, d) || (c.Dl_order && dl != want)) bad("genInertial_files", "DYN file has " + nums(got) + "\n" + slurp(od), d); dl.clear(); if (!read_file(orr, c.n(), true, got, &dl, true) || !(e = conv(got, r, sc)).empty() || (c.Dl_order && dl != want)) bad("genInertial_files", "REG file: " + e + "\n" + slurp(orr), d); }
  }
}
static void gen_case(Ctx& x, const GenSpec& sp, const vector<Vec>& L, size_t from, size_t to) {
  if (!gen_table().count(sp.name)) return; const Cfg& c = sp.cfg; auto R = gen_make(sp.name); string conf = gen_handle(sp.name).dir + "/" + sp.name;
  auto bad = [&](const string& w, const string& d, const Vec& v) { x.violation("generated " + w, d + "\nvector " + nums(v) + "\n" + yaml(c)); };
  auto DYN = [&] { return sv(R->par("par_DYN")); }; auto REG = [&] { return sv(R->par("par_REG")); }; Capture cap;
  // the files that thunder gen wrote
  { Vec d = c.val.at("par_DYN"), got; string e; if (!read_file(conf + "_par_REG.yaml", c.n(), true, got) || !(e = conv(got, to_reg(d), inertia_scale(d))).empty()) bad("parameter file", "_par_REG.yaml: " + e, d); x.transition();
    R->load_conf(conf + "_conf.yaml", false); if (!same(DYN(), d) || !same(REG(), Vec(d.size(), 0.0))) bad("load_conf without update", "par_REG changed or par_DYN not loaded", d); R->set("par_REG", E(to_reg(L[L.size() / 2]))); R->load_conf(conf + "_conf.yaml"); if (!(e = conv(REG(), to_reg(d), inertia_scale(d))).empty()) bad("load_conf", "par_REG: " + e, d); x.transition(2); }
  for (size_t k = from; k < to && k < L.size() && x.nviol <= Ctx::MAXV; k++) {
    const Vec& d = L[k]; const Vec& o = L[(k + 1) % L.size()]; Vec r = to_reg(d), sc = inertia_scale(d); string e; if (!x.state_once(hash_bytes(d.data(), d.size() * 8))) continue; x.trace();
    R->set("par_DYN", E(d)); x.transition(); if (!same(DYN(), d)) bad("set_par_DYN", "par_DYN is " + nums(DYN()), d); if (!(e = conv(REG(), r, sc)).empty()) bad("set_par_DYN", "par_REG: " + e, d);
    Vec r1 = REG(); R->set("par_REG", E(r1)); x.transition(); { Vec s2 = sc; for (size_t i = 0; i < s2.size(); i++) if (i % 10 > 3) s2[i] += std::fabs(r1[i]); if (!same(REG(), r1) || !(e = conv(DYN(), d, s2)).empty()) bad("round trip", "DYN -> REG -> DYN: " + e, d); }
    R->set("par_DYN", E(o), false); x.transition(); if (!same(REG(), r1) || !same(DYN(), o)) bad("set_par_DYN without update", "par_REG changed or par_DYN not set", d);
    R->set("par_REG", E(r), false); x.transition(); if (!same(REG(), r) || !same(DYN(), o)) bad("set_par_REG without update", "par_DYN changed or par_REG not set", d);
    R->set("par_REG", E(to_reg(o))); R->set("par_REG", E(r)); x.transition(2); if (!same(REG(), r)) bad("set_par_REG", "par_REG is " + nums(REG()), d); if (!(e = conv(DYN(), d, sc)).empty()) bad("set_par_REG", "par_DYN: " + e, d);
    if (k % 3) continue;
    string fd = x.tmp("d.yaml"), fr = x.tmp("r.yaml"); spit(fd, file_of(c, d, false)); spit(fr, file_of(c, r, true)); Vec got;
    R->set("par_REG", E(to_reg(o))); Vec rr = REG(), dd; R->load_conf(fd, false); x.transition(); if (!same(DYN(), d) || !same(REG(), rr)) bad("load_conf without update", "par_DYN not loaded or par_REG changed", d);
    R->set("par_REG", E(to_reg(o))); R->load_conf(fd, true); x.transition(); if (!same(DYN(), d)) bad("load_conf", "par_DYN is " + nums(DYN()), d); if (!(e = conv(REG(), r, sc)).empty()) bad("load_conf", "par_REG: " + e, d);
    string fs = x.tmp("s.yaml"); occupied(fs); R->save_par_REG(fs); if (!read_file(fs, c.n(), true, got) || !same(got, REG())) bad("save_par_REG", nums(got), d); occupied(fs); R->save_par_DYN(fs); if (!read_file(fs, c.n(), false, got) || !same(got, DYN())) bad("save_par_DYN", nums(got), d); x.transition(2);
    R->set("par_REG", E(to_reg(o))); dd = DYN(); R->load_par_REG(fr, false); x.transition(); if (!same(REG(), r) || !same(DYN(), dd)) bad("load_par_REG without update", "par_REG not loaded or par_DYN changed", d);
    R->set("par_REG", E(to_reg(o))); R->load_par_REG(fr, true); x.transition(); if (!same(REG(), r)) bad("load_par_REG", "par_REG is " + nums(REG()), d); if (!(e = conv(DYN(), d, sc)).empty()) bad("load_par_REG", "par_DYN: " + e, d);
  }
}
// the dynamics seen through both parametrisations agree after any conversion
static void agree_case(Ctx& x, const Cfg& c) {
  Model m = make_model(x, c); auto& R = *m.robot; int n = c.n();
  for (int k = 0; k < 6; k++) { State s = base_state(c, k); Vec d = generic(c.types, 60 + k, 0).val.at("par_DYN"); for (auto& v : {"q", "dq", "dqr", "ddqr"}) R.set_arg(v, ev(s[v]));
    if (k % 2) R.set_par_DYN(ev(d)); else R.set_par_REG(ev(to_reg(d))); x.transition(); x.state();
    Eigen::VectorXd a = R.get("Yr") * R.get_par_REG(), b = R.get("M") * ev(s["ddqr"]) + R.get("C") * ev(s["dqr"]) + R.get("G"); for (int i = 0; i < n; i++) if (!(std::fabs(a(i) - b(i)) <= 1e-9 * (1 + b.cwiseAbs().maxCoeff()))) { x.violation("Yr*par_REG", "joint " + std::to_string(i) + ": " + num(a(i)) + " instead of " + num(b(i)) + "\n" + yaml(c)); return; } x.trace(); }
}
static vector<GenSpec> specs(bool th) {
  vector<GenSpec> l; auto put = [&](const string& n, const Cfg& c) { GenSpec g; g.name = n; g.cfg = c; l.push_back(g); };
  { Cfg c = generic({"R"}, 31, 1); mask_all(c, 1); put("i1", c); } { Cfg c = generic({"R", "P_SEA"}, 32, 0, true, 1, 0, 0); put("i2", c); } { Cfg c = generic({"P", "R", "R"}, 33, 2); mask_alt(c, 0); put("i3", c); }
  return l;
}
static vector<Case> cases(bool th, const vector<GenSpec>& l) {
  vector<Case> cs; size_t ch = 60;
  struct St { vector<string> t; int Dl; int mode; bool comp; };
  for (auto& s : vector<St>{{{"R"}, 1, 1, true}, {{"P"}, 0, 0, true}, {{"R", "P"}, 0, 1, false}, {{"R", "P"}, 2, 2, true}, {{"R", "R", "P"}, 1, 1, false}, {{"R", "P_SEA", "R"}, 1, 3, false}, {{"P", "R"}, 1, 1, true}}) for (int bg = 0; bg < (th ? 4 : 1); bg++) {
    Cfg c = generic(s.t, 50 + bg, s.Dl, s.t.size() == 3 && s.mode == 3, 1, 1, 1); if (s.Dl) c.names = 5; if (s.mode == 1) mask_all(c, 1); if (s.mode >= 2) mask_alt(c, s.mode); auto L = std::make_shared<vector<Vec>>(vectors(c, 3 + bg, s.t.size() < 3 || th));
    for (size_t o = 0; o < L->size(); o += ch) cs.push_back({"model, types " + c.typestr() + ", mask mode " + std::to_string(s.mode) + (s.comp ? "" : ", not computed") + ", vectors " + std::to_string(o), [=](Ctx& x) { model_case(x, c, *L, o, o + ch, s.comp); }}); }
  { vector<string> t(11, "R"); Cfg c = generic(t, 55, 1); mask_all(c, 1); auto L = std::make_shared<vector<Vec>>(vectors(c, 4, false)); for (size_t o = 0; o < (th ? L->size() : 120); o += 30) cs.push_back({"model, 11 links, vectors " + std::to_string(o), [=](Ctx& x) { model_case(x, c, *L, o, o + 30, false); }}); }
  for (auto& sp : l) for (int bg = 0; bg < (th ? 4 : 1); bg++) { auto L = std::make_shared<vector<Vec>>(vectors(sp.cfg, 3 + bg, true)); for (size_t o = 0; o < L->size(); o += 4 * ch) cs.push_back({"generated robot " + sp.name + ", vectors " + std::to_string(o), [=](Ctx& x) { gen_case(x, sp, *L, o, o + 4 * ch); }}); }
  for (auto& t : vector<vector<string>>{{"R"}, {"R", "P"}, {"P", "R", "R"}}) { Cfg c = generic(t, 57); mask_all(c, 1); cs.push_back({"dynamics in both parametrisations, types " + c.typestr(), [=](Ctx& x) { agree_case(x, c); }}); }
  return cs;
}
int main(int argc, char** argv) { return gen_main(argc, argv, specs, cases); }
