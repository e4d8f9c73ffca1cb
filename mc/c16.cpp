// C16: every writer/reader pair of parameters, over value patterns per entry, sections, and torn or unreadable files.
#include "gmodel.hpp"
using namespace mc; using thunder_ns::Robot;

// finite values that a decimal text can spoil: both signs, non-terminating fractions, 17 significant digits, subnormals, extremes, integers
static const vector<double> PAT = {-0.1, 1.0 / 3, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, 1e22, -123456789012345.67, 0.30000000000000004, -1e-17, 0.0, 1, -9007199254740993.0, 3.141592653589793, -4.9e-310, 1e-7, 999999.9999999999, 100000, 2.5e-5};
static const vector<double> MODEST = {-0.1, 1.0 / 3, 0.30000000000000004, -1234.5678901234567, 1e-5, 2, -3.141592653589793, 1e-7, 99999.99999999999, 100000, -2.5e-5, 7.0 / 9};
typedef map<string, Vec> Vals;  // "par_REG" and the ten groups

static string diff(const Vec& got, const Vec& want) { if (got.size() != want.size()) return "has " + std::to_string(got.size()) + " entries instead of " + std::to_string(want.size()); for (size_t i = 0; i < got.size(); i++) if (!(got[i] == want[i])) return "entry " + std::to_string(i) + " is " + num(got[i]) + " instead of " + num(want[i]); return ""; }
static Vec gv(int n, int k) { Vec v; for (int i = 0; i < n; i++) v.push_back(gen(37 * k + i, 0.3, 2.9)); return v; }

struct Lab {
  Ctx& x; const GenSpec& sp; const Cfg& c; GWorld w; Robot a, b; std::unique_ptr<GenRobot> ga, gb; string dir; vector<string> pars; bool ok = true; int nconf = 0;
  static Robot build(Ctx& x, const Cfg& c) { string f = x.tmp("cfg.yaml"); spit(f, yaml(c)); return thunder_ns::robot_from_file("rob", f); }
  Lab(Ctx& x_, const GenSpec& s) : x(x_), sp(s), c(s.cfg), w(x_, s), a(build(x_, s.cfg)), b(build(x_, s.cfg)), dir(x_.dir) {
    ga = w.make(); gb = w.make(); { Capture k; ga->load_conf(w.conf); gb->load_conf(w.conf); }
    pars = {"par_REG"}; for (auto& p : PARS) if (c.size(p)) pars.push_back(p);
  }
  bool kept(const string& p) const { return p == "par_REG" || any(c.mask.at(p)); }
  Vec model(Robot& r, const string& p) { return sv(r.get_arg(p)); }
  int size(const string& p, bool gen) { if (p == "par_REG") return 10 * c.n(); int k = 0; for (int m : c.mask.at(p)) k += m; return gen && !is_kin(p) ? c.size(p) : k; }
  void setm(Robot& r, const Vals& v) { for (auto& p : pars) if (kept(p)) r.set_arg(p, ev(v.at(p))); }
  void setg(GenRobot& r, const Vals& v) { for (auto& p : pars) if (size(p, true)) r.set(p, ev(v.at(p)), false); }
  Vals getm(Robot& r) { Vals v; for (auto& p : pars) if (kept(p)) v[p] = model(r, p); return v; }
  Vals getg(GenRobot& r) { Vals v; for (auto& p : pars) if (size(p, true)) v[p] = sv(r.par(p)); return v; }
  Vals some(bool gen, int k) { Vals v; for (auto& p : pars) v[p] = gv(size(p, gen), k++); return v; }
  void bad(const string& what, const string& e, const string& f) { x.violation(what, what + ": " + e + "\nfile:\n" + slurp(f).substr(0, 3000) + "\nconfig:\n" + yaml(c)); ok = false; }
  // after a load: parameters in `l` as written, the others as before
  void verify(const string& what, const Vals& got, const Vals& before, const Vals& written, const string& f) {
    for (auto& kv : got) { x.transition(); auto it = written.find(kv.first); string e = diff(kv.second, it != written.end() ? it->second : before.at(kv.first)); if (!e.empty()) { bad(what, kv.first + " " + e + (it == written.end() ? " (not in the file)" : ""), f); return; } }
    x.state_once(hash_state(got, hash_str(what)));
  }
  Vec pick(const string& p, const Vec& f) { return p == "par_REG" ? f : w.pick(p, f); }
  // full-size vector of a model parameter whose frozen entries are those of the configuration
  template <class F> void trip(const string& what, F load, bool gen, const Vals& written, const string& f, int k) {
    Vals before = some(gen, 400 + k); if (gen) setg(*gb, before); else setm(b, before); x.trace();
    { Capture cap; try { load(); } catch (const std::exception& e) { bad(what, string("exception ") + e.what(), f); return; } }
    Vals got = gen ? getg(*gb) : getm(b), ww; for (auto& kv : written) if (got.count(kv.first)) ww[kv.first] = kv.second;
    verify(what, got, before, ww, f);
  }
  // all writer/reader pairs for one assignment of model (vm) and generated (vg) values
  void pairs(const Vals& vm, const Vals& vg, const string& only) {
    string f = dir + "/f.yaml"; auto fresh = [&]() { occupied(f); };
    auto sub = [](const Vals& v, vector<string> l) { Vals r; for (auto& p : l) if (v.count(p)) r[p] = v.at(p); return r; };
    vector<string> kp; for (auto& p : pars) if (kept(p)) kp.push_back(p);
    setm(a, vm); setg(*ga, vg);
    if (only == "lists") {
      fresh(); if (a.save_par(f, kp) != 1) bad("save_par", "not reported as done", f);
      trip("save_par -> load_par", [&] { if (b.load_par(f) != 1) throw std::runtime_error("load_par failed"); }, false, sub(vm, kp), f, 1);
      for (auto& p : kp) { if (!ok) return; trip("save_par -> load_par(" + p + ")", [&] { b.load_par(f, {p}); }, false, sub(vm, {p}), f, 2); }
      vector<string> rev(kp.rbegin(), kp.rend()); trip("save_par -> load_par(all listed, reversed)", [&] { b.load_par(f, rev); }, false, sub(vm, kp), f, 3);
      for (auto& p : kp) { if (!ok) return; fresh(); a.save_par(f, {p}); trip("save_par(" + p + ") -> load_par", [&] { b.load_par(f); }, false, sub(vm, {p}), f, 4); }
      fresh(); ga->save_par(f); x.trace(); YAML::Node n; try { n = YAML::LoadFile(f); } catch (...) { bad("save_par of the generated class", "file is not readable", f); return; }
      for (auto& kv : vg) { YAML::Node e = n[kv.first] ? n[kv.first] : n[kv.first.substr(4)]; x.transition(); if (!e) { bad("save_par of the generated class", kv.first + " is missing", f); return; } Vec z = e.size() ? e.as<Vec>() : Vec(); string d = diff(z, kv.second); if (!d.empty()) { bad("save_par of the generated class", kv.first + " " + d, f); return; } }
    } else if (only == "reg") {
      fresh(); if (a.save_par_REG(f) != 1) bad("save_par_REG", "not reported as done", f);
      trip("model save_par_REG -> model load_par_REG", [&] { b.load_par_REG(f, false); }, false, sub(vm, {"par_REG"}), f, 5);
      trip("model save_par_REG -> generated load_par_REG", [&] { Vec r = sv(gb->load_par_REG(f, false)); if (r != vm.at("par_REG")) throw std::runtime_error("returned vector differs"); }, true, sub(vm, {"par_REG"}), f, 6);
      fresh(); { Capture cap; ga->save_par_REG(f); } Vals wm = sub(vg, {"par_REG", "par_Dl"}); if (wm.count("par_Dl")) wm["par_Dl"] = pick("par_Dl", wm["par_Dl"]);
      trip("generated save_par_REG -> generated load_par_REG", [&] { gb->load_par_REG(f, false); }, true, sub(vg, {"par_REG", "par_Dl"}), f, 7);
      trip("generated save_par_REG -> model load_par_REG", [&] { b.load_par_REG(f, false); }, false, wm, f, 8);
    } else if (only == "dyn") {
      fresh(); { Capture cap; ga->save_par_DYN(f); } Vals wm = sub(vg, {"par_DYN", "par_Dl"}); for (auto& kv : wm) kv.second = pick(kv.first, kv.second);
      trip("generated save_par_DYN -> load_conf", [&] { gb->load_conf(f, false); }, true, sub(vg, {"par_DYN", "par_Dl"}), f, 9);
      trip("generated save_par_DYN -> model load_conf_par", [&] { if (b.load_conf_par(f, false) != 1) throw std::runtime_error("load_conf_par failed"); }, false, wm, f, 10);
    }
  }
  // values written in a configuration
  void conf(const Vals& full, bool cli, int level = 0) {
    Cfg d = c; d.names = nconf++; for (auto& p : PARS) if (c.size(p)) d.val[p] = full.at(p); string src = dir + "/rob.yaml"; spit(src, yaml(d)); Vals wg, wm; for (auto& p : pars) if (p != "par_REG") { wg[p] = is_kin(p) ? pick(p, full.at(p)) : full.at(p); wm[p] = pick(p, full.at(p)); }
    Vals wp = wm; for (auto& p : KIN) wp.erase(p);  // load_conf_par reads dynamics and elastic parameters
    auto whole = [&](const string& what, Robot r, const string& f) { Vals got = getm(r); x.trace(); for (auto& kv : wm) { if (!got.count(kv.first)) continue; x.transition(); string e = diff(got[kv.first], kv.second); if (!e.empty()) { bad(what, kv.first + " " + e, f); return; } } };
    string dst = dir + "/out.yaml"; occupied(dst);
    try {
      Capture cap; Robot r = thunder_ns::robot_from_file("rob", src, level);
      Vals got; for (auto& p : pars) if (p != "par_REG") got[p] = sv(r.get_arg(p)); x.trace();
      for (auto& kv : got) { const Vec& fv = full.at(kv.first); string e = diff(kv.second, kv.second.size() == fv.size() ? fv : wm.at(kv.first)); x.transition(); if (!e.empty()) { bad("robot_from_file", kv.first + " " + e, src); return; } }
      if (r.save_conf(dst) != 1) { bad("save_conf", "not reported as done", dst); return; }
    } catch (const std::exception& e) { bad("robot_from_file/save_conf", string("exception ") + e.what(), src); return; }
    vector<std::pair<string, string>> files = {{"save_conf", dst}};
    if (cli) {
      string out = dir + "/rob_generatedFiles"; if (system(("rm -rf '" + out + "'").c_str())) return; string log = dir + "/gen.log";
      if (system(("cd '" + dir + "' && LD_LIBRARY_PATH= '" + getenv("MC_CLI") + "' gen rob.yaml > gen.log 2>&1; true").c_str())) return; x.transition();
      files.push_back({"thunder gen", out + "/rob_conf.yaml"}); struct stat st; if (stat((out + "/rob_conf.yaml").c_str(), &st)) { bad("thunder gen", "did not write rob_conf.yaml\n" + slurp(log), src); return; }
      Robot r = build(x, d); Vec reg = sv(r.get_par_REG()); Vals wr; wr["par_REG"] = reg; string rf = out + "/rob_par_REG.yaml"; Vec want = to_reg(full.at("par_DYN")), sc = inertia_scale(full.at("par_DYN"));
      for (size_t i = 0; i < reg.size(); i++) if (!near(reg[i], want[i], sc[i] + 1e-300)) { bad("get_par_REG", "entry " + std::to_string(i) + " is " + num(reg[i]) + " instead of " + num(want[i]), src); return; }
      trip("thunder gen _par_REG.yaml -> generated load_par_REG", [&] { gb->load_par_REG(rf, false); }, true, wr, rf, 11);
      trip("thunder gen _par_REG.yaml -> model load_par_REG", [&] { b.load_par_REG(rf, false); }, false, wr, rf, 12);
    }
    for (auto& s : files) { if (!ok) return;
      trip(s.first + " -> generated load_conf", [&] { gb->load_conf(s.second, false); }, true, wg, s.second, 13);
      trip(s.first + " -> model load_conf_par", [&] { if (b.load_conf_par(s.second, false) != 1) throw std::runtime_error("load_conf_par failed"); }, false, wp, s.second, 14);
      if (cli || level) { Capture cap; whole(s.first + " -> robot_from_file", build2(s.second), s.second); } }
  }
  Robot build2(const string& f) { return thunder_ns::robot_from_file("rob", f); }
  // torn file: every entry old or new, one at most half-read; nothing changes when it cannot be parsed
  template <class F> void torn(const string& what, const string& text, F load, bool gen, const Vals& written) {
    string f = dir + "/torn.yaml"; Vals before = some(gen, 900);
    for (size_t L = 0; L < text.size() && ok; L++) {
      spit(f, text.substr(0, L)); bool parses = true; try { YAML::LoadFile(f); } catch (...) { parses = false; }
      if (gen) setg(*gb, before); else setm(b, before); x.trace(); int rc = 0;
      { Capture cap; try { rc = load(f); } catch (const std::exception& e) { bad(what + ", torn file", string("exception ") + e.what(), f); return; } }
      if (!parses && rc == 1) { bad(what + ", torn file", "reported as done", f); return; }
      Vals got = gen ? getg(*gb) : getm(b); int half = 0; x.state();
      for (auto& kv : got) { x.transition(); auto it = written.find(kv.first); const Vec& o = before.at(kv.first); const Vec& g = kv.second; if (g.size() != o.size()) { bad(what + ", torn file", kv.first + " " + diff(g, o), f); return; }
        for (size_t i = 0; i < g.size(); i++) { if (g[i] == o[i]) continue; if (parses && it != written.end() && g[i] == it->second[i]) continue; half++; if (!parses || half > 1) { bad(what + (parses ? ", torn file" : ", unreadable file"), kv.first + " entry " + std::to_string(i) + " became " + num(g[i]), f); return; } } }
    }
    if (gen) { Capture k; gb->load_conf(w.conf); }
  }
  template <class F> void unreadable(const string& what, F load, bool gen) {
    vector<string> bads = {"a: [1, 2\nb: {", "\t- x: [", "dynamics: {link1: {inertial: {mass: 1", "\"open", "a: b: c: d", "- a\nb: c", "x: *undefined\n", "%YAML\n--- [", "key: 'unterminated", "{a: 1]", string("a: \x01\x02[", 6), "? [\n", "dynamics:\n\tlink1: 1\n"};
    for (size_t i = 0; i < bads.size() + 3; i++) {
      string f = dir + "/unreadable.yaml"; unlink(f.c_str()); bool throws = false;
      if (i < bads.size()) { spit(f, bads[i]); try { YAML::LoadFile(f); } catch (...) { throws = true; } if (!throws) continue; }
      else if (i == bads.size()) f = dir + "/no/such/file.yaml"; else if (i == bads.size() + 1) f = dir; else f = "";
      Vals before = some(gen, 950 + (int)i); if (gen) setg(*gb, before); else setm(b, before); x.trace(); int rc = 0;
      { Capture cap; try { rc = load(f); } catch (const std::ios_base::failure&) { } catch (const std::exception& e) { bad(what + ", unreadable file", string("exception ") + e.what(), f); return; } }
      if (rc == 1) { bad(what + ", unreadable file", "reported as done", f); return; }
      verify(what + ", unreadable file", gen ? getg(*gb) : getm(b), before, {}, f); if (!ok) return;
    }
  }
  // files with only some sections, links and frictions
  void sections(int nl, int fric, unsigned sec) {
    Cfg d = c; { int t = 7; for (auto& p : PARS) for (auto& z : d.val[p]) z = z * 0.9 + gen(t++, 0.1, 0.3); d.names += nl + sec; }
    YAML::Node all = YAML::Load(yaml(d)), n; Vals wg, wm; static const char* S[] = {"kinematics", "gravity", "Base_to_L0", "Ln_to_EE", "elastic"}; static const char* P[] = {"par_DHtable", "par_gravity", "par_world2L0", "par_Ln2EE", ""};
    // sections in reverse order for odd choices
    for (int k = 0; k < 5; k++) { int s = nl % 2 ? 4 - k : k; if (!(sec >> s & 1) || !all[S[s]]) continue; n[S[s]] = all[S[s]]; if (s < 4) wg[P[s]] = pick(P[s], d.val[P[s]]); else for (auto& p : {"par_K", "par_D", "par_Dm", "par_Mm"}) if (c.size(p)) wg[p] = d.val[p]; }
    Vals wsome; bool dyn = false; int i = 0;
    if (nl) { YAML::Node y; for (auto l : all["dynamics"]) { if (i >= nl) break; YAML::Node k = YAML::Clone(l.second); if (!(fric >> (i % 2) & 1)) k.remove("friction"); y[l.first.as<string>()] = k; i++; } n["dynamics"] = y; dyn = true; }
    string f = dir + "/sec.yaml"; { std::ofstream o(f); if (n.IsMap()) o << n; else o << "num_joints: " << c.n(); }
    auto links = [&](const string& p, const Vec& old, bool gen) { Vec v = old; int per = p == "par_Dl" ? c.Dl_order : 10; size_t k = 0; for (int e = 0; e < c.size(p); e++) { if (!gen && !c.mask.at(p)[e]) continue; int l = e / per; if (l < nl && (p != "par_Dl" || (fric >> (l % 2) & 1))) v[k] = d.val[p][e]; k++; } return v; };
    for (int fl = 0; fl < 2; fl++) for (int gen = 0; gen < 2; gen++) {
      Vals before = some(gen, 300 + fl); if (gen) setg(*gb, before); else setm(b, before); x.trace(); string what = gen ? "load_conf of some sections" : "load_conf_par of some sections";
      { Capture cap; try { if (gen) gb->load_conf(f, fl); else b.load_conf_par(f, fl); } catch (const std::exception& e) { bad(what, string("exception ") + e.what(), f); return; } }
      Vals got = gen ? getg(*gb) : getm(b), wr; for (auto& kv : wg) { if (!gen && is_kin(kv.first)) continue; wr[kv.first] = gen ? kv.second : pick(kv.first, kv.second); }
      if (dyn) for (auto& p : {"par_DYN", "par_Dl"}) if (before.count(p)) wr[p] = links(p, before.at(p), gen);
      if (fl && dyn) { Vec full = wr.count("par_DYN") ? wr["par_DYN"] : Vec(); if (!gen) { full = c.val.at("par_DYN"); size_t k = 0; for (size_t e = 0; e < full.size(); e++) { if (c.mask.at("par_DYN")[e]) full[e] = wr["par_DYN"][k++]; else if ((int)e / 10 < nl) full[e] = d.val["par_DYN"][e]; } }
        Vec reg = to_reg(full), sc = inertia_scale(full); for (size_t e = 0; e < reg.size(); e++) if (!near(got["par_REG"][e], reg[e], sc[e] + 1e-300) && !((int)e / 10 >= nl && got["par_REG"][e] == before["par_REG"][e])) { bad(what, "par_REG entry " + std::to_string(e) + " is " + num(got["par_REG"][e]) + " instead of " + num(reg[e]), f); return; } got.erase("par_REG"); }
      verify(what, got, before, wr, f); if (!ok) return;
    }
  }
};

static vector<GenSpec> specs(bool th) {
  vector<GenSpec> l; auto add = [&](const string& n, Cfg c) { GenSpec g; g.name = n; g.cfg = c; l.push_back(g); };
  { Cfg c = generic({"R_SEA"}, 31, 1, true, 1, 1, 1); mask_all(c, 1); add("u1", c); }
  add("u2", generic({"P"}, 32));
  { Cfg c = generic({"R", "P_SEA"}, 33, 2, true, 2, 1, 2); mask_alt(c, 0); add("u3", c); }
  { vector<string> t; for (int i = 0; i < 11; i++) t.push_back(i == 4 ? "P" : "P_SEA"); Cfg c = generic(t, 34, 1, true, 1, 1, 1); for (auto& p : {"par_DYN", "par_K", "par_D", "par_Dm", "par_Mm", "par_Dl", "par_gravity"}) c.mask[p].assign(c.size(p), 1); add("u11", c); }
  if (th) { Cfg c = generic({"P_SEA", "R", "P_SEA"}, 35, 1, true, 1, 2, 1); mask_alt(c, 1); add("u5", c); }
  return l;
}
static vector<Case> cases(bool th, const vector<GenSpec>& l) {
  vector<Case> cs;
  for (auto& s0 : l) { const GenSpec* s = &s0; const Cfg& c = s->cfg; bool big = c.n() > 3; string nm = "robot " + s->name + " (" + c.typestr() + "): ";
    int P = (int)PAT.size(), parts = 4;
    for (string path : {"lists", "reg", "dyn"}) {
      cs.push_back({nm + path + ", rotations of the value patterns", [=](Ctx& x) { Lab L(x, *s); for (int o = 0; o < P && L.ok; o++) for (int st = 1; st <= (big ? 1 : 5) && L.ok; st += 2) { Vals vm, vg; int k = o; for (auto& p : L.pars) { for (int g = 0; g < 2; g++) { Vec v; for (int i = 0; i < L.size(p, g); i++) v.push_back(PAT[(k + st * i) % P]); (g ? vg : vm)[p] = v; } k += 5; } L.pairs(vm, vg, path); } }});
      for (int part = 0; part < parts; part++) cs.push_back({nm + path + ", each value pattern in each entry, part " + std::to_string(part), [=](Ctx& x) { Lab L(x, *s); Vals vm = L.some(false, 1), vg = L.some(true, 1); int k = 0;
        for (auto& p : L.pars) { if ((path == "reg" && p != "par_REG" && p != "par_Dl") || (path == "dyn" && p != "par_DYN" && p != "par_Dl")) continue; int n = std::max(L.size(p, true), L.size(p, false));
          for (int i = 0; i < n; i++) for (int q = 0; q < P; q++) { if (big && !th && (q + i) % 3 && !(i >= 90 && q < 3)) continue; if (k++ % parts != part || !L.ok) continue; Vals m = vm, g = vg; if (i < (int)m[p].size()) m[p][i] = PAT[q]; if (i < (int)g[p].size()) g[p][i] = PAT[q]; L.pairs(m, g, path); } } }});
    }
    auto full = [=](const vector<double>& pat, int o, int st) { Vals v; int k = o; for (auto& p : PARS) { Vec z; for (int i = 0; i < s->cfg.size(p); i++) z.push_back(pat[(k + st * i) % pat.size()]); v[p] = z; k += 5; } for (int i = 0; i < s->cfg.n(); i++) if (v["par_DYN"][10 * i] == 0) v["par_DYN"][10 * i] = 1.0 / 7; return v; };
    cs.push_back({nm + "configurations with every rotation of the value patterns", [=](Ctx& x) { Lab L(x, *s); for (int o = 0; o < P && L.ok; o++) for (int st : {1, 5}) if (L.ok) L.conf(full(PAT, o, st), false); }});
    int M = (int)MODEST.size(); for (int part = 0; part < 4; part++) cs.push_back({nm + "thunder gen, every rotation of the value patterns, part " + std::to_string(part), [=](Ctx& x) { Lab L(x, *s); for (int o = part; o < M && L.ok; o += 4) for (int st = 1; st <= (th ? 7 : 1) && L.ok; st += 2) L.conf(full(MODEST, o, st), true, 1); }});
    if (!big) cs.push_back({nm + "configurations with each value pattern in each entry", [=](Ctx& x) { Lab L(x, *s); Vals base; for (auto& p : PARS) base[p] = s->cfg.val.at(p); for (auto& p : PARS) for (int i = 0; i < s->cfg.size(p); i++) for (int q = 0; q < P; q++) { if (!L.ok) return; if (p == "par_DYN" && i % 10 == 0 && PAT[q] == 0) continue; if (!th && c.n() > 1 && (q + i) % 3) continue; Vals v = base; v[p][i] = PAT[q]; L.conf(v, false); } }});
    // sections
    cs.push_back({nm + "files with some sections", [=](Ctx& x) { Lab L(x, *s); int n = s->cfg.n(); for (int nl = 0; nl <= n; nl += (big && nl > 1 && nl < 9 ? 4 : 1)) for (int fr = 0; fr < (s->cfg.Dl_order && nl ? 4 : 1); fr++) for (unsigned m = 0; m < 32; m++) if (L.ok) L.sections(nl, fr, m); }});
    // unreadable and torn files
    cs.push_back({nm + "unreadable files", [=](Ctx& x) { Lab L(x, *s); Lab* p = &L;
      for (int fl = 0; fl < 2; fl++) { L.unreadable("generated load_conf", [=](const string& f) { p->gb->load_conf(f, fl); return 0; }, true); L.unreadable("generated load_par_REG", [=](const string& f) { p->gb->load_par_REG(f, fl); return 0; }, true); L.unreadable("load_conf_par", [=](const string& f) { return p->b.load_conf_par(f, fl); }, false); L.unreadable("load_par_REG", [=](const string& f) { p->b.load_par_REG(f, fl); return 0; }, false); }
      L.unreadable("load_par", [=](const string& f) { return p->b.load_par(f); }, false); L.unreadable("load_par(list)", [=](const string& f) { return p->b.load_par(f, {"par_REG"}); }, false); }});
    if (big && !th) continue;
    Cfg d = c; { int t = 7; for (auto& p : PARS) for (auto& z : d.val[p]) z = z * 0.9 + gen(t++, 0.1, 0.3); d.names++; }
    auto W = [=](bool gen, bool all) { Vals v; for (auto& p : PARS) { if (!c.size(p) || (!all && is_kin(p))) continue; Vec r; if (gen && !is_kin(p)) r = d.val.at(p); else for (int i = 0; i < c.size(p); i++) if (c.mask.at(p)[i]) r.push_back(d.val.at(p)[i]); v[p] = r; } return v; };
    cs.push_back({nm + "load_conf of every torn configuration", [=](Ctx& x) { Lab L(x, *s); Lab* p = &L; L.torn("load_conf", yaml(d), [=](const string& f) { p->gb->load_conf(f, false); return 0; }, true, W(true, true)); }});
    cs.push_back({nm + "load_conf_par of every torn configuration", [=](Ctx& x) { Lab L(x, *s); Lab* p = &L; L.torn("load_conf_par", yaml(d), [=](const string& f) { return p->b.load_conf_par(f, false); }, false, W(false, false)); }});
    for (int gen = 0; gen < 2; gen++) cs.push_back({nm + (gen ? "generated" : "model") + " load_par_REG of every torn file", [=](Ctx& x) { Lab L(x, *s); Lab* p = &L; Vals v = L.some(true, 77); L.setg(*L.ga, v); string f = L.dir + "/full.yaml"; { Capture cap; L.ga->save_par_REG(f); } Vals wr; wr["par_REG"] = v["par_REG"]; if (c.size("par_Dl")) wr["par_Dl"] = gen ? v["par_Dl"] : L.pick("par_Dl", v["par_Dl"]); L.torn("load_par_REG", slurp(f), [=](const string& t) { if (gen) p->gb->load_par_REG(t, false); else p->b.load_par_REG(t, false); return 0; }, gen, wr); }});
    cs.push_back({nm + "load_par of every torn file", [=](Ctx& x) { Lab L(x, *s); Lab* p = &L; Vals v = L.some(false, 78); L.setm(L.a, v); string f = L.dir + "/full.yaml"; vector<string> kp; for (auto& q : L.pars) if (L.kept(q)) kp.push_back(q); L.a.save_par(f, kp); Vals wr; for (auto& q : kp) wr[q] = v[q]; L.torn("load_par", slurp(f), [=](const string& t) { return p->b.load_par(t); }, false, wr); }});
  }
  return cs;
}
int main(int argc, char** argv) { return gen_main(argc, argv, specs, cases); }
