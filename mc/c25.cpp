// C25: malformed configurations are refused (or their surplus ignored), never misread; run with instrumented library code.
#include "sense.hpp"
#include "genYaml.h"
#include <cstring>
using namespace mc; using thunder_ns::Robot;

static bool same_cfg(const Cfg& a, const Cfg& b) { if (a.types != b.types || a.Dl_order != b.Dl_order || a.elastic != b.elastic || a.K_order != b.K_order || a.D_order != b.D_order || a.Dm_order != b.Dm_order) return false; for (auto& p : PARS) { auto g = [&](auto& m) { auto it = m.find(p); return it == m.end() ? typename std::decay<decltype(it->second)>::type() : it->second; }; if (g(a.val) != g(b.val) || g(a.mask) != g(b.mask)) return false; } return true; }
typedef map<string, Vec> Vals;
static Vec vec(const Eigen::MatrixXd& m) { return Vec(m.data(), m.data() + m.size()); }
static Vals values(Robot& r, const Cfg& c) { Vals v; for (auto& p : PARS) if (c.size(p)) v[p] = vec(r.get_arg(p)); v["par_REG"] = vec(r.get_arg("par_REG")); return v; }
static string diff(const Vals& a, const Vals& b) { for (auto& k : b) { auto it = a.find(k.first); if (it == a.end()) return k.first + " is missing"; if (it->second != k.second) { if (it->second.size() != k.second.size()) return k.first + " has " + std::to_string(it->second.size()) + " entries instead of " + std::to_string(k.second.size()); for (size_t i = 0; i < k.second.size(); i++) if (!(it->second[i] == k.second[i])) return k.first + " entry " + std::to_string(i) + " is " + num(it->second[i]) + " instead of " + num(k.second[i]); } } return ""; }
static Vec pick(const Cfg& c, const string& p) { Vec r; auto& v = c.val.at(p); auto& m = c.mask.at(p); for (size_t i = 0; i < v.size(); i++) if (m[i]) r.push_back(v[i]); return r; }

static Vec keep(Vec v, const Vec& before) { for (size_t i = 0; i < v.size(); i++) if (std::isnan(v[i])) v[i] = before[i]; return v; }

struct Lab {
  Ctx& x; Cfg c; Model base; std::shared_ptr<Robot> other; Vals before;
  Lab(Ctx& x_, const Cfg& c_) : x(x_), c(c_) {
    base = build(x, c, yaml(c)); Cfg d = c; for (auto& p : PARS) for (auto& v : d.val[p]) v = v * 0.5 + 0.7; Model m = build(x, d, yaml(d)); other = m.robot; before = values(*other, c);
  }
  // in a child process: a crash is an answer too
  void child(const string& what, const string& y, std::function<void()> f) {
    string log = x.tmp("err"); fflush(nullptr); pid_t p = fork();
    if (!p) { alarm(60); int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(fd, 2); x.nviol = 0; try { f(); } catch (const std::exception& e) { x.violation(what, string("unexpected exception: ") + e.what() + "\n" + y); } fflush(x.vf); _exit(x.nviol ? 7 : 0); }
    int st; waitpid(p, &st, 0); x.trace(); if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return; if (WIFEXITED(st) && WEXITSTATUS(st) == 7) { x.nviol++; return; }
    string e = slurp(log); size_t k = e.find("ERROR: AddressSanitizer"); if (k == string::npos) k = e.size() > 1500 ? e.size() - 1500 : 0; x.violation(what, (WIFSIGNALED(st) ? WTERMSIG(st) == SIGALRM ? string("no answer") : "killed by signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + "\n" + e.substr(k, 1500) + "\n" + y);
  }
  // the parameter files made directly from a configuration
  void inertial_files(const string& y, const string& f, const std::function<void(const string&)>& bad) {
    using namespace sense_impl; Cfg g = c; g.elastic = false; Sense d; string od = x.tmp("od.yaml"), orr = x.tmp("or.yaml"), why = "refused"; spit(od, "kept\n"); spit(orr, "kept\n"); bool unsure = false;
    try { N n = YAML::Load(y); if (n.IsMap() && has(n, "Dl_order")) { N o = get(n, "Dl_order"); if (o.IsNull()) unsure = true; else g.Dl_order = integer(o, "Dl_order"); if (g.Dl_order < 0) throw Refuse{"negative Dl_order"}; } else g.Dl_order = 0; d = sense_dyn(y, g, false); } catch (const Refuse& e) { d.v = Sense::REFUSE; d.why = e.why; } catch (const YAML::Exception&) { d.v = Sense::REFUSE; d.why = "not YAML"; }
    if (g.Dl_order > 100000) return; if (unsure && d.v == Sense::VALID) d.either = true;
    x.transition(); int rc = 0; try { rc = thunder_ns::genInertial_files("rob", c.n(), f, od, orr); } catch (const std::exception& e) { why = e.what(); }
    if (d.v == Sense::FREE) return;
    if (!rc) { if (d.v == Sense::VALID && !d.either) return bad("genInertial_files: " + why); if (slurp(od) != "kept\n" || slurp(orr) != "kept\n") bad("genInertial_files reports a failure and changes its files"); return; }
    if (d.v == Sense::REFUSE) return bad("genInertial_files accepts although " + d.why); if (unsure) return;
    static const char* nd[] = {"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"}; Vec got, dl; N n = YAML::LoadFile(od); for (auto kv : get(n, "dynamics")) { for (auto k : nd) got.push_back(number(get(get(kv.second, "inertial"), k), k)); int k = 0; if (g.Dl_order) for (auto e : get(get(kv.second, "friction"), "Dl")) if (k++ < g.Dl_order) dl.push_back(e.as<double>()); }
    Vec w = g.Dl_order ? keep(d.g.val["par_Dl"], Vec(d.g.val["par_Dl"].size(), 0)) : Vec(); if (got != d.g.val["par_DYN"]) return bad("genInertial_files: the inertial parameters written are " + nums(got)); if (dl != w) bad("genInertial_files: the friction written is " + nums(dl));
  }
  void config(const Variant& v) {
    const string& y = v.text; Sense s = sense(y), d = sense_dyn(y, c, false); string what = v.what;
    child(what, y, [&] { x.state_once(hash_str(y)); string f = x.tmp("m.yaml"); spit(f, y); bool acc[2] = {true, true}; string why; std::shared_ptr<Robot> r;
      for (int k = 0; k < 2; k++) { x.transition(); try { auto q = std::make_shared<Robot>(thunder_ns::robot_from_file("rob", f, k == 1)); if (k) r = q; } catch (const std::exception& e) { acc[k] = false; why = e.what(); } }
      auto bad = [&](const string& w) { x.violation(what, w + "\n" + y); };
      if (s.v == Sense::REFUSE) { if (acc[1]) return bad("accepted although " + s.why); if (acc[0] && s.why != "type") return bad("accepted (without computing functions) although " + s.why); }
      if (s.v == Sense::VALID) { if (!s.either && (!acc[0] || !acc[1])) return bad("refused: " + why); if (acc[0] != acc[1]) return bad("accepted or refused depending on whether functions are computed");
        if (acc[1]) { Model m; m.cfg = s.g; m.robot = r; m.collect(); if (same_cfg(s.g, c)) equal_robots(x, m, base, what, y); else { Model w = build(x, s.g, yaml(s.g)); equal_robots(x, m, w, what, y); } } }
      // the parameters of the file loaded into an existing robot
      Robot o = *other; x.transition(); int rc; try { rc = o.load_conf_par(f); } catch (const std::exception& e) { rc = -1; why = e.what(); } Vals now = values(o, c); string e;
      if (rc == -1) return bad("load_conf_par throws: " + why);
      if (rc == 0) { e = diff(now, before); if (!e.empty()) return bad("load_conf_par reports a failure but changes the robot: " + e); if (d.v == Sense::VALID && !d.either) return bad("load_conf_par refuses the parameters"); }
      else if (d.v == Sense::REFUSE) return bad("load_conf_par accepts although " + d.why);
      else if (d.v == Sense::VALID) { Vals w = before; for (auto& p : PARS) { bool kin = p == "par_DHtable" || p == "par_world2L0" || p == "par_Ln2EE" || p == "par_gravity"; if (c.size(p) && !kin) { Cfg g = d.g; g.mask[p] = c.mask.at(p); w[p] = keep(pick(g, p), before.at(p)); } } w.erase("par_REG"); e = diff(now, w); if (!e.empty()) return bad("load_conf_par: " + e); }
      inertial_files(y, f, bad);
      x.state_once(hash_str(y) ^ 77);
    });
  }
  // files of save_par, read whole or in part
  static string partext(const Vals& v) { string o; int k = 0; for (auto& kv : v) { Vec w; for (size_t i = 0; i < kv.second.size(); i++) w.push_back(gen(k++, -2, 4)); if (!w.empty()) o += kv.first + ": " + nums(w) + "\n"; } return o; }
  void par(const Variant& v) {
    const string& y = v.text; string what = "file of save_par, " + v.what;
    child(what, y, [&] { x.state_once(hash_str(y) ^ 9); string f = x.tmp("m.yaml"); spit(f, y); auto bad = [&](const string& w) { x.violation(what, w + "\n" + y); };
      vector<vector<string>> lists = {{}}; { vector<string> all; for (auto& kv : before) if (!kv.second.empty()) all.push_back(kv.first); lists.push_back(all); vector<string> rev(all.rbegin(), all.rend()); lists.push_back(rev); for (auto& p : all) lists.push_back({p}); }
      for (auto& l : lists) { Vals w = before; bool refuse = false, either = false, free_ = false;
        try { using namespace sense_impl; N n = YAML::Load(y); duplicates(n); if (!n.IsMap()) { if (l.empty()) free_ = true; else refuse = true; } else { vector<string> names = l; if (l.empty()) for (auto kv : n) names.push_back(kv.first.Scalar()); for (auto& p : names) { N e = get(n, p); if (!e.IsDefined() || !e.IsSequence() || !before.count(p)) { refuse = true; continue; } size_t k = 0; for (auto a : e) { if (!isnum(a)) refuse = true; else if (k < w[p].size()) w[p][k] = a.as<double>(); k++; } if (k > w[p].size()) refuse = true; if (k < w[p].size()) either = true; } } }
        catch (const sense_impl::Free&) { free_ = true; } catch (const YAML::Exception&) { refuse = true; }
        Robot o = *other; x.transition(); int rc = 0; try { rc = o.load_par(f, l); } catch (const std::exception&) { } if (free_) continue; Vals now = values(o, c); string e, how = "load_par"; if (!l.empty()) { how += " of"; for (auto& p : l) how += " " + p; }
        if (!rc) { e = diff(now, before); if (!e.empty()) return bad(how + " reports a failure but changes the robot: " + e); if (!refuse && !either) return bad(how + " refuses the file"); }
        else if (refuse) return bad(how + " accepts the file"); else { e = diff(now, w); if (!e.empty()) return bad(how + ": " + e); } }
    });
  }
  void reg(const Variant& v) {
    const string& y = v.text; Sense d = sense_dyn(y, c, true); string what = "file of par_REG, " + v.what;
    child(what, y, [&] { x.state_once(hash_str(y) ^ 5); string f = x.tmp("m.yaml"); spit(f, y); auto bad = [&](const string& w) { x.violation(what, w + "\n" + y); };
      for (bool upd : {false, true}) { Robot o = *other; x.transition(); string why; bool thrown = false; try { o.load_par_REG(f, upd); } catch (const std::exception& e) { thrown = true; why = e.what(); } Vals now = values(o, c); string e;
        if (thrown) return bad("load_par_REG throws: " + why);
        if (d.v == Sense::REFUSE) { e = diff(now, before); if (!e.empty()) return bad("load_par_REG changes the robot although " + d.why + ": " + e); }
        if (d.v == Sense::VALID) { Vals w; w["par_REG"] = d.g.val["par_DYN"]; if (c.Dl_order) { Cfg g = d.g; g.mask["par_Dl"] = c.mask.at("par_Dl"); w["par_Dl"] = keep(pick(g, "par_Dl"), before.at("par_Dl")); } e = diff(now, w); if (!e.empty() && !(d.either && diff(now, before).empty())) return bad("load_par_REG: " + e); }
      }
    });
  }
};
struct St { vector<string> t; int Dl, K, D, Dm; bool e; int mode; };
static vector<Case> make(bool th) {
  vector<Case> cs;
  vector<St> sts = {{{"R"}, 1, 0, 0, 0, false, 2}, {{"P_SEA"}, 2, 2, 1, 2, true, 1}, {{"P", "R"}, 0, 0, 0, 0, false, 1}, {{"R", "P_SEA"}, 1, 2, 0, 1, true, 2}};
  if (th) for (auto& s : vector<St>{{{"R_SEA", "P", "R_SEA"}, 1, 1, 2, 0, true, 2}, {{"R", "R", "P"}, 2, 0, 0, 0, false, 2}, {{"P", "R_SEA"}, 1, 1, 1, 1, false, 2}, {{"R_SEA", "R_SEA"}, 2, 3, 2, 1, true, 0}, {{"P"}, 0, 0, 0, 0, false, 0}}) sts.push_back(s);
  int si = 0;
  for (auto& st : sts) { Cfg c = generic(st.t, 2 + si, st.Dl, st.e, st.K, st.D, st.Dm); if (st.mode == 1) mask_all(c, 1); else if (st.mode == 2) mask_alt(c, si); c.names = 0; si++;
    Doc d0 = parse(yaml(c)), r0 = parse(regtext(c)); string id = "types " + c.typestr() + (c.elastic ? " elastic" : "");
    auto block = [&](const string& name, const vector<Variant>& v, int reg) { size_t chunk = 24; auto vs = std::make_shared<vector<Variant>>(v); for (size_t b = 0; b < v.size(); b += chunk) cs.push_back({id + ", " + name + ", block " + std::to_string(b / chunk), [=](Ctx& x) { Lab l(x, c); for (size_t k = b; k < std::min(vs->size(), b + chunk) && x.nviol <= Ctx::MAXV; k++) reg == 2 ? l.par((*vs)[k]) : reg ? l.reg((*vs)[k]) : l.config((*vs)[k]); }}); };
    block("one place", single(d0, th), false); block("damaged", damaged(yaml(c), th), false); if (th || c.n() == 1) block("two places", pairs(d0, th && c.n() == 1), false);
    { Vals v; for (auto& p : PARS) { int k = 0; if (c.size(p)) { for (int m : c.mask.at(p)) k += m; v[p] = Vec(k); } } v["par_REG"] = Vec(10 * c.n()); string t = Lab::partext(v); block("save_par, one place", single(parse(t), th), 2); block("save_par, damaged", damaged(t, th), 2); if (th || c.n() == 1) block("save_par, two places", pairs(parse(t), true), 2); }
    block("par_REG, one place", single(r0, th), true); block("par_REG, damaged", damaged(regtext(c), th), true); if (th || c.n() == 1) block("par_REG, two places", pairs(r0, true), true);
  }
  return cs;
}
int main(int argc, char** argv) {
  plain_names() = true; string em; bool th = false; for (int i = 1; i < argc; i++) { if (string(argv[i]) == "--emit") em = argv[i + 1]; if (string(argv[i]) == "--thorough") th = true; }
  if (!em.empty()) {  // malformed files for the command line program: one of each kind at each place
    int k = 0; std::ofstream o(em + "/list.txt"); for (auto& t : vector<vector<string>>{{"R"}, {"P", "R_SEA"}}) { bool e = t.size() == 2; Cfg c = generic(t, 3, 1, e, 1, 1, 1); mask_alt(c, 1); std::set<string> kinds; for (auto& v : single(parse(yaml(c)), false)) { if (sense(v.text).v != Sense::REFUSE) continue; if (!th && !kinds.insert(v.what.substr(0, v.what.find(':')) + sense(v.text).why).second) continue; string f = "m" + std::to_string(k++) + ".yaml"; spit(em + "/" + f, v.text); o << f << " " << v.what << "\n"; } }
    return 0;
  }
  return run(argc, argv, make);
}
