// C25, generated classes: malformed files given to load_conf and load_par_REG of instrumented generated code.
#define MC_WITH_MODEL
#include "genload.hpp"
#include "sense.hpp"
using namespace mc;
static bool kin(const string& p) { return p == "par_DHtable" || p == "par_world2L0" || p == "par_Ln2EE" || p == "par_gravity"; }
static vector<GenSpec> specs(bool th) {
  vector<GenSpec> l; auto put = [&](const string& n, Cfg c, int mode) { if (mode == 1) mask_all(c, 1); if (mode == 2) mask_alt(c, (int)l.size()); c.names = 0; l.push_back({n, c, {}, {}, "", ""}); };
  put("m1", generic({"R"}, 1, 1), 2); put("m2", generic({"P_SEA"}, 2, 2, true, 2, 1, 2), 1); put("m3", generic({"R", "P_SEA"}, 3, 1, true, 2, 0, 1), 2); put("m4", generic({"P", "R"}, 4, 0), 1); put("m5", generic({"R_SEA", "P"}, 5, 2, true, 1, 2, 3), 0);
  if (th) { put("m6", generic({"R_SEA", "P", "R_SEA"}, 6, 1, true, 1, 1, 1), 2); put("m7", generic({"R", "R", "P"}, 7, 2), 1); put("m8", generic({"P", "R_SEA"}, 8, 1, false), 2); }
  return l;
}
typedef map<string, Vec> Vals;
struct Lab {
  Ctx& x; const GenSpec& sp; const Cfg& c; std::unique_ptr<GenRobot> r; vector<string> pars; Vals old, fresh_;
  Lab(Ctx& x_, const GenSpec& s) : x(x_), sp(s), c(s.cfg), r(gen_make(s.name)) {
    GenHandle& h = gen_handle(s.name); for (auto& p : PARS) if (c.size(p)) pars.push_back(p); pars.push_back("par_REG");
    r->load_conf(h.dir + "/" + s.name + "_conf.yaml"); fresh_ = get(); int k = 0; for (auto& kv : fresh_) { Vec v; for (size_t i = 0; i < kv.second.size(); i++) v.push_back(gen(k++, 3, 5)); old[kv.first] = v; }
  }
  Vals get() { Vals v; for (auto& p : pars) v[p] = sv(r->par(p)); return v; }
  void set(const Vals& v) { for (auto& kv : v) if (!kv.second.empty()) r->set(kv.first, ev(kv.second), false); }
  void one(const Variant& v, bool reg, const Vals& want) {
    string f = x.tmp("m.yaml"); spit(f, v.text); fprintf(stderr, "robot %s, %s%s\n", sp.name.c_str(), reg ? "file of par_REG, " : "", v.what.c_str());
    Sense d = sense_dyn(v.text, c, reg); auto bad = [&](const string& w) { x.violation(v.what, "robot " + sp.name + (reg ? ", load_par_REG: " : ", load_conf: ") + w + "\n" + v.text); };
    // lists that the loader reads and that are refused: nothing at all changes, also with the conversion of the inertial parameters asked for
    string lf = v.what.substr(0, v.what.find(':')); bool one = v.what.find(": ") != string::npos && sense(v.text).v == Sense::REFUSE && lf.find("symb") == string::npos; const char* own = !one || reg ? nullptr : lf == "kinematics/DH" ? "par_DHtable" : lf == "gravity/value" ? "par_gravity" : lf.substr(0, 10) == "Base_to_L0" && lf.size() > 10 ? "par_world2L0" : lf.substr(0, 8) == "Ln_to_EE" && lf.size() > 8 ? "par_Ln2EE" : nullptr;
    bool refused = d.v == Sense::REFUSE || own;
    for (bool conv : {false, true}) {
      if (conv && !refused) break; set(old); x.state_once(hash_str(v.text) ^ (reg ? 3 : 0) ^ (conv ? 11 : 0)); x.transition(); x.trace();
      try { if (reg) r->load_par_REG(f, conv); else r->load_conf(f, conv); } catch (const std::exception& e) { return bad(string("throws ") + e.what()); }
      Vals now = get();
      for (auto& p : pars) { auto &a = now[p], &o = old[p]; const Vec& w = want.count(p) ? want.at(p) : o; x.transition(); if (a.size() != o.size()) return bad(p + " has " + std::to_string(a.size()) + " entries instead of " + std::to_string(o.size()));
        for (size_t i = 0; i < a.size(); i++) { if (refused && a[i] != o[i]) return bad(p + " entry " + std::to_string(i) + " changes from " + num(o[i]) + " to " + num(a[i]) + " although the file is refused (" + (own ? lf : d.why) + ")" + (conv ? ", conversion asked for" : "")); if (d.v != Sense::FREE && !(a[i] == o[i] || a[i] == w[i])) return bad(p + " entry " + std::to_string(i) + " is " + num(a[i]) + ", neither the previous nor the given value"); } }
    }
    Vals now;
    for (auto& fn : sp.functions) { r->get(fn); x.transition(); }
    // the proper file afterwards
    string g = x.tmp("good.yaml"); spit(g, reg ? regtext(c) : yaml(c)); if (reg) r->load_par_REG(g, false); else r->load_conf(g, false); now = get();
    for (auto& p : pars) if (want.count(p) && now[p] != want.at(p)) return bad("afterwards the proper file does not give its values of " + p);
  }
};
static vector<Case> cases(bool th, const vector<GenSpec>& l) {
  vector<Case> cs;
  for (auto& sp : l) for (bool reg : {false, true}) { auto vs = std::make_shared<vector<Variant>>(); const Cfg& c = sp.cfg; Doc d0 = parse(reg ? regtext(c) : yaml(c));
    for (auto& v : single(d0, true)) vs->push_back(v); if (c.n() == 1 || th) for (auto& v : pairs(d0, th)) { bool shrink = true; (void)shrink; vs->push_back(v); }
    size_t chunk = 400; for (size_t b = 0; b < vs->size(); b += chunk) cs.push_back({"robot " + sp.name + ": types " + c.typestr() + (reg ? ", load_par_REG" : ", load_conf") + ", block " + std::to_string(b / chunk), [=](Ctx& x) { Lab lab(x, sp); Vals want; for (auto& p : lab.pars) { if (reg ? p == "par_Dl" : p != "par_REG") want[p] = lab.fresh_[p]; } if (reg) want["par_REG"] = c.val.at("par_DYN"); for (size_t k = b; k < std::min(vs->size(), b + chunk) && x.nviol <= Ctx::MAXV; k++) lab.one((*vs)[k], reg, want); }}); }
  return cs;
}
int main(int argc, char** argv) { plain_names() = true; return gen_main(argc, argv, specs, cases); }
