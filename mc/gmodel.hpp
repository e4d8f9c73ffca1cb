// Abstract machine of a generated robot object: what every public call means, and the comparison of a real
// object with it.
#pragma once
#define MC_WITH_MODEL
#include "genload.hpp"
#include <yaml-cpp/yaml.h>
namespace mc {
static const vector<string> KIN = {"par_DHtable", "par_world2L0", "par_Ln2EE", "par_gravity"};
using ref::Mat;
inline bool is_kin(const string& p) { for (auto& k : KIN) if (k == p) return true; return false; }
inline Vec to_reg(const Vec& d) { Vec r(d.size()); for (size_t o = 0; o + 9 < d.size(); o += 10) { double m = d[o], c[3] = {d[o + 1], d[o + 2], d[o + 3]}, cc = c[0] * c[0] + c[1] * c[1] + c[2] * c[2]; r[o] = m; for (int i = 0; i < 3; i++) r[o + 1 + i] = m * c[i]; int k = 4; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++, k++) r[o + k] = d[o + k] + m * ((i == j ? cc : 0) - c[i] * c[j]); } return r; }
inline Vec to_dyn(const Vec& r) { Vec d(r.size()); for (size_t o = 0; o + 9 < d.size(); o += 10) { double m = r[o], c[3] = {r[o + 1] / m, r[o + 2] / m, r[o + 3] / m}, cc = c[0] * c[0] + c[1] * c[1] + c[2] * c[2]; d[o] = m; for (int i = 0; i < 3; i++) d[o + 1 + i] = c[i]; int k = 4; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++, k++) d[o + k] = r[o + k] - m * ((i == j ? cc : 0) - c[i] * c[j]); } return d; }
// magnitude of the terms an inertial entry is made of (for the tolerance of conversions); DYN vector given
inline Vec inertia_scale(const Vec& d) { Vec s(d.size()); for (size_t o = 0; o + 9 < d.size(); o += 10) { double m = std::fabs(d[o]), cc = 0; for (int i = 1; i < 4; i++) cc += d[o + i] * d[o + i]; for (int k = 0; k < 10; k++) s[o + k] = std::fabs(d[o + k]) + (k == 0 ? 0 : k < 4 ? (m + 0) * std::fabs(d[o + k]) : m * cc); } return s; }
inline bool near(double a, double b, double scale, double tol = 1e-12) { return a == b || std::fabs(a - b) <= tol * scale; }

struct GObj {                                   // abstract object
  State v;                                      // variables; full parameters; current kinematic vectors (symbolic entries)
  Vec REG; bool derREG = false, derDYN = false; // derived by conversion: compare with tolerance, then adopt
};
struct GFile { enum { Missing, Garbage, Neutral, Conf, Reg } kind = Missing; map<string, Vec> part; };  // Conf: parts by parameter; Reg: par_REG, par_Dl

struct GWorld {
  Ctx& x; const GenSpec& sp; const Cfg& c; Model m; string conf; std::unordered_map<uint64_t, vector<Mat<double>>> cache; vector<string> fns;
  GWorld(Ctx& x_, const GenSpec& s) : x(x_), sp(s), c(s.cfg), m(make_model(x_, s.cfg, s.name, s.extra)) { conf = gen_handle(s.name).dir + "/" + s.name + "_conf.yaml"; for (auto& f : m.fn) fns.push_back(f.first); }
  std::unique_ptr<GenRobot> make() { return gen_make(sp.name); }
  bool whole() const { for (auto& p : KIN) { bool a = false, n = false; for (int v : c.mask.at(p)) (v ? a : n) = true; if (a && n) return false; } return true; }
  // a group without symbolic entry holds all its entries until a configuration is loaded
  GObj fresh() const { GObj o; for (auto& v : VARS) o.v[v] = Vec(var_size(c, v), 0.0); for (auto& p : PARS) o.v[p] = Vec(c.size(p), 0.0); o.REG = Vec(10 * c.n(), 0.0); return o; }
  GFile conf_file() const { GFile f; f.kind = GFile::Conf; for (auto& p : PARS) if (c.size(p)) f.part[p] = c.val.at(p); return f; }
  Vec pick(const string& p, const Vec& full) const { Vec r; for (size_t i = 0; i < full.size(); i++) if (c.mask.at(p)[i]) r.push_back(full[i]); return r; }
  void load_conf(GObj& o, const GFile& f, bool upd) const {
    if (f.kind != GFile::Conf) return;
    for (auto& kv : f.part) { if (is_kin(kv.first)) o.v[kv.first] = pick(kv.first, kv.second); else o.v[kv.first] = kv.second; }
    if (f.part.count("par_DYN")) { o.derDYN = false; if (upd) { o.REG = to_reg(o.v["par_DYN"]); o.derREG = true; } }
  }
  void load_reg(GObj& o, const GFile& f, bool upd) const { if (f.kind != GFile::Reg) return; o.REG = f.part.at("par_REG"); o.derREG = false; if (f.part.count("par_Dl") && c.size("par_Dl")) o.v["par_Dl"] = f.part.at("par_Dl"); if (upd) { o.v["par_DYN"] = to_dyn(o.REG); o.derDYN = true; } }
  State full(const GObj& o) const { State s = o.v; for (auto& p : KIN) { const Vec& cur = o.v.at(p); Vec f(c.size(p), 0.0); size_t k = 0; for (size_t i = 0; i < f.size(); i++) if (c.mask.at(p)[i]) f[i] = k < cur.size() ? cur[k++] : 0.0; s[p] = f; } return s; }
  // compares getters (and adopts values that come from a conversion); returns "" or what differs
  string getters(GenRobot& r, GObj& o) {
    auto one = [&](const string& p, Vec& want, bool& der, const Vec* scale) -> string {
      Vec got = sv(r.par(p)); x.transition(); if (got.size() != want.size()) return "get_" + p + " has " + std::to_string(got.size()) + " entries, expected " + std::to_string(want.size());
      for (size_t i = 0; i < got.size(); i++) if (!(der ? near(got[i], want[i], (*scale)[i]) : got[i] == want[i])) return "get_" + p + "(" + std::to_string(i) + ") is " + num(got[i]) + ", expected " + num(want[i]);
      if (der) { want = got; der = false; } return "";
    };
    Vec sc; if (o.derREG || o.derDYN) { sc = inertia_scale(o.v["par_DYN"]); for (auto& z : sc) z += 1e-300; }
    string e = one("par_REG", o.REG, o.derREG, &sc); if (!e.empty()) return e; e = one("par_DYN", o.v["par_DYN"], o.derDYN, &sc); if (!e.empty()) return e;
    bool no = false; for (auto& p : PARS) if (p != "par_DYN") { e = one(p, o.v[p], no, nullptr); if (!e.empty()) return e; }
    return "";
  }
  string functions(GenRobot& r, const GObj& o, bool twice) {
    State s = full(o); uint64_t h = hash_state(s); auto it = cache.find(h);
    if (it == cache.end()) { if (cache.size() > 200000) cache.clear(); vector<Mat<double>> v; for (auto& f : fns) v.push_back(m.eval(f, s)); it = cache.emplace(h, std::move(v)).first; }
    for (int pass = 0; pass < (twice ? 2 : 1); pass++) for (size_t k = 0; k < fns.size(); k++) { size_t i = pass ? fns.size() - 1 - k : k; string why; x.transition(); if (!close(toM(r.get(fns[i])), it->second[i], 1e-11, why)) return "get_" + fns[i] + "(): " + why; }
    return "";
  }
};
struct Capture {  // what a call reports on the standard streams
  std::ostringstream o; std::streambuf *a, *b; Capture() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {} ~Capture() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};
}  // namespace mc
