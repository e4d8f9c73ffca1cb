#pragma once
// reads a configuration file written by someone else (the robots shipped with the repository) into a Cfg
#include "common.hpp"
#include <yaml-cpp/yaml.h>
#include <algorithm>
#include <dirent.h>
namespace mc {
inline Cfg read_yaml(const string& file) {
  YAML::Node y = YAML::LoadFile(file); Cfg c; c.types = y["type_joints"].as<vector<string>>(); int n = c.n();
  if (y["num_joints"].as<int>() != n) throw std::runtime_error("joint list of wrong length");
  c.Dl_order = y["Dl_order"] ? y["Dl_order"].as<int>() : 0; c.elastic = y["ELASTIC_MODEL"] && y["ELASTIC_MODEL"].as<bool>();
  auto put = [&](const string& p, Vec v, YAML::Node m) { vector<int> k = m ? m.as<vector<int>>() : vector<int>(v.size(), 0); c.val[p].insert(c.val[p].end(), v.begin(), v.end()); c.mask[p].insert(c.mask[p].end(), k.begin(), k.end()); };
  for (auto& p : PARS) { c.val[p]; c.mask[p]; }
  put("par_DHtable", y["kinematics"]["DH"].as<Vec>(), y["kinematics"]["symb"]);
  if (y["gravity"]) put("par_gravity", y["gravity"]["value"].as<Vec>(), y["gravity"]["symb"]); else { c.val["par_gravity"] = {0, 0, 0}; c.mask["par_gravity"] = {0, 0, 0}; }
  for (auto& s : vector<std::pair<string, string>>{{"Base_to_L0", "par_world2L0"}, {"Ln_to_EE", "par_Ln2EE"}}) { Vec v = y[s.first]["tr"].as<Vec>(), r = y[s.first]["ypr"].as<Vec>(); v.insert(v.end(), r.begin(), r.end()); put(s.second, v, y[s.first]["symb"]); }
  static const char* nm[] = {"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
  int i = 0; for (auto l : y["dynamics"]) { if (i++ >= n) break; YAML::Node in = l.second["inertial"], f = l.second["friction"]; Vec v; for (auto k : nm) v.push_back(in[k].as<double>()); put("par_DYN", v, in["symb"]); if (c.Dl_order) { if (f) put("par_Dl", f["Dl"].as<Vec>(), f["symb"]); else put("par_Dl", Vec(c.Dl_order, 0.0), YAML::Node(YAML::NodeType::Undefined)); } }
  if (c.elastic) { YAML::Node e = y["elastic"]; c.K_order = e["K_order"].as<int>(); c.D_order = e["D_order"].as<int>(); c.Dm_order = e["Dm_order"].as<int>(); int k = 0;
    for (auto j : e["joints"]) { if (k++ >= c.ne()) break; struct { const char *v, *m, *p; int o; } g[] = {{"K", "K_symb", "par_K", c.K_order}, {"D", "D_symb", "par_D", c.D_order}, {"Dm", "Dm_symb", "par_Dm", c.Dm_order}}; for (auto& x : g) if (x.o) put(x.p, j.second[x.v].as<Vec>(), j.second[x.m]); put("par_Mm", {j.second["Mm"] ? j.second["Mm"].as<double>() : 0.0}, YAML::Node(YAML::NodeType::Undefined)); if (j.second["Mm_symb"]) c.mask["par_Mm"].back() = j.second["Mm_symb"].as<int>(); } }
  for (auto& p : PARS) if (c.val[p].size() != c.mask[p].size() || (int)c.val[p].size() != c.size(p)) throw std::runtime_error("sizes of " + p);
  return c;
}
struct Shipped { string name, file; Cfg cfg; };
// the robots of the repository whose files follow the current format (others are skipped)
inline vector<Shipped> shipped(int max_joints) {
  vector<Shipped> r; const char* e = getenv("MC_REPO"); string repo = e ? e : "/repo"; std::set<string> used;
  for (string top : {repo + "/src/thunder/robots", repo + "/robots"}) { vector<string> fs; std::function<void(const string&)> walk = [&](const string& d) { DIR* q = opendir(d.c_str()); if (!q) return; while (dirent* x = readdir(q)) { string n = x->d_name; if (n[0] == '.' || n.find("_generatedFiles") != string::npos) continue; string p = d + "/" + n; if (n.size() > 5 && n.substr(n.size() - 5) == ".yaml") fs.push_back(p); else walk(p); } closedir(q); }; walk(top); std::sort(fs.begin(), fs.end());
    for (auto& f : fs) try { Cfg c = read_yaml(f); if (c.n() > max_joints) continue; string n = f.substr(f.rfind('/') + 1); n = n.substr(0, n.size() - 5); if (!used.insert(n).second) n += "_b"; used.insert(n); r.push_back({n, f, c}); } catch (const std::exception&) {} }
  return r;
}
}
