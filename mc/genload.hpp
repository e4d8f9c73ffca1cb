// The robots a harness asks for (--emit) and gets back as shared objects (--robots)
#pragma once
#include <memory>
#include <dlfcn.h>
#include "common.hpp"
#include "genapi.hpp"
namespace mc {
struct GenSpec { string name; Cfg cfg; vector<string> flags; vector<string> functions; string extra; string file; string raw = ""; };  // raw: the text of the configuration, when it is not yaml(cfg)
struct GenHandle { GenMake make = nullptr; string dir, so; };
inline map<string, GenHandle>& gen_table() { static map<string, GenHandle> t; return t; }
inline void gen_load(const string& dir) { std::ifstream f(dir + "/robots.txt"); string n, so, d; while (f >> n >> so >> d) { GenHandle h; h.dir = d; h.so = so; gen_table()[n] = h; } }
inline GenHandle& gen_handle(const string& n) {
  auto it = gen_table().find(n); if (it == gen_table().end()) throw std::runtime_error("robot " + n + " is not available");
  GenHandle& h = it->second; if (!h.make) { void* p = dlopen(h.so.c_str(), RTLD_NOW | RTLD_LOCAL); if (!p) throw std::runtime_error(dlerror()); h.make = (GenMake)dlsym(p, ("mc_make_" + n).c_str()); if (!h.make) throw std::runtime_error("no factory for " + n); }
  return h;
}
inline std::unique_ptr<GenRobot> gen_make(const string& n) { return std::unique_ptr<GenRobot>(gen_handle(n).make()); }
inline void emit_list(const string& dir, const vector<GenSpec>& l) {
  std::ofstream o(dir + "/list.json"); o << "[";
  for (size_t i = 0; i < l.size(); i++) { const auto& g = l[i]; string y = dir + "/" + g.name + ".src.yaml"; spit(y, g.raw.empty() ? yaml(g.cfg, g.extra) : g.raw);
    o << (i ? ",\n" : "\n") << "{\"name\": " << jstr(g.name) << ", \"yaml\": " << jstr(y) << ", \"flags\": ["; for (size_t k = 0; k < g.flags.size(); k++) o << (k ? ", " : "") << jstr(g.flags[k]);
    o << "], "; if (!g.file.empty()) o << "\"file\": " << jstr(g.file) << ", "; o << "\"functions\": ["; for (size_t k = 0; k < g.functions.size(); k++) o << (k ? ", " : "") << jstr(g.functions[k]); o << "]}"; }
  o << "]\n";
}
inline Eigen::VectorXd ev(const Vec& v) { Eigen::VectorXd r((int)v.size()); for (size_t i = 0; i < v.size(); i++) r((int)i) = v[i]; return r; }
inline Vec sv(const Eigen::MatrixXd& m) { return Vec(m.data(), m.data() + m.size()); }
inline ref::Mat<double> toM(const Eigen::MatrixXd& E) { ref::Mat<double> m((int)E.rows(), (int)E.cols()); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) m(i, j) = E(i, j); return m; }
}  // namespace mc
#ifdef MC_WITH_MODEL
#include "model.hpp"
namespace mc {
// names of the functions of each robot's model (built in 8 processes)
inline void fill_functions(vector<GenSpec>& l, const string& dir) {
  int J = 8; fflush(nullptr);
  for (int w = 0; w < J; w++) { if (fork()) continue;
    int null = open("/dev/null", O_WRONLY); dup2(null, 1); dup2(null, 2); std::ofstream o(dir + "/.fn" + std::to_string(w)); Shared sh; Ctx c; c.sh = &sh; c.dir = dir + "/.w" + std::to_string(w); mkdir(c.dir.c_str(), 0755); int rc = 0;
    for (size_t i = w; i < l.size(); i += J) { try { Model m = make_model(c, l[i].cfg, l[i].name, l[i].extra); o << i; for (auto& f : m.fn) o << " " << f.first; o << "\n"; } catch (...) { rc = 1; } }
    o.close(); _exit(rc); }
  int st; while (wait(&st) > 0) {}
  for (int w = 0; w < J; w++) { std::ifstream f(dir + "/.fn" + std::to_string(w)); string line; while (std::getline(f, line)) { std::stringstream s(line); size_t i; s >> i; string n; while (s >> n) l[i].functions.push_back(n); } }
}
inline int gen_main(int argc, char** argv, std::function<vector<GenSpec>(bool)> specs, std::function<vector<Case>(bool, const vector<GenSpec>&)> cases) {
  string em, rob; bool th = false;
  for (int i = 1; i < argc; i++) { string a = argv[i]; if (a == "--emit") em = argv[i + 1]; if (a == "--robots") rob = argv[i + 1]; if (a == "--thorough") th = true; }
  auto l = specs(th);
  if (!em.empty()) { fill_functions(l, em); emit_list(em, l); return 0; }
  gen_load(rob); return run(argc, argv, [&](bool t) { return cases(t, l); });
}
}  // namespace mc
#endif
