// C17: schedules of calls on distinct generated objects, under a controlled scheduler with a happens-before monitor.
#include "c17cfg.hpp"
#include "c17rt.hpp"
using namespace mc;
extern "C" { GenRobot* mc_make_ta(); GenRobot* mc_make_tb(); GenRobot* mc_make_tc(); }
static GenRobot* make_robot(int k) { return k == 0 ? mc_make_ta() : k == 1 ? mc_make_tb() : mc_make_tc(); }
struct Op { string name; std::function<Vec(std::unique_ptr<GenRobot>&, const string&)> run; bool io = false; };
static Vec val(int n, int k) { Vec v; for (int i = 0; i < n; i++) v.push_back(gen(23 * k + i, 0.2, 2.1)); return v; }
static string robots_dir;
struct Out { Vec v; bool threw = false; bool operator==(const Out& o) const { return threw == o.threw && v.size() == o.v.size() && (v.empty() || !memcmp(v.data(), o.v.data(), v.size() * 8)); } };

struct Lab {
  Ctx& x; vector<GenSpec> sp; vector<std::unique_ptr<GenRobot>> proto; vector<vector<Op>> ops; string dir; map<string, std::pair<Out, Vec>> alone; bool ok = true; vector<string> confs;
  // names: given when nothing of the generated code may run before the threads do
  Lab(Ctx& x_, const vector<vector<string>>* names = nullptr) : x(x_), sp(c17_specs(false)), dir(x_.dir) {
    for (int k = 0; k < 3; k++) {
      const Cfg& c = sp[k].cfg; string conf = robots_dir + "/" + sp[k].name + "/" + sp[k].name + "_generatedFiles/" + sp[k].name + "_conf.yaml", reg = conf.substr(0, conf.size() - 9) + "par_REG.yaml";
      confs.push_back(conf); if (!names) { proto.emplace_back(make_robot(k)); ready(*proto[k], k, conf); }
      vector<Op> A; for (auto& f : names ? (*names)[k] : proto[k]->names()) A.push_back({"get_" + f, [f](std::unique_ptr<GenRobot>& o, const string&) { return sv(o->get(f)); }});
      for (auto& v : VARS) if (var_size(c, v)) { Vec z = val(var_size(c, v), 11); A.push_back({"set_" + v, [v, z](std::unique_ptr<GenRobot>& o, const string&) { o->set(v, ev(z)); return Vec(); }}); }
      { Vec z = val(c.n(), 12); A.push_back({"setArguments", [z](std::unique_ptr<GenRobot>& o, const string&) { o->setArguments(ev(z), ev(z), ev(z), ev(z)); return Vec(); }}); Vec w = val(c.n() + 1, 12); A.push_back({"set_q of wrong size", [w](std::unique_ptr<GenRobot>& o, const string&) { o->set("q", ev(w)); return Vec(); }}); }
      vector<string> ps = PARS; ps.push_back("par_REG");
      for (auto& p : ps) { string n = p; A.push_back({"get_" + p, [n](std::unique_ptr<GenRobot>& o, const string&) { return sv(o->par(n)); }}); A.push_back({"set_" + p, [n](std::unique_ptr<GenRobot>& o, const string&) { int s = (int)o->par(n).size(); o->set(n, ev(val(s, 13))); return Vec(); }}); }
      A.push_back({"load_conf", [conf](std::unique_ptr<GenRobot>& o, const string&) { o->load_conf(conf); return Vec(); }, true});
      A.push_back({"load_par_REG", [reg](std::unique_ptr<GenRobot>& o, const string&) { return sv(o->load_par_REG(reg)); }, true});
      A.push_back({"load_conf of a missing file", [](std::unique_ptr<GenRobot>& o, const string& d) { o->load_conf(d + "/missing.yaml"); return Vec(); }, true});
      auto text = [](const string& f) { string s = slurp(f); return Vec(s.begin(), s.end()); };
      A.push_back({"save_par_REG", [text](std::unique_ptr<GenRobot>& o, const string& d) { o->save_par_REG(d + "/r.yaml"); return text(d + "/r.yaml"); }, true});
      A.push_back({"save_par_DYN", [text](std::unique_ptr<GenRobot>& o, const string& d) { o->save_par_DYN(d + "/d.yaml"); return text(d + "/d.yaml"); }, true});
      A.push_back({"save_par", [text](std::unique_ptr<GenRobot>& o, const string& d) { o->save_par(d + "/p.yaml"); return text(d + "/p.yaml"); }, true});
      // the files of all threads in one directory, and files of the thread's own that nobody has read before
      A.push_back({"save_par next to the other", [text](std::unique_ptr<GenRobot>& o, const string& d) { o->save_par(d + "_p.yaml"); return text(d + "_p.yaml"); }, true});
      A.push_back({"save_par_REG next to the other", [text](std::unique_ptr<GenRobot>& o, const string& d) { o->save_par_REG(d + "_r.yaml"); return text(d + "_r.yaml"); }, true});
      A.push_back({"save_par_DYN next to the other", [text](std::unique_ptr<GenRobot>& o, const string& d) { o->save_par_DYN(d + "_d.yaml"); return text(d + "_d.yaml"); }, true});
      { string cn = sp[k].name; A.push_back({"load_conf of an own file", [cn](std::unique_ptr<GenRobot>& o, const string& d) { o->load_conf(d + "_" + cn + "_conf.yaml"); return Vec(); }, true});
        A.push_back({"load_par_REG of an own file", [cn](std::unique_ptr<GenRobot>& o, const string& d) { return sv(o->load_par_REG(d + "_" + cn + "_par_REG.yaml")); }, true}); }
      for (int t = 0; t < 3; t++) { spit(tdir(t) + "_" + sp[k].name + "_conf.yaml", slurp(conf)); spit(tdir(t) + "_" + sp[k].name + "_par_REG.yaml", slurp(reg)); }
      // calls that are refused, and the variants without conversion
      { vector<string> all = VARS; all.insert(all.end(), ps.begin(), ps.end()); for (auto& p : all) { string n = p; if (n != "q") A.push_back({"set_" + p + " of wrong size", [n](std::unique_ptr<GenRobot>& o, const string&) { int s = 200; o->set(n, ev(val(s, 15))); return Vec(); }}); } }
      { Vec z = val(c.n(), 12), w = val(c.n() + 1, 12); A.push_back({"setArguments of wrong size", [z, w](std::unique_ptr<GenRobot>& o, const string&) { o->setArguments(ev(z), ev(z), ev(w), ev(z)); return Vec(); }}); }
      for (string p : {"par_DYN", "par_REG"}) A.push_back({"set_" + p + " without conversion", [p](std::unique_ptr<GenRobot>& o, const string&) { o->set(p, ev(val((int)o->par(p).size(), 16)), false); return Vec(); }});
      A.push_back({"load_conf without conversion", [conf](std::unique_ptr<GenRobot>& o, const string&) { o->load_conf(conf, false); return Vec(); }, true});
      A.push_back({"load_par_REG without conversion", [reg](std::unique_ptr<GenRobot>& o, const string&) { return sv(o->load_par_REG(reg, false)); }, true});
      A.push_back({"load_par_REG of a missing file", [](std::unique_ptr<GenRobot>& o, const string& d) { return sv(o->load_par_REG(d + "/missing.yaml")); }, true});
      A.push_back({"load_conf of a broken file", [](std::unique_ptr<GenRobot>& o, const string& d) { o->load_conf(d + "/broken.yaml"); return Vec(); }, true});
      A.push_back({"save_par into a missing directory", [](std::unique_ptr<GenRobot>& o, const string& d) { o->save_par(d + "/no/p.yaml"); o->save_par_REG(d + "/no/p.yaml"); o->save_par_DYN(d + "/no/p.yaml"); return Vec(); }, true});
      A.push_back({"copy", [](std::unique_ptr<GenRobot>& o, const string&) { std::unique_ptr<GenRobot> c(o->clone()); o->set("par_gravity", ev(val((int)o->par("par_gravity").size(), 14))); return sv(c->get("T_0_ee")); }});
      A.push_back({"destroy and build", [k](std::unique_ptr<GenRobot>& o, const string&) { o.reset(make_robot(k)); return Vec(); }});
      A.push_back({"resizeVariables", [](std::unique_ptr<GenRobot>& o, const string&) { o->resizeVariables(); return Vec(); }});
      ops.push_back(A);
    }
    for (int t = 0; t < 3; t++) { mkdir((dir + "/t" + std::to_string(t)).c_str(), 0755); spit(dir + "/t" + std::to_string(t) + "/broken.yaml", "kinematics: [1, 2\n  dynamics: {"); }
  }
  struct Job { int k, op; };  // robot and operations of one thread
  typedef vector<Job> Seq;
  string tdir(int t) { return dir + "/t" + std::to_string(t); }
  void ready(GenRobot& r, int k, const string& conf) { r.load_conf(conf); for (auto& v : VARS) if (var_size(sp[k].cfg, v)) r.set(v, ev(val(var_size(sp[k].cfg, v), 3 + k))); }
  // the first calls of a process: the objects are built in the threads, before anything of the generated code has run
  void cold(const vector<Seq>& s, const vector<rt::Seg>& sch) {
    size_t n = s.size(); vector<std::unique_ptr<GenRobot>> o(n), p(n); vector<Out> out(n), want(n);
    auto body = [&](size_t t, vector<std::unique_ptr<GenRobot>>& ob, Out& r) { ob[t].reset(make_robot(s[t][0].k)); ready(*ob[t], s[t][0].k, tdir((int)t) + "_" + sp[s[t][0].k].name + "_conf.yaml"); for (auto& j : s[t]) { Out z = one(ob[t], j.k, j.op, (int)t); r.threw |= z.threw; r.v.insert(r.v.end(), z.v.begin(), z.v.end()); } };
    vector<std::function<void()>> b; for (size_t t = 0; t < n; t++) b.push_back([&, t] { body(t, o, out[t]); });
    rt::Result r = rt::run(b, sch, true); x.trace(); long c = 0; for (long k : r.count) c += k; x.transition(c); string how = "first calls of the process (objects built in the threads)\n" + show(s, sch);
    if (r.race.found) x.violation("conflicting accesses", "unordered accesses to the same memory by " + string(r.race.write[0] ? "a write in " : "a read in ") + rt::where(r.race.pc[0]) + " (thread " + std::to_string(r.race.tid[0]) + ") and " + (r.race.write[1] ? "a write in " : "a read in ") + rt::where(r.race.pc[1]) + "\n" + how);
    for (size_t t = 0; t < n; t++) { body(t, p, want[t]); if (!(out[t] == want[t])) x.violation("result under concurrency", "thread " + std::to_string(t) + " obtains another result than alone\n" + how); else if (!same(dump(*o[t]), dump(*p[t]))) x.violation("object under concurrency", "the object of thread " + std::to_string(t) + " ends in another state than alone\n" + how); }
  }
  static Vec dump(GenRobot& r) { Vec v; vector<string> ps = PARS; ps.push_back("par_REG"); for (auto& p : ps) { Vec z = sv(r.par(p)); v.push_back(z.size()); v.insert(v.end(), z.begin(), z.end()); } for (auto& f : {"M", "T_0_ee", "C"}) { Vec z = sv(r.get(f)); v.insert(v.end(), z.begin(), z.end()); } return v; }
  static bool same(const Vec& a, const Vec& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * 8)); }
  Out one(std::unique_ptr<GenRobot>& o, int k, int op, int t) { Out r; try { r.v = ops[k][op].run(o, tdir(t)); } catch (...) { r.threw = true; } return r; }
  // result of a thread's sequence when it runs alone
  const std::pair<Out, Vec>& expect(const Seq& s, int t) {
    string key; for (auto& j : s) key += std::to_string(j.k) + ":" + std::to_string(j.op) + ","; auto it = alone.find(key); if (it != alone.end()) return it->second;
    std::unique_ptr<GenRobot> o(proto[s[0].k]->clone()); Out r; rt::run({[&] { for (auto& j : s) { Out z = one(o, j.k, j.op, t); r.threw |= z.threw; r.v.insert(r.v.end(), z.v.begin(), z.v.end()); } }}, {}, false); Vec d = dump(*o); return alone[key] = {r, d};
  }
  string show(const vector<Seq>& s, const vector<rt::Seg>& sch) { string m; for (size_t t = 0; t < s.size(); t++) { m += "thread " + std::to_string(t) + ":"; for (auto& j : s[t]) m += " " + sp[j.k].name + "." + ops[j.k][j.op].name; m += "\n"; } m += "schedule:"; for (auto& g : sch) m += " t" + std::to_string(g.tid) + (g.stop < 0 ? " to its end" : " to access " + std::to_string(g.stop)); return m; }
  // shared: 0 separate objects, 1 copies of one object, 2 objects built in the threads
  rt::Result go(const vector<Seq>& s, const vector<rt::Seg>& sch, bool monitor, int how) {
    size_t n = s.size(); vector<std::unique_ptr<GenRobot>> o(n); vector<Out> out(n); vector<const std::pair<Out, Vec>*> want; for (size_t t = 0; t < n; t++) want.push_back(&expect(s[t], (int)t));
    for (size_t t = 0; t < n; t++) if (how == 1 && t && s[t][0].k == s[0][0].k) o[t].reset(o[0]->clone()); else if (how < 2) o[t].reset(proto[s[t][0].k]->clone());
    vector<std::function<void()>> body; for (size_t t = 0; t < n; t++) body.push_back([&, t] { if (how == 2) o[t].reset(proto[s[t][0].k]->clone()); for (auto& j : s[t]) { Out z = one(o[t], j.k, j.op, (int)t); out[t].threw |= z.threw; out[t].v.insert(out[t].v.end(), z.v.begin(), z.v.end()); } });
    rt::Result r = rt::run(body, sch, monitor); x.trace(); long c = 0; for (long k : r.count) c += k; x.transition(c);
    if (r.race.found) { x.violation("conflicting accesses", "unordered accesses to the same memory by " + string(r.race.write[0] ? "a write in " : "a read in ") + rt::where(r.race.pc[0]) + " (thread " + std::to_string(r.race.tid[0]) + ") and " + (r.race.write[1] ? "a write in " : "a read in ") + rt::where(r.race.pc[1]) + "\n" + show(s, sch)); ok = false; }
    for (size_t t = 0; t < n; t++) { const auto& e = *want[t]; if (!(out[t] == e.first)) { x.violation("result under concurrency", "thread " + std::to_string(t) + " obtains another result than alone\n" + show(s, sch)); ok = false; } else if (!same(dump(*o[t]), e.second)) { x.violation("object under concurrency", "the object of thread " + std::to_string(t) + " ends in another state than alone\n" + show(s, sch)); ok = false; } }
    o.clear(); rt::quiesce(); return r;
  }
};

static vector<Case> make(bool th) {
  vector<Case> cs; const int PARTS = 8;
  const char* HOW[] = {"separate objects", "copies of one object", "objects built in the threads"}; const char* RB[] = {"ta", "tb", "tc"};
  for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int how = 0; how < 3; how++) {
    if (how && a != b) continue; if (!th && a != b && !((a == 0 && b == 2) || (a == 1 && b == 0))) continue;
    for (int part = 0; part < PARTS; part++) cs.push_back({"all pairs of calls, robots " + string(RB[a]) + " and " + RB[b] + ", " + HOW[how] + ", part " + std::to_string(part), [=](Ctx& x) {
      Lab L(x); for (int i = part; i < (int)L.ops[a].size(); i += PARTS) for (int j = 0; j < (int)L.ops[b].size() && L.ok; j++) { L.go({{{a, i}}, {{b, j}}}, {{0, -1}, {1, -1}}, true, how); x.state(); } }});
  }
  // call sequences: everything a thread can do, twice (warm buffers), against the same in the other thread
  for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) cs.push_back({"all calls in each thread, robots " + string(RB[a]) + " and " + RB[b], [=](Ctx& x) { Lab L(x); auto all = [&](int k) { Lab::Seq s; for (int rep = 0; rep < 2; rep++) for (int i = 0; i < (int)L.ops[k].size(); i++) if (!L.ops[k][i].io) s.push_back({k, i}); return s; }; Lab::Seq s = all(a), t = all(b); for (int how = 0; how < 3; how++) { auto r = L.go({s, t}, {{0, -1}, {1, -1}}, true, how); x.state(); } L.go({s, t, s}, {{2, -1}, {0, -1}, {1, -1}}, true, 0); }});
  // every single preemption
  for (int a = 0; a < 3; a++) for (int part = 0; part < PARTS; part++) cs.push_back({"every single preemption, robot " + string(RB[a]) + ", part " + std::to_string(part), [=](Ctx& x) {
    Lab L(x); int n = (int)L.ops[a].size(); for (int i = part; i < n && L.ok; i += PARTS) for (int v = 0; v < 3 && L.ok; v++) {
      int b = v == 2 ? (a + 1) % 3 : a; int j = v == 0 ? i : (i * 7 + 3) % (int)L.ops[b].size(); vector<Lab::Seq> s = {{{a, i}}, {{b, j}}}; auto base = L.go(s, {{0, -1}, {1, -1}}, true, 0); long lim = th ? 20000 : v ? 400 : 2000; x.state();
      if (base.count[0] <= lim) { for (long k = 1; k <= base.count[0] && L.ok; k++) { L.go(s, {{0, k}, {1, -1}, {0, -1}}, false, v % 2); x.state(); } }
      else { const auto& sh = base.shared[0]; size_t step = th ? 1 : 1 + sh.size() / 60; for (size_t q = 0; q < sh.size() && L.ok; q += step) { L.go(s, {{0, sh[q]}, {1, -1}, {0, -1}}, true, 0); x.state(); L.go(s, {{0, sh[q] + 1}, {1, -1}, {0, -1}}, true, 0); x.state(); } } } }});
  // nothing initialised yet: each pair in a process of its own
  for (int a = 0; a < 3; a++) for (int part = 0; part < PARTS; part++) cs.push_back({"first calls of a process, robot " + string(RB[a]) + ", part " + std::to_string(part), [=](Ctx& x) {
    Lab L(x); string nf = x.tmp("names"), res = x.tmp("cold.txt"); { string t; for (auto& p : L.proto) { for (auto& f : p->names()) t += f + " "; t += "\n"; } spit(nf, t); }
    int n = (int)L.ops[a].size(); for (int i = part; i < n && L.ok; i += PARTS) for (int v = 0; v < (th ? 4 : 2) && L.ok; v++) {
      int b = v % 2 ? (a + 1) % 3 : a, j = v == 0 ? i : (i * 7 + 3 * v) % (int)L.ops[b].size(); vector<string> args = {"/proc/self/exe", "--cold", std::to_string(a), std::to_string(i), std::to_string(b), std::to_string(j), x.dir, nf, res, "--robots", robots_dir}; vector<char*> av; for (auto& s : args) av.push_back(&s[0]); av.push_back(nullptr);
      unlink(res.c_str()); pid_t pid = fork(); if (!pid) { execv(av[0], av.data()); _exit(99); } int st; waitpid(pid, &st, 0); string t = slurp(res); x.state(); x.trace(); string what = L.sp[a].name + "." + L.ops[a][i].name + " and " + L.sp[b].name + "." + L.ops[b][j].name;
      if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 7)) { x.violation("first calls", what + ": the process ends with status " + std::to_string(st)); L.ok = false; }
      else if (WEXITSTATUS(st) == 7) { x.violation("first calls of a process", t); L.ok = false; } else x.transition(atol(t.c_str())); } }});
  // two preemptions, and three threads
  for (int part = 0; part < PARTS; part++) cs.push_back({"every pair of preemptions of the shortest calls, part " + std::to_string(part), [=](Ctx& x) {
    Lab L(x); vector<std::pair<long, int>> small; for (int i = 0; i < (int)L.ops[1].size(); i++) if (L.ops[1][i].name.substr(0, 4) == "get_" && !L.ops[1][i].io) { Lab::Seq q = {{1, i}}; std::unique_ptr<GenRobot> o(L.proto[1]->clone()); auto r = rt::run({[&] { L.one(o, 1, i, 0); }}, {}, false); if (r.count[0] > 20) small.push_back({r.count[0], i}); }
    std::sort(small.begin(), small.end()); size_t m = std::min<size_t>(small.size(), th ? 12 : 5);
    for (size_t u = 0; u < m && L.ok; u++) { int i = small[u].second, j = small[(u + 1) % m].second; vector<Lab::Seq> s = {{{1, i}}, {{1, u % 2 ? j : i}}}, s3 = {{{1, i}}, {{1, j}}, {{1, i}}}; long n0 = small[u].first, n1 = u % 2 ? small[(u + 1) % m].first : n0;
      for (long k = 1 + part; k <= n0 && L.ok; k += PARTS) for (long h = 1; h <= n1 && L.ok; h++) { L.go(s, {{0, k}, {1, h}, {0, -1}, {1, -1}}, false, 0); x.state(); if (h % (th ? 1 : 5) == 0) { L.go(s3, {{0, k}, {1, h}, {2, -1}, {0, -1}, {1, -1}}, false, 0); x.state(); } } } }});
  return cs;
}
static int cold_main(int argc, char** argv) {
  vector<vector<string>> names(1); { string t = slurp(argv[7]), w; for (char c : t) if (c == ' ') { names.back().push_back(w); w.clear(); } else if (c == '\n') names.emplace_back(); else w += c; }
  Ctx x; Shared* sh = new Shared(); sh->states = 0; sh->transitions = 0; sh->traces = 0; sh->violations = 0; x.sh = sh; x.dir = argv[6]; x.idx = 0; string res = argv[8]; x.vf = fopen((res + ".v").c_str(), "w"); if (chdir(x.dir.c_str())) return 98;
  Lab L(x, &names); int a = atoi(argv[2]), i = atoi(argv[3]), b = atoi(argv[4]), j = atoi(argv[5]); L.cold({{{a, i}}, {{b, j}}}, {{0, -1}, {1, -1}}); fclose(x.vf);
  if (x.nviol) { spit(res, slurp(res + ".v")); return 7; } spit(res, std::to_string(sh->transitions.load())); return 0;
}
int main(int argc, char** argv) { for (int i = 1; i + 1 < argc; i++) if (string(argv[i]) == "--robots") robots_dir = argv[i + 1]; if (argc > 8 && string(argv[1]) == "--cold") return cold_main(argc, argv); return run(argc, argv, make); }
