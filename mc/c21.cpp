// C21: omitted optional parts, order of sections and keys, names, aliases; refusal of wrong joint lists.
#include "doc.hpp"
#include "readcfg.hpp"
using namespace mc; using ref::Mat;

// expects an exception from building a robot (run in a child: a crash is not a refusal)
static void refused(Ctx& c, const string& y, const string& what) {
  string f = c.tmp("bad.yaml"); spit(f, y); c.transition(); c.state_once(hash_str(y)); fflush(nullptr);
  pid_t p = fork(); if (!p) { alarm(60); int null = open("/dev/null", O_WRONLY); dup2(null, 2); int rc = 0; try { auto r = thunder_ns::robot_from_file("rob", f); } catch (const std::exception&) { rc = 42; } _exit(rc); }
  int st; waitpid(p, &st, 0); c.trace();
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 42)) c.violation(what, string(WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "accepted") + "\n" + y);
}

// rewrites every leaf below d
typedef std::function<string(const string&)> Leaf;
static void spell(Doc& d, const Leaf& f) { if (d.kids.empty()) { if (!d.val.empty()) d.val = f(d.val); } else for (auto& k : d.kids) spell(k, f); }
static bool isnum(const string& s) { char* e; if (s.empty()) return false; strtod(s.c_str(), &e); return !*e; }
static Leaf each(Leaf g) { return [=](const string& v) { if (v[0] != '[') return g(v); string o = "["; auto l = split(v.substr(1, v.size() - 2), ','); for (size_t i = 0; i < l.size(); i++) { string a = l[i]; while (!a.empty() && a[0] == ' ') a.erase(0, 1); if (a.empty()) continue; o += (i ? ", " : "") + g(a); } return o + "]"; }; }
static Leaf list(std::function<string(const vector<string>&)> g) { return [=](const string& v) { if (v[0] != '[') return v; vector<string> l; for (auto a : split(v.substr(1, v.size() - 2), ',')) { while (!a.empty() && a[0] == ' ') a.erase(0, 1); if (!a.empty()) l.push_back(a); } return l.empty() ? v : g(l); }; }
static string bare(const string& a) { return a.size() > 1 && a[0] == '\'' ? a.substr(1, a.size() - 2) : a; }
static bool isint(const string& a) { return a.find_first_not_of("0123456789") == string::npos; }
static vector<std::pair<string, Leaf>> spellings() {
  vector<std::pair<string, Leaf>> r; string pad = "              ";
  r.push_back({"block sequence", list([=](const vector<string>& l) { string o; for (auto& a : l) o += "\n" + pad + "- " + a; return o; })});
  r.push_back({"sequence over several lines with comments", list([=](const vector<string>& l) { string o = "["; for (size_t i = 0; i < l.size(); i++) o += l[i] + (i + 1 < l.size() ? "," : "") + "   # entry " + std::to_string(i) + "\n" + pad; return o + "]"; })});
  r.push_back({"sequence without blanks", list([](const vector<string>& l) { string o = "["; for (size_t i = 0; i < l.size(); i++) o += (i ? "," : "") + l[i]; return o + "]"; })});
  r.push_back({"trailing comma", list([](const vector<string>& l) { string o = "["; for (auto& a : l) o += a + ", "; return o + "]"; })});
  r.push_back({"double quotes", each([](const string& a) { return "\"" + bare(a) + "\""; })});
  r.push_back({"single quotes", each([](const string& a) { return "'" + bare(a) + "'"; })});
  r.push_back({"plain", each([](const string& a) { return bare(a); })});
  r.push_back({"plus sign", each([](const string& a) { return isnum(a) && !isint(a) && a[0] != '-' ? "+" + a : a; })});
  r.push_back({"exponent", each([](const string& a) { if (!isnum(a) || isint(a)) return a; char b[64]; snprintf(b, sizeof b, "%.17E", strtod(a.c_str(), nullptr)); return string(b); })});
  r.push_back({"decimals", each([](const string& a) { if (!isnum(a) || isint(a)) return a; char b[400]; snprintf(b, sizeof b, "%.25f", strtod(a.c_str(), nullptr)); return strtod(b, nullptr) == strtod(a.c_str(), nullptr) ? string(b) : a; })});
  r.push_back({"scientific shift", each([](const string& a) { if (!isnum(a) || isint(a)) return a; char b[400]; snprintf(b, sizeof b, "%.0fe0", strtod(a.c_str(), nullptr)); return strtod(b, nullptr) == strtod(a.c_str(), nullptr) ? string(b) : a; })});
  r.push_back({"leading zero left out", each([](const string& a) { if (!isnum(a) || isint(a)) return a; if (a.substr(0, 2) == "0.") return a.substr(1); if (a.substr(0, 3) == "-0.") return "-" + a.substr(2); return a; })});
  r.push_back({"comment", [](const string& a) { return a + "   # a: [comment], 'x' {"; }});
  r.push_back({"tag", [](const string& a) { return isnum(a) && !isint(a) ? "!!float " + a : a[0] == '[' ? "!!seq " + a : a; }});
  for (string b : {"True", "TRUE", "yes", "on", "y"}) r.push_back({"truth value " + b, [=](const string& a) { return a == "true" ? b : a; }});
  return r;
}
static vector<std::pair<string, string>> layouts(const string& y) {
  vector<std::pair<string, string>> r; auto lines = [&](std::function<string(const string&)> f) { std::stringstream ss(y); string l, o; while (std::getline(ss, l)) o += f(l); return o; };
  r.push_back({"wider indentation", lines([](const string& l) { size_t i = l.find_first_not_of(' '); return string(2 * i, ' ') + l + "\n"; })});
  r.push_back({"narrower indentation", lines([](const string& l) { size_t i = l.find_first_not_of(' '); return l.substr(i / 2) + "\n"; })});
  r.push_back({"blank lines and comments", lines([](const string& l) { return l + "\n\n  # " + l + "\n"; })});
  r.push_back({"carriage returns", lines([](const string& l) { return l + "\r\n"; })});
  r.push_back({"document markers", "---\n" + y + "...\n"}); r.push_back({"version directive", "%YAML 1.2\n---\n" + y}); r.push_back({"byte order mark", "\xEF\xBB\xBF" + y}); r.push_back({"no final newline", y.substr(0, y.size() - 1)}); r.push_back({"trailing blanks", lines([](const string& l) { return l + "   \n"; })});
  r.push_back({"quoted keys", lines([](const string& l) { size_t i = l.find_first_not_of(' '), c = l.find(':'); return l.substr(0, i) + "\"" + l.substr(i, c - i) + "\"" + l.substr(c) + "\n"; })});
  std::function<string(const Doc&)> flow = [&](const Doc& d) { if (d.kids.empty()) return d.val.empty() ? string("{}") : d.val; string o = "{"; for (size_t i = 0; i < d.kids.size(); i++) o += (i ? ", " : "") + d.kids[i].key + ": " + flow(d.kids[i]); return o + "}"; };
  Doc d = parse(y); r.push_back({"one flow mapping", flow(d) + "\n"}); { string o; for (auto& k : d.kids) o += k.key + ": " + flow(k) + "\n"; r.push_back({"sections as flow mappings", o}); }
  { string o, h = "constants:\n"; std::stringstream ss(y); string l; int k = 0; while (std::getline(ss, l)) { size_t c = l.find(": "); if (c != string::npos && c + 2 < l.size()) { string a = "K" + std::to_string(k++); h += "  - &" + a + " " + l.substr(c + 2) + "\n"; l = l.substr(0, c + 2) + "*" + a; } o += l + "\n"; } r.push_back({"every value an alias", h + o}); }
  { string o; std::stringstream ss(y); string l; int k = 0; while (std::getline(ss, l)) { size_t c = l.find(':'); o += l.substr(0, c + 1) + " &A" + std::to_string(k++) + l.substr(c + 1) + "\n"; } r.push_back({"every node with an anchor", o}); }
  return r;
}

static vector<Case> make(bool th) {
  vector<Case> cs;
  struct St { vector<string> t; int Dl, K, D, Dm; bool e; };
  vector<St> sts = {{{"R"}, 1, 0, 0, 0, false}, {{"P_SEA"}, 2, 1, 2, 1, true}, {{"R", "P_SEA"}, 1, 2, 1, 1, true}, {{"P", "R"}, 2, 0, 0, 0, false}};
  // ---- omissions: every subset of optional parts (quick: up to three omitted, and all), masks mixed elsewhere
  struct Opt { string name, path; std::function<void(Cfg&)> dflt; };
  for (auto& t : sts) for (int mode : {1, 2}) {
    Cfg c = generic(t.t, 1, t.Dl, t.e, t.K, t.D, t.Dm); if (mode == 1) mask_all(c, 1); else mask_alt(c, 1);
    auto zero = [](const string& p, int a, int k) { return [=](Cfg& g) { for (int i = 0; i < k; i++) g.mask[p][a + i] = 0; }; };
    vector<Opt> o;
    o.push_back({"gravity", "gravity", [](Cfg& g) { g.val["par_gravity"] = {0, 0, 0}; g.mask["par_gravity"] = {0, 0, 0}; }});
    o.push_back({"gravity symb", "gravity/symb", zero("par_gravity", 0, 3)});
    o.push_back({"kinematics symb", "kinematics/symb", zero("par_DHtable", 0, 4 * c.n())});
    o.push_back({"base symb", "Base_to_L0/symb", zero("par_world2L0", 0, 6)});
    o.push_back({"ee symb", "Ln_to_EE/symb", zero("par_Ln2EE", 0, 6)});
    for (int i = 0; i < c.n(); i++) {
      string l = "dynamics/link" + std::to_string(i + 1); int D = c.Dl_order;
      o.push_back({l + " inertial symb", l + "/inertial/symb", zero("par_DYN", 10 * i, 10)});
      o.push_back({l + " friction symb", l + "/friction/symb", zero("par_Dl", D * i, D)});
      o.push_back({l + " friction", l + "/friction", [=](Cfg& g) { for (int k = 0; k < D; k++) { g.mask["par_Dl"][D * i + k] = 0; g.val["par_Dl"][D * i + k] = 0; } }});
    }
    o.push_back({"Dl_order", "Dl_order", [](Cfg& g) { g.Dl_order = 0; g.val["par_Dl"].clear(); g.mask["par_Dl"].clear(); }});
    if (c.elastic) {
      int e = 0; for (int i = 0; i < c.n(); i++) if (c.isE(i)) { string j = "elastic/joints/joint" + std::to_string(i + 1);
        o.push_back({"K symb", j + "/K_symb", zero("par_K", c.K_order * e, c.K_order)}); o.push_back({"D symb", j + "/D_symb", zero("par_D", c.D_order * e, c.D_order)}); o.push_back({"Dm symb", j + "/Dm_symb", zero("par_Dm", c.Dm_order * e, c.Dm_order)}); o.push_back({"Mm symb", j + "/Mm_symb", zero("par_Mm", e, 1)}); e++; }
      auto rigid = [](Cfg& g) { g.elastic = false; g.K_order = g.D_order = g.Dm_order = 0; for (auto& p : {"par_K", "par_D", "par_Dm", "par_Mm"}) { g.val[p].clear(); g.mask[p].clear(); } };
      o.push_back({"ELASTIC_MODEL", "ELASTIC_MODEL", rigid});
      o.push_back({"elastic sections", "*", rigid});
    }
    vector<uint32_t> subsets; int m = (int)o.size();
    for (int i = 0; i < m; i++) { subsets.push_back(1u << i); for (int j = i + 1; j < m; j++) { subsets.push_back(1u << i | 1u << j); if (c.n() == 1 || th) for (int k = j + 1; k < m; k++) subsets.push_back(1u << i | 1u << j | 1u << k); } }
    if (c.n() == 1 && th) { subsets.clear(); for (uint32_t s = 1; s < (1u << m); s++) subsets.push_back(s); }
    subsets.push_back((1u << m) - 1);
    size_t chunk = 16;
    for (size_t b = 0; b < subsets.size(); b += chunk) cs.push_back({"types " + c.typestr() + (c.elastic ? " elastic" : "") + " mask mode " + std::to_string(mode) + ", omitted parts, block " + std::to_string(b / chunk), [=](Ctx& x) {
      for (size_t k = b; k < std::min(subsets.size(), b + chunk) && x.nviol <= Ctx::MAXV; k++) {
        Doc d = parse(yaml(c)); Cfg g = c; string nm;
        for (int i = 0; i < m; i++) if (subsets[k] >> i & 1) { nm += (nm.empty() ? "" : " + ") + o[i].name;
          if (o[i].path == "*") { drop(d, "ELASTIC_MODEL"); drop(d, "elastic"); } else if (at(d, o[i].path)) drop(d, o[i].path); }
        for (int i = 0; i < m; i++) if ((subsets[k] >> i & 1) && o[i].name != "Dl_order" && o[i].name != "ELASTIC_MODEL" && o[i].path != "*") o[i].dflt(g);
        for (int i = 0; i < m; i++) if ((subsets[k] >> i & 1) && (o[i].name == "Dl_order" || o[i].name == "ELASTIC_MODEL" || o[i].path == "*")) o[i].dflt(g);
        string y = text(d); try { Model a = build(x, g, y), w = build(x, g, yaml(g)); equal_robots(x, a, w, "omitted: " + nm, y); } catch (const std::exception& e) { x.violation("omitted: " + nm, string("refused: ") + e.what() + "\n" + y); }
      } }});
  }
  // ---- order, names, aliases
  for (auto& t : vector<St>{{{"R", "P_SEA"}, 1, 1, 1, 1, true}, {{"P_SEA"}, 2, 2, 1, 2, true}, {{"P", "R"}, 1, 0, 0, 0, false}}) {
    Cfg c = generic(t.t, 3, t.Dl, t.e, t.K, t.D, t.Dm); mask_alt(c, 1); Doc d0 = parse(yaml(c));
    auto vars = std::make_shared<vector<std::pair<string, string>>>(); auto put = [&](const string& n, const Doc& d) { vars->push_back({n, text(d)}); };
    int m = (int)d0.kids.size();
    // every ordering of the sections obtained by moving two of them anywhere, all rotations, reversal
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) if (i != j) { Doc d = d0; Doc x = d.kids[i]; d.kids.erase(d.kids.begin() + i); d.kids.insert(d.kids.begin() + j, x); put("section " + x.key + " at position " + std::to_string(j), d); }
    for (int i = 0; i < m; i++) for (int j = i + 1; j < m; j++) { Doc d = d0; std::swap(d.kids[i], d.kids[j]); put("sections " + d0.kids[i].key + " and " + d0.kids[j].key + " exchanged", d); }
    for (int r = 1; r < m; r++) { Doc d = d0; std::rotate(d.kids.begin(), d.kids.begin() + r, d.kids.end()); put("sections rotated by " + std::to_string(r), d); std::reverse(d.kids.begin(), d.kids.end()); put("sections rotated and reversed", d); }
    // all permutations of the keys of small sections, exchanges and rotations of bigger ones
    vector<string> secs = {"kinematics", "gravity", "Base_to_L0", "Ln_to_EE"};
    for (int i = 0; i < c.n(); i++) { string l = "dynamics/link" + std::to_string(i + 1); secs.push_back(l); secs.push_back(l + "/inertial"); if (c.Dl_order) secs.push_back(l + "/friction"); }
    if (c.elastic) { secs.push_back("elastic"); for (int i = 0; i < c.n(); i++) if (c.isE(i)) secs.push_back("elastic/joints/joint" + std::to_string(i + 1)); }
    for (auto& s : secs) { Doc d = d0; Doc* p = at(d, s); if (!p) continue; int n = (int)p->kids.size(); auto orig = p->kids;
      if (n <= 4) { vector<int> ix; for (int i = 0; i < n; i++) ix.push_back(i); while (std::next_permutation(ix.begin(), ix.end())) { for (int i = 0; i < n; i++) p->kids[i] = orig[ix[i]]; put("keys of " + s + " permuted", d); } }
      else { for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { p->kids = orig; std::swap(p->kids[i], p->kids[j]); put("keys of " + s + " exchanged", d); } for (int r = 1; r < n; r++) { p->kids = orig; std::rotate(p->kids.begin(), p->kids.begin() + r, p->kids.end()); put("keys of " + s + " rotated", d); } } }
    // names (alphabetical order opposite to, or unrelated to, the positions)
    for (auto nm : vector<vector<string>>{{"zeta", "alpha", "mid"}, {"link2", "link1", "link3"}, {"a", "B", "c"}, {"link10", "link9", "link8"}, {"inertial", "friction", "symb"}}) for (int which : {1, 2, 3}) { Doc d = d0; if (which & 1) for (size_t i = 0; i < at(d, "dynamics")->kids.size(); i++) at(d, "dynamics")->kids[i].key = nm[i]; if ((which & 2) && c.elastic) for (size_t i = 0; i < at(d, "elastic/joints")->kids.size(); i++) at(d, "elastic/joints")->kids[i].key = nm[i]; put("links/joints renamed", d); }
    // aliases, comments, unknown extra sections
    { Doc d = d0; string y = "MYC: &MYC " + num(c.val.at("par_DYN")[0]) + "\nversion: 0.3\n" + text(d); size_t k = y.find("mass: "); size_t e = y.find('\n', k); y.replace(k, e - k, "mass: *MYC   # a comment"); vars->push_back({"alias, comment and extra sections", y}); }
    size_t chunk = 24;
    for (size_t b = 0; b < vars->size(); b += chunk) cs.push_back({"types " + c.typestr() + ", order and names, block " + std::to_string(b / chunk), [=](Ctx& x) { Model w = build(x, c, yaml(c)); for (size_t k = b; k < std::min(vars->size(), b + chunk) && x.nviol <= Ctx::MAXV; k++) { Model a = build(x, c, (*vars)[k].second); equal_robots(x, a, w, (*vars)[k].first, (*vars)[k].second); } }});
    if (th || t.t.size() == 1) {  // every permutation of the sections (th: one joint, 10 sections would be 3.6M; the first 6/8 are permuted)
      int q = th ? 7 : 5; auto perms = std::make_shared<vector<vector<int>>>(); vector<int> ix; for (int i = 0; i < q; i++) ix.push_back(i); do perms->push_back(ix); while (std::next_permutation(ix.begin(), ix.end()));
      for (int off : {0, m - q}) for (size_t b = 0; b < perms->size(); b += 40) cs.push_back({"types " + c.typestr() + ", all orders of " + std::to_string(q) + " sections from " + std::to_string(off) + ", block " + std::to_string(b / 40), [=](Ctx& x) { Model w = build(x, c, yaml(c)); for (size_t k = b; k < std::min(perms->size(), b + 40) && x.nviol <= Ctx::MAXV; k++) { Doc d = d0; for (int i = 0; i < q; i++) d.kids[off + i] = d0.kids[off + (*perms)[k][i]]; string y = text(d); Model a = build(x, c, y); equal_robots(x, a, w, "sections permuted", y); } }});
    }
  }
  // ---- spellings: the same document written in other ways YAML allows
  for (auto& t : vector<St>{{{"R", "P_SEA"}, 1, 2, 1, 1, true}, {{"P"}, 2, 0, 0, 0, false}, {{"R_SEA", "P", "R_SEA"}, 1, 1, 0, 2, true}}) for (int whole : {0, 1}) {
    Cfg c = generic(t.t, 4, t.Dl, t.e, t.K, t.D, t.Dm); mask_alt(c, 0); if (whole) for (auto& p : PARS) for (auto& v : c.val[p]) v = std::round(v * 8) / (p == "par_DYN" || whole == 0 ? 8 : 1) + (p == "par_DYN" ? 1 : 0);
    Doc d0 = parse(yaml(c)); vector<string> places = {""}; std::function<void(const Doc&, const string&)> rec = [&](const Doc& d, const string& p) { for (auto& k : d.kids) { string q = p.empty() ? k.key : p + "/" + k.key; if (k.kids.empty() || th) places.push_back(q); if (!k.kids.empty()) { if (!th) places.push_back(q); rec(k, q); } } }; rec(d0, "");
    auto vars = std::make_shared<vector<std::pair<string, string>>>();
    for (auto& sp : spellings()) for (auto& pl : places) { Doc d = d0; Doc* p = pl.empty() ? &d : at(d, pl); string before = text(d); spell(*p, sp.second); string y = text(d); if (y != before) vars->push_back({sp.first + " at /" + pl, y}); }
    for (auto& w : layouts(text(d0))) vars->push_back(w);
    size_t chunk = 24;
    for (size_t b = 0; b < vars->size(); b += chunk) cs.push_back({"types " + c.typestr() + (whole ? ", round values" : "") + ", spellings, block " + std::to_string(b / chunk), [=](Ctx& x) { Model w = build(x, c, yaml(c)); for (size_t k = b; k < std::min(vars->size(), b + chunk) && x.nviol <= Ctx::MAXV; k++) try { Model a = build(x, c, (*vars)[k].second); equal_robots(x, a, w, "spelling: " + (*vars)[k].first, (*vars)[k].second); } catch (const std::exception& e) { x.violation("spelling: " + (*vars)[k].first, string("refused: ") + e.what() + "\n" + (*vars)[k].second); } }});
  }
  // ---- the robots shipped with the repository mean what an independent reader takes from them
  for (auto& s : shipped(th ? 9 : 8)) cs.push_back({"shipped robot " + s.file.substr(s.file.find("robots")), [=](Ctx& x) { string y = slurp(s.file); Model a = build(x, s.cfg, y), w = build(x, s.cfg, yaml(s.cfg)); equal_robots(x, a, w, "shipped robot", y); }});
  // ---- refusal
  const vector<string> badt = {"X", "r", "p", "", "RR", "R_", "R_sea", "SEA", "PR", "R SEA", "R_SEA_", "Rotational", "0"};
  for (int n = 1; n <= 3; n++) for (auto& base : vector<vector<string>>{{"R", "R", "R"}, {"P", "R_SEA", "R"}, {"P_SEA", "P", "P"}}) cs.push_back({"unknown joint type among " + std::to_string(n) + " joints, first " + base[0], [=](Ctx& x) {
    vector<string> t(base.begin(), base.begin() + n); for (int i = 0; i < n; i++) for (auto& b : badt) { Cfg c = generic(t, 1, 1, true, 1, 1, 1); string y = yaml(c); string from = "type_joints: ["; size_t k = y.find(from); size_t e = y.find('\n', k); auto u = t; u[i] = b; string l = "type_joints: ["; for (int q = 0; q < n; q++) l += (q ? ", '" : "'") + u[q] + "'"; y.replace(k, e - k, l + "]"); refused(x, y, "unknown joint type '" + b + "' at joint " + std::to_string(i + 1)); } }});
  for (int n = 1; n <= 4; n++) cs.push_back({"joint list of wrong length, " + std::to_string(n) + " joints", [=](Ctx& x) {
    for (auto& al : vector<vector<string>>{{"R"}, {"P", "R"}, {"R_SEA", "P_SEA"}}) for (int len = 0; len <= n + 3; len++) if (len != n) for (bool ela : {false, true}) { vector<string> t; for (int i = 0; i < n; i++) t.push_back(al[i % al.size()]); Cfg c = generic(t, 1, 1, ela, 1, 1, 1); string y = yaml(c); size_t k = y.find("type_joints: ["), e = y.find('\n', k); string l = "type_joints: ["; for (int q = 0; q < len; q++) l += (q ? ", '" : "'") + al[q % al.size()] + "'"; y.replace(k, e - k, l + "]"); refused(x, y, "joint list of length " + std::to_string(len) + " for " + std::to_string(n) + " joints"); } }});
  return cs;
}
int main(int argc, char** argv) { plain_names() = true; return run(argc, argv, make); }
