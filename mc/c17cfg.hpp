#pragma once
#include "genload.hpp"
namespace mc {
static const vector<string> C17 = {"ta", "tb", "tc"};
inline vector<GenSpec> c17_specs(bool) {
  vector<GenSpec> l; auto add = [&](const string& n, Cfg c) { GenSpec g; g.name = n; g.cfg = c; l.push_back(g); };
  { Cfg c = generic({"R_SEA"}, 51, 1, true, 1, 1, 1); mask_all(c, 1); add("ta", c); }
  { Cfg c = generic({"P"}, 52); add("tb", c); }
  { Cfg c = generic({"R", "P_SEA"}, 53, 2, true, 1, 1, 1); mask_alt(c, 1); add("tc", c); }
  return l;
}
}  // namespace mc
