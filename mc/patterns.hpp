#pragma once
#include "common.hpp"
namespace mc {
// special relations inside and between vector parameters, the rest generic: every pattern of zero
// entries, every pair of equal or opposite entries, and pairs of zero patterns of neighbouring
// parameters. Each with everything frozen, and with only the special entries frozen.
typedef vector<std::pair<string, int>> Entries;
inline vector<Cfg> patterns(const Cfg& base, const vector<string>& groups, bool th, bool crosses = true) {
  vector<Cfg> out; int n = base.n();
  auto put = [&](Cfg g, const Entries& e, bool both) { mask_all(g, 0); out.push_back(g); if (both) { mask_all(g, 1); for (auto& x : e) g.mask[x.first][x.second] = 0; out.push_back(g); } };
  auto ents = [](const string& p, vector<int> i) { Entries e; for (int k : i) e.push_back({p, k}); return e; };
  auto zero = [&](const Cfg& c, const Entries& e, int m, Entries* z = nullptr) { Cfg g = c; for (size_t k = 0; k < e.size(); k++) if (m >> k & 1) { g.val[e[k].first][e[k].second] = 0; if (z) z->push_back(e[k]); } return g; };
  auto has = [&](const string& p) { return std::count(groups.begin(), groups.end(), p) > 0 && base.size(p) > 0; };
  vector<Entries> units, kinds;  // units: zero patterns; kinds: pairs of comparable entries
  for (auto p : {"par_world2L0", "par_Ln2EE"}) if (has(p)) { units.push_back(ents(p, {0, 1, 2, 3, 4, 5})); kinds.push_back(ents(p, {0, 1, 2})); kinds.push_back(ents(p, {3, 4, 5})); }
  if (has("par_DHtable")) { Entries len, ang; for (int i = 0; i < n; i++) { units.push_back(ents("par_DHtable", {4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3})); for (int k = 0; k < 4; k++) (k % 2 ? ang : len).push_back({"par_DHtable", 4 * i + k}); } kinds.push_back(len); kinds.push_back(ang); }
  if (has("par_gravity")) { units.push_back(ents("par_gravity", {0, 1, 2})); kinds.push_back(units.back()); }
  if (has("par_DYN")) {
    for (int i = 0; i < n; i++) { int o = 10 * i; units.push_back(ents("par_DYN", {o + 1, o + 2, o + 3, o + 5, o + 6, o + 8})); kinds.push_back(ents("par_DYN", {o + 1, o + 2, o + 3})); kinds.push_back(ents("par_DYN", {o + 4, o + 5, o + 6, o + 7, o + 8, o + 9})); }
    for (int k = 0; k < 10; k++) { Entries e; for (int i = 0; i < n; i++) e.push_back({"par_DYN", 10 * i + k}); kinds.push_back(e); }
  }
  for (auto p : {"par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"}) if (has(p)) { Entries e; for (int i = 0; i < base.size(p) && i < 6; i++) e.push_back({p, i}); units.push_back(e); kinds.push_back(e); }
  for (auto& u : units) for (int m = 1; m < (1 << u.size()); m++) { Entries z; Cfg g = zero(base, u, m, &z); put(g, z, th || n < 3); }
  for (auto& k : kinds) for (size_t i = 0; i < k.size(); i++) for (size_t j = i + 1; j < k.size(); j++) for (int s : {1, -1}) { Cfg g = base; g.val[k[j].first][k[j].second] = s * g.val[k[i].first][k[i].second]; put(g, {k[i], k[j]}, th || n < 3); }
  auto cross = [&](const Entries& a, const Entries& b) { for (int x = 1; x < (1 << a.size()); x++) for (int y = 1; y < (1 << b.size()); y++) { Entries z; Cfg g = zero(zero(base, a, x, &z), b, y, &z); put(g, z, th); } };
  if (crosses && (th || n == 2)) {
    auto row = [&](int i) { return ents("par_DHtable", {4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3}); };
    if (has("par_Ln2EE")) for (int h : {0, 3}) cross(ents("par_Ln2EE", {h, h + 1, h + 2}), row(n - 1));
    if (has("par_world2L0") && has("par_gravity")) cross(ents("par_world2L0", {3, 4, 5}), ents("par_gravity", {0, 1, 2}));
    if (has("par_world2L0") && has("par_DHtable")) cross(ents("par_world2L0", {3, 4, 5}), row(0));
    if (has("par_DYN") && has("par_DHtable")) cross(ents("par_DYN", {10 * (n - 1) + 1, 10 * (n - 1) + 2, 10 * (n - 1) + 3}), row(n - 1));
    if (has("par_DHtable") && n > 1) cross(row(0), row(1));
  }
  // blocks equal to each other (rows of the table, links or their masses or their tensors, springs and dampers of two joints,
  // base and tool), also together with zero patterns of the second row
  typedef std::pair<Entries, Entries> Pair; vector<Pair> blocks;
  auto range = [](const string& p, int from, int len) { Entries e; for (int k = 0; k < len; k++) e.push_back({p, from + k}); return e; };
  auto two = [&](const string& p, int stride, int from, int len, int i, int j) { if (has(p) && stride > 0 && j * stride + from + len <= base.size(p)) blocks.push_back({range(p, i * stride + from, len), range(p, j * stride + from, len)}); };
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
    two("par_DHtable", 4, 0, 4, i, j); two("par_DYN", 10, 0, 10, i, j); two("par_DYN", 10, 0, 4, i, j); two("par_DYN", 10, 4, 6, i, j); two("par_Dl", base.Dl_order, 0, base.Dl_order, i, j);
    two("par_K", base.K_order, 0, base.K_order, i, j); two("par_D", base.D_order, 0, base.D_order, i, j); two("par_Dm", base.Dm_order, 0, base.Dm_order, i, j);
  }
  if (has("par_world2L0") && has("par_Ln2EE")) for (int h : {0, 3}) blocks.push_back({range("par_world2L0", h, 3), range("par_Ln2EE", h, 3)});
  for (auto& b : blocks) {
    Cfg g = base; for (size_t k = 0; k < b.first.size(); k++) g.val[b.second[k].first][b.second[k].second] = g.val[b.first[k].first][b.first[k].second];
    Entries both = b.first; both.insert(both.end(), b.second.begin(), b.second.end()); put(g, both, th || n < 3);
    if (b.first[0].first == "par_DYN" && has("par_DHtable") && n > 1 && (th || n == 2 || b.second[0].second / 10 == n - 1)) for (int x = 1; x < 16; x++) put(zero(g, range("par_DHtable", 4 * (n - 1), 4), x), both, false);
    if (b.first[0].first == "par_DHtable") for (int x = 1; x < 15; x++) put(zero(zero(g, b.first, x), b.second, x), both, false);
  }
  return out;
}

// numbers code likes to round, or to treat as another one
inline const Vec& special_numbers() {
  static const double PI = 3.14159265358979323846; static const Vec v = {0.0, 1.0, -1.0, 1e-5, -3e-9, PI / 2, -PI / 2, PI, -PI, 2 * PI, PI / 4, 1.57, -1.57, 1.571, 1.5708, -1.5708, 1.5707, -1.57079, 3.14, 3.1416, -3.14159, 0.785, 6.28, 1e-3, -1e-4, 0.9999, 1.00001, 0.999999999, 30.0, 9.81, -25.0};
  return v;
}
}  // namespace mc
