// Random linear diagrams of vector spaces with their interval decomposition.
#pragma once
#include "common.hpp"
inline int small_entry() { static const int e[] = {1, 1, -1, 2}; return e[sim::pick(4)]; }
inline M random_matrix(size_t r, size_t c, int num, int den) { M A(r, c); for (auto& x : A.a) if (sim::chance(num, den)) x = mk(small_entry()); return A; }
// a product of elementary operations, with its inverse
inline void random_gl(size_t n, int ops, M& G, M& Gi) {
  G = ident(n); Gi = ident(n); if (n < 2) { if (n && PP() && sim::chance(1, 2)) { S u = mk(1 + (int) sim::pick(PP() - 1)); G(0, 0) = u; Gi(0, 0) = inv(u); } return; }
  for (int t = 0; t < ops; t++) {
    size_t i = sim::pick(n), j = sim::pick(n - 1); if (j >= i) j++;
    M E = ident(n), Ei = ident(n); if (sim::chance(1, 3)) { E(i, i) = E(j, j) = S{}; E(i, j) = E(j, i) = mk(1); Ei = E; } else { S v = mk(PP() ? 1 + (int) sim::pick(PP() - 1) : sim::chance(1, 2) ? 1 : -1); E(i, j) = v; Ei(i, j) = neg(v); }
    G = E * G; Gi = Gi * Ei;
  }
}
// direct sum of random intervals in random bases: the decomposition is known
inline Zig interval_module(size_t n, int nbars, int ops, Bars& want, int dirs) {
  Zig z; std::vector<std::vector<int>> at(n); std::vector<std::pair<size_t, size_t>> b;
  for (int i = 0; i < nbars; i++) { size_t s = sim::pick(n), t = sim::pick(n); if (s > t) std::swap(s, t); if (sim::chance(1, 6)) { s = 0; t = n - 1; } b.push_back({s, t}); want[{s, t}]++; for (size_t k = s; k <= t; k++) at[k].push_back(i); }
  std::vector<M> G, Gi; for (size_t k = 0; k < n; k++) { z.dim.push_back(at[k].size()); M g, gi; random_gl(at[k].size(), ops, g, gi); G.push_back(g); Gi.push_back(gi); }
  for (size_t k = 0; k + 1 < n; k++) {
    bool fwd = dirs == 0 ? true : dirs == 1 ? false : dirs == 2 ? k % 2 == 0 : sim::chance(1, 2); size_t s = fwd ? k : k + 1, t = fwd ? k + 1 : k;
    M D(at[t].size(), at[s].size()); for (size_t p = 0; p < at[t].size(); p++) for (size_t q = 0; q < at[s].size(); q++) if (at[t][p] == at[s][q]) D(p, q) = mk(1);
    z.f.push_back(G[t] * D * Gi[s]); z.fwd.push_back(fwd);
  }
  return z;
}
inline Zig random_module(size_t n, int maxd, int dirs) {
  Zig z; int den = rnd(2, 5); for (size_t k = 0; k < n; k++) z.dim.push_back(rnd(0, maxd));
  for (size_t k = 0; k + 1 < n; k++) { bool fwd = dirs == 0 ? true : dirs == 1 ? false : dirs == 2 ? k % 2 == 0 : sim::chance(1, 2); z.f.push_back(random_matrix(z.dim[fwd ? k + 1 : k], z.dim[fwd ? k : k + 1], 1, den)); z.fwd.push_back(fwd); }
  return z;
}
template <class F, class NT> bats::Diagram<NT, MT<F>> zig_diagram(const Zig& z) {
  sim::Off o; bats::Diagram<NT, MT<F>> D(z.dim.size(), z.f.size());
  for (size_t k = 0; k < z.f.size(); k++) D.set_edge(k, z.fwd[k] ? k : k + 1, z.fwd[k] ? k + 1 : k, sparse<F>(z.f[k]));
  return D;
}
inline void describe(const Zig& z) { for (size_t k = 0; k < z.f.size(); k++) sim_desc("%zu%s%zu %s | ", k, z.fwd[k] ? ">" : "<", k + 1, show(z.f[k]).c_str()); }
// reported pairs of one dimension against the reference; indices must be distinct basis positions
template <class Pairs> void check_bars(const Pairs& ps, const Zig& z, const Bars& want, size_t hdim, const char* what) {
  sim::Off o; Bars got; std::map<std::pair<size_t, size_t>, int> seen;
  for (auto& p : ps) {
    need(p.dim == hdim, "wrong-dimension", "%s: a bar has dimension %zu, expected %zu", what, (size_t) p.dim, hdim);
    need(p.birth < z.dim.size() && p.death < z.dim.size(), "wrong-barcode", "%s: bar [%zu,%zu] outside the diagram", what, (size_t) p.birth, (size_t) p.death); got[{p.birth, p.death}]++;
    need(p.birth_ind < z.dim[p.birth] && p.death_ind < z.dim[p.death], "wrong-index", "%s: bar [%zu,%zu] has indices %zu,%zu outside dimensions %zu,%zu", what, (size_t) p.birth, (size_t) p.death, p.birth_ind, p.death_ind, z.dim[p.birth], z.dim[p.death]);
    bool fresh = !seen[{p.birth, p.birth_ind * 2}]++; need(fresh, "wrong-index", "%s: two bars start at node %zu index %zu", what, (size_t) p.birth, p.birth_ind);
    bool fresh_ = !seen[{p.death, p.death_ind * 2 + 1}]++; need(fresh_, "wrong-index", "%s: two bars end at node %zu index %zu", what, (size_t) p.death, p.death_ind);
  }
  need(got == want, "wrong-barcode", "%s: barcode %s expected %s", what, show(got).c_str(), show(want).c_str());
}
