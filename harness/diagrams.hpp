// Random diagrams of covers / point subsets, with reference complexes and maps.
#pragma once
#include "common.hpp"
typedef bats::Diagram<bats::Cover, std::vector<size_t>> CoverDiag;
typedef bats::Diagram<std::set<size_t>, std::vector<size_t>> SetDiag;
typedef bats::Diagram<bats::SimplicialComplex, bats::CellularMap> CpxDiag;
struct RefDiag {           // reference: complexes as sets, vertex maps
  std::vector<SpxSet> X; std::vector<std::array<size_t, 2>> e; std::vector<std::vector<size_t>> f0;
};
inline SpxSet nerve_ref(const bats::Cover& c, size_t dmax) {
  SpxSet X; std::vector<std::pair<Spx, std::set<size_t>>> cur;
  for (size_t i = 0; i < c.size(); i++) { X.insert({i}); cur.push_back({{i}, c[i]}); }
  for (size_t d = 1; d <= dmax; d++) { std::vector<std::pair<Spx, std::set<size_t>>> nx; for (auto& s : cur) for (size_t v = s.first.back() + 1; v < c.size(); v++) { std::set<size_t> in; for (auto x : s.second) if (c[v].count(x)) in.insert(x); if (!in.empty()) { Spx t = s.first; t.push_back(v); X.insert(t); nx.push_back({t, in}); } } cur.swap(nx); }
  return X;
}
inline bool is_simplicial(const SpxSet& X, const SpxSet& Y, const std::vector<size_t>& f) { for (auto& s : X) { Spx t; for (auto v : s) t.push_back(f[v]); std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end()); if (!Y.count(t)) return false; } return true; }
inline M map_ref(const std::vector<Spx>& X, const std::vector<Spx>& Y, const std::vector<size_t>& f) {
  std::map<Spx, size_t> ix; for (size_t i = 0; i < Y.size(); i++) ix[Y[i]] = i;
  M A(Y.size(), X.size());
  for (size_t j = 0; j < X.size(); j++) { Spx t; for (auto v : X[j]) t.push_back(f[v]); int sg = sort_sign(t); if (!sg) continue; auto it = ix.find(t); if (it == ix.end()) sim_fail("harness", "map_ref: image missing"); A(it->second, j) = mk(sg); }
  return A;
}
inline std::string show(const std::set<size_t>& s) { std::string r = "{"; for (auto x : s) r += (r.size() > 1 ? "," : "") + std::to_string(x); return r + "}"; }
inline std::string show(const std::vector<size_t>& s, int) { std::string r = "<"; for (auto x : s) r += (r.size() > 1 ? "," : "") + std::to_string(x); return r + ">"; }
// covers; edges send each set into a set that contains it
inline CoverDiag gen_covers(int maxnode, int maxedge, int maxsets, int npts, size_t dmax, RefDiag& ref, bool linear = false) {
  CoverDiag D; int n = many(1, zm(maxnode)); if (WIDE()) { maxsets = std::min(maxsets, 3); maxedge = n + 4; }
  for (int i = 0; i < n; i++) {
    bats::Cover c; int kind = i ? (int) sim::pick(3) : 0;
    if (kind == 0 && !WIDE() && npts > 2 && sim::chance(1, 5)) { int k = std::min(npts, rnd(3, maxsets)); std::set<size_t> all; for (int t = 0; t < npts; t++) all.insert(t); for (int j = 0; j < k; j++) { c.push_back(all); c.back().erase(j); } for (int t = k; t < npts; t++) for (auto& s : c) if (sim::chance(2, 3)) s.erase(t); } // nearly every point misses a set: hollow simplices
    else if (kind == 0) { int k = rnd(1, maxsets); for (int j = 0; j < k; j++) { std::set<size_t> s; s.insert(rnd(0, npts - 1)); int q = rnd(0, npts - 1); for (int t = 0; t < q; t++) s.insert(rnd(0, npts - 1)); c.push_back(s); } }
    else { const bats::Cover& b = D.node[kind == 1 ? i - 1 : rnd(0, i - 1)]; int k = rnd(1, (int) b.size()); c.resize(k); for (size_t j = 0; j < b.size(); j++) { int t = rnd(0, k - 1); c[t].insert(b[j].begin(), b[j].end()); } for (auto& s : c) { if (s.empty()) s.insert(rnd(0, npts - 1)); if (sim::chance(1, 4)) s.insert(rnd(0, npts - 1)); } }
    { size_t at = D.add_node(c); need(at == (size_t) i, "wrong-node-id", "the %dth node added has number %zu", i, at); } ref.X.push_back(nerve_ref(c, dmax));
    sim_desc("node%d:", i); for (auto& s : c) sim_desc("%s", show(s).c_str()); sim_desc(" ");
  }
  int want = rnd(0, zm(maxedge)), tries = want * 4;
  auto try_edge = [&](size_t s, size_t t) {
    std::vector<size_t> f; const bats::Cover &a = D.node[s], &b = D.node[t];
    for (auto& u : a) { std::vector<size_t> c; for (size_t j = 0; j < b.size(); j++) if (std::includes(b[j].begin(), b[j].end(), u.begin(), u.end())) c.push_back(j); if (c.empty()) return false; f.push_back(c[sim::pick(c.size())]); }
    { size_t at = D.add_edge(s, t, f); need(at == ref.e.size() && D.edge_source(at) == s && D.edge_target(at) == t, "wrong-edge-id", "edge %zu has number %zu, from %zu to %zu", ref.e.size(), at, D.edge_source(at), D.edge_target(at)); } ref.e.push_back({s, t}); ref.f0.push_back(f); sim_desc("edge %zu>%zu %s ", s, t, show(f, 0).c_str()); return true;
  };
  (void) linear;
  while (want > 0 && tries-- > 0) if (try_edge(sim::pick(n), sim::pick(n))) want--;
  return D;
}
struct Pts { std::vector<std::vector<double>> p; int dim; int metric; double dist(size_t i, size_t j) const { double s = 0; for (int k = 0; k < dim; k++) { double d = std::fabs(p[i][k] - p[j][k]); if (metric == 0) s += d * d; else if (metric == 1) s += d; else s = std::max(s, d); } return metric == 0 ? std::sqrt(s) : s; } };
inline Pts gen_points(int lo, int hi, int cap = 1 << 20) { if (lo < hi) hi = zm(hi, cap); Pts P; P.dim = rnd(1, 3); P.metric = rnd(0, 2); int n = hi > 5 && cap > 100 ? many(lo, hi) : rnd(lo, hi), span = rnd(1, 6); for (int i = 0; i < n; i++) { std::vector<double> x; for (int k = 0; k < P.dim; k++) x.push_back(rnd(0, span)); P.p.push_back(x); } return P; }
template <class T = double> bats::DataSet<T> dataset(const Pts& P) { bats::Matrix<T> X(P.p.size(), P.dim); for (size_t i = 0; i < P.p.size(); i++) for (int k = 0; k < P.dim; k++) X(i, k) = P.p[i][k]; return bats::DataSet<T>(X); }
template <class Fn> auto with_metric(int m, Fn fn) { if (m == 0) return fn(bats::Euclidean()); if (m == 1) return fn(bats::L1Dist()); return fn(bats::LInfDist()); }
// subsets of points with a radius for each node (non-decreasing along edges); maps: inclusions, or other simplicial vertex maps
inline SetDiag gen_subsets(const Pts& P, int maxnode, int maxedge, size_t dmax, std::vector<double>& r, bool one_radius, RefDiag& ref) {
  SetDiag D; int n = many(1, zm(maxnode)); if (WIDE()) maxedge = n + 4; size_t N = P.p.size(); double r0 = rnd(0, 12) * 0.5;
  std::vector<std::vector<size_t>> el;
  for (int i = 0; i < n; i++) {
    std::set<size_t> s; int kind = i ? (int) sim::pick(3) : 0;
    if (kind) { s = D.node[kind == 1 ? i - 1 : rnd(0, i - 1)]; int add = rnd(0, 3); for (int t = 0; t < add && s.size() < 12; t++) s.insert(rnd(0, (int) N - 1)); }
    else { s.insert(rnd(0, (int) N - 1)); int q = rnd(0, std::min(9, (int) N - 1)); for (int t = 0; t < q; t++) s.insert(rnd(0, (int) N - 1)); }
    { size_t at = D.add_node(s); need(at == (size_t) i, "wrong-node-id", "the %dth node added has number %zu", i, at); } double ri = one_radius ? r0 : std::max(0.0, r0 + 0.5 * (rnd(0, 4) - 1)); r.push_back(ri);
    std::vector<size_t> e(s.begin(), s.end()); el.push_back(e);
    ref.X.push_back(flag(e.size(), [&](size_t a, size_t b) { return P.dist(e[a], e[b]) <= ri; }, dmax));
    sim_desc("node%d:%s r=%g ", i, show(s).c_str(), ri);
  }
  int want = rnd(0, zm(maxedge)), tries = want * 4;
  while (want > 0 && tries-- > 0) {
    size_t s = sim::pick(n), t = sim::pick(n); if (r[t] < r[s]) continue;
    std::vector<size_t> f; int kind = sim::pick(4); bool ok = true;
    for (size_t i = 0; i < el[s].size() && ok; i++) {
      if (kind == 3) f.push_back(sim::pick(el[t].size()));
      else if (kind == 2 && i) f.push_back(f[0]);
      else { auto it = std::find(el[t].begin(), el[t].end(), el[s][i]); if (it == el[t].end()) { if (kind == 2) f.push_back(0); else ok = false; } else f.push_back(it - el[t].begin()); }
    }
    if (!ok || !is_simplicial(ref.X[s], ref.X[t], f)) continue;
    { size_t at = D.add_edge(s, t, f); need(at == ref.e.size() && D.edge_source(at) == s && D.edge_target(at) == t, "wrong-edge-id", "edge %zu has number %zu, from %zu to %zu", ref.e.size(), at, D.edge_source(at), D.edge_target(at)); } ref.e.push_back({s, t}); ref.f0.push_back(f); sim_desc("edge %zu>%zu %s ", s, t, show(f, 0).c_str()); want--;
  }
  return D;
}
// ---- checks against the reference
inline void check_cpx_diag(const CpxDiag& TD, const RefDiag& ref, const char* what) {
  sim::Off o;
  need(TD.nnode() == ref.X.size() && TD.nedge() == ref.e.size() && TD.elist.size() == ref.e.size(), "wrong-shape", "%s: %zu nodes %zu edges, expected %zu %zu", what, TD.nnode(), TD.nedge(), ref.X.size(), ref.e.size());
  for (size_t i = 0; i < ref.X.size(); i++) check_complex(TD.node[i], ref.X[i], what);
  int p = PP(); PP() = 0;
  for (size_t j = 0; j < ref.e.size(); j++) {
    size_t s = ref.e[j][0], t = ref.e[j][1];
    need(TD.edge_source(j) == s && TD.edge_target(j) == t, "wrong-edge", "%s: edge %zu goes %zu>%zu, expected %zu>%zu", what, j, TD.edge_source(j), TD.edge_target(j), s, t);
    auto X = cells_of(TD.node[s]), Y = cells_of(TD.node[t]); Y.resize(std::max(X.size(), Y.size()));
    for (size_t k = 0; k < X.size(); k++) {
      if (k > TD.edata[j].maxdim()) { need(X[k].empty(), "wrong-map", "%s: edge %zu has no map in dimension %zu", what, j, k); continue; }
      M want = map_ref(X[k], Y[k], ref.f0[j]); M got = dense<int>(TD.edata[j][k], what);
      if (got != want) sim_fail("wrong-map", "%s: edge %zu dimension %zu: map %s, expected %s", what, j, k, show(got).c_str(), show(want).c_str());
    }
  }
  PP() = p;
}
// boundary matrices and induced chain maps over the current field, in the cell order BATS used
struct RefChain { std::vector<std::vector<M>> d; std::vector<std::vector<M>> f; std::vector<std::array<size_t, 2>> e; size_t top; };
inline RefChain ref_chain(const CpxDiag& TD, const RefDiag& ref) {
  sim::Off o; RefChain r; r.e = ref.e; r.top = 0; std::vector<std::vector<std::vector<Spx>>> c;
  for (auto& X : TD.node) { c.push_back(cells_of(X)); r.top = std::max(r.top, c.back().size() - 1); }
  for (auto& x : c) { x.resize(r.top + 1); std::vector<M> d; for (size_t k = 0; k <= r.top; k++) d.push_back(k ? boundary(x[k - 1], x[k]) : M(0, x[0].size())); d.push_back(M(x[r.top].size(), 0)); r.d.push_back(d); }
  for (size_t j = 0; j < ref.e.size(); j++) { std::vector<M> f; for (size_t k = 0; k <= r.top; k++) f.push_back(map_ref(c[ref.e[j][0]][k], c[ref.e[j][1]][k], ref.f0[j])); r.f.push_back(f); }
  return r;
}
