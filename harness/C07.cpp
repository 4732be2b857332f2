#include "diagrams.hpp"
#include "modules.hpp"
typedef std::vector<bats::PersistencePair<size_t>> Pairs;
// reference module in dimension k of a linear diagram of complexes
static Zig ref_module(const RefDiag& ref, size_t k, size_t top) {
  Zig z; std::vector<Hom> h; std::vector<std::vector<std::vector<Spx>>> c;
  for (auto& S : ref.X) { auto b = by_dim(S, top + 1); c.push_back(b); h.push_back(homology(k ? boundary(b[k - 1], b[k]) : M(0, b[0].size()), boundary(b[k], b[k + 1]))); z.dim.push_back(h.back().dim()); }
  for (size_t j = 0; j < ref.e.size(); j++) { size_t s = ref.e[j][0], t = ref.e[j][1]; z.fwd.push_back(s < t); M f = map_ref(c[s][k], c[t][k], ref.f0[j]); M A = coords(h[t], f * h[s].H); A.r = h[t].dim(); A.c = h[s].dim(); z.f.push_back(A); }
  return z;
}
template <class HD> Pairs bars_of(const HD& H, size_t k, int alg) { sim::Sys s; return alg == 0 ? bats::barcode(H, k) : alg == 1 ? bats::barcode(H, k, bats::flags::divide_conquer()) : alg == 2 ? bats::barcode(H, k, bats::flags::rightward()) : bats::barcode(H, k, bats::flags::leftward()); }
template <class F> void finish(const CpxDiag& TD, const RefDiag& ref, size_t top) {
  use_field<F>(); for (size_t j = 0; j < ref.e.size(); j++) need(std::min(ref.e[j][0], ref.e[j][1]) == j && std::max(ref.e[j][0], ref.e[j][1]) == j + 1, "wrong-edge", "edge %zu joins %zu and %zu", j, ref.e[j][0], ref.e[j][1]);
  int how = sim::pick(5), alg = sim::pick(4); size_t k = rnd(0, (int) top); sim_desc("how=%d alg=%d dim=%zu field=%d ", how, alg, k, PP());
  Zig z = ref_module(ref, k, top); Bars want = zig_bars(z); if (want.size() > 1) sim_probe("several-bars"); if (k) for (auto& b : want) if (b.second && b.first.second > b.first.first) sim_probe("long-cycle-bar");
  sim_set_threads(1 + sim_spick(16));
  auto fold = [&](const Pairs& p, Zig y, bool rev) { if (rev) { for (size_t j = 0; j < y.f.size(); j++) y.fwd[j] = !y.fwd[j]; } check_bars(p, y, want, k, "pipeline"); };
  if (how <= 1) {
    bats::Diagram<bats::ChainComplex<MT<F>>, bats::ChainMap<MT<F>>> CD; { sim::Sys s; CD = bats::ChainFunctor<MT<F>>(TD); } sim_set_threads(1 + sim_spick(16));
    if (how == 0) { bats::Diagram<bats::ReducedChainComplex<MT<F>>, MT<F>> H; { sim::Sys s; H = bats::Hom<MT<F>>(CD, k); } fold(bars_of(H, k, alg), z, false); }
    else if (top > 0) { bats::Diagram<bats::ReducedChainComplex<MT<F>>, std::vector<MT<F>>> H; { sim::Sys s; H = bats::Hom<MT<F>>(CD, true); } Pairs p, q; { sim::Sys s; p = alg == 0 ? bats::barcode(H) : alg == 1 ? bats::barcode(H, bats::flags::divide_conquer()) : alg == 2 ? bats::barcode(H, bats::flags::rightward()) : bats::barcode(H, bats::flags::leftward()); } for (auto& x : p) { need(x.dim <= top, "wrong-dimension", "bar of dimension %zu", (size_t) x.dim); if (x.dim == k) q.push_back(x); } fold(q, z, false); sim_probe("all-dimensions"); }
  } else {
    int deg = how == 4 ? 1 : -1; bats::Diagram<bats::DGVectorSpace<MT<F>>, bats::DGLinearMap<MT<F>>> CD; { sim::Sys s; CD = bats::DGLinearFunctor<MT<F>>(TD, deg); } bats::Diagram<bats::ReducedDGVectorSpace<MT<F>>, MT<F>> H; { sim::Sys s; H = bats::Hom<MT<F>>(CD, k); } fold(bars_of(H, k, alg), z, deg > 0); sim_probe(deg > 0 ? "cohomology-pipeline" : "graded-pipeline");
  }
}
static void finish_any(const CpxDiag& TD, const RefDiag& ref, size_t top) { switch (pick_field(4, 2)) { case 0: finish<F2>(TD, ref, top); break; case 1: finish<F3>(TD, ref, top); break; case 2: finish<FQ>(TD, ref, top); break; default: finish<F5>(TD, ref, top); } }
static std::vector<size_t> incl(const std::set<size_t>& a, const std::set<size_t>& b) { std::vector<size_t> f; for (auto x : a) { auto it = b.find(x); if (it == b.end()) sim_fail("harness", "not a subset"); f.push_back(std::distance(b.begin(), it)); } return f; }
static void expect_sets(const SetDiag& D, const std::vector<std::set<size_t>>& node, const std::vector<std::array<size_t, 2>>& e) {
  need(D.nnode() == node.size() && D.nedge() == e.size(), "wrong-shape", "%zu nodes %zu edges, expected %zu %zu", D.nnode(), D.nedge(), node.size(), e.size());
  for (size_t i = 0; i < node.size(); i++) need(D.node[i] == node[i], "wrong-set", "node %zu is %s expected %s", i, show(D.node[i]).c_str(), show(node[i]).c_str());
  for (size_t j = 0; j < e.size(); j++) { need(D.edge_source(j) == e[j][0] && D.edge_target(j) == e[j][1], "wrong-edge", "edge %zu goes %zu>%zu expected %zu>%zu", j, D.edge_source(j), D.edge_target(j), e[j][0], e[j][1]); need(D.edata[j] == incl(node[e[j][0]], node[e[j][1]]), "wrong-map", "edge %zu is %s", j, show(D.edata[j], 0).c_str()); }
}
static void rips_ref(const Pts& P, const std::vector<std::set<size_t>>& node, const std::vector<std::array<size_t, 2>>& e, const std::vector<double>& r, size_t dmax, RefDiag& ref) {
  for (size_t i = 0; i < node.size(); i++) { std::vector<size_t> v(node[i].begin(), node[i].end()); double ri = r[i]; ref.X.push_back(flag(v.size(), [&](size_t a, size_t b) { return P.dist(v[a], v[b]) <= ri; }, dmax)); }
  for (auto& x : e) { ref.e.push_back(x); ref.f0.push_back(incl(node[x[0]], node[x[1]])); }
}
static void say(const Pts& P) { sim_desc("metric=%d ", P.metric); for (auto& x : P.p) { sim_desc("("); for (auto v : x) sim_desc("%g ", v); sim_desc(")"); } }
template <class F> void fused_finish(const SetDiag& D, const bats::DataSet<double>& X, const Pts& P, const std::vector<double>& r, const RefDiag& ref, size_t k) {
  use_field<F>(); int alg = sim::pick(4); sim_desc("fused alg=%d dim=%zu field=%d ", alg, k, PP()); bats::Diagram<size_t, MT<F>> H; { sim::Sys s; H = with_metric(P.metric, [&](auto m) { return bats::RipsHom(D, X, m, r, k, F()); }); }
  Zig z = ref_module(ref, k, k + 1); check_bars(bars_of(H, k, alg), z, zig_bars(z), k, "fused pipeline"); sim_probe("fused-pipeline");
}
static void from_sets(const SetDiag& D, const Pts& P, const std::vector<std::set<size_t>>& node, const std::vector<std::array<size_t, 2>>& e, const std::vector<double>& r, bool one) {
  auto X = dataset(P); size_t dmax = rnd(0, 2); sim_desc("dmax=%zu ", dmax); RefDiag ref; sim_set_threads(1 + sim_spick(16));
  if (sim::chance(1, 3) && !one) { size_t k = std::min<size_t>(dmax, 1); rips_ref(P, node, e, r, k + 1, ref); if (sim::chance(1, 2)) fused_finish<F2>(D, X, P, r, ref, k); else fused_finish<F3>(D, X, P, r, ref, k); return; }
  rips_ref(P, node, e, r, dmax, ref); CpxDiag TD; { sim::Sys s; TD = with_metric(P.metric, [&](auto m) { return one ? bats::Rips(D, X, m, r[0], dmax) : bats::Rips(D, X, m, r, dmax); }); } check_cpx_diag(TD, ref, "Rips diagram"); finish_any(TD, ref, dmax);
}
SIM_SCENARIO(C07, subsets, 3) {
  swarm_env(); Pts P = gen_points(2, 9); say(P); size_t N = P.p.size(); int n = rnd(2, zm(6)); std::vector<std::set<size_t>> sub; bool inter = sim::chance(1, 2);
  for (int i = 0; i < n; i++) { std::set<size_t> s; int q = rnd(1, (int) std::min<size_t>(N, 6)); for (int t = 0; t < q; t++) s.insert(sim::pick(N)); if (i && inter) s.insert(*sub.back().begin()); sub.push_back(s); sim_desc("%s ", show(s).c_str()); }
  SetDiag D; auto arg = sub; { sim::Sys s; D = inter ? bats::linear_cover_intersection_diagram(arg) : bats::linear_subset_union_diagram(arg); }
  std::vector<std::set<size_t>> node; std::vector<std::array<size_t, 2>> e;
  for (int i = 0; i < n; i++) { node.push_back(sub[i]); if (i + 1 < n) { std::set<size_t> u; for (size_t x = 0; x < N; x++) { bool a = sub[i].count(x), b = sub[i + 1].count(x); if (inter ? a && b : a || b) u.insert(x); } node.push_back(u); } }
  for (size_t j = 0; j + 1 < node.size(); j++) { bool single = j % 2 == 0; if (inter == single) e.push_back({j + 1, j}); else e.push_back({j, j + 1}); }
  expect_sets(D, node, e); sim_probe(inter ? "intersections" : "unions");
  double r0 = rnd(0, 10) * 0.5; std::vector<double> r; bool one = sim::chance(1, 3); for (size_t i = 0; i < node.size(); i++) r.push_back(one || i % 2 == (size_t) inter ? r0 : r0 + (one ? 0 : 0.5 * rnd(0, 3)));
  sim_desc("r:"); for (auto x : r) sim_desc("%g ", x); from_sets(D, P, node, e, r, one);
}
SIM_SCENARIO(C07, covers, 3) {
  swarm_env(); size_t N = rnd(3, 9), dmax = rnd(0, 2); int n = rnd(2, zm(4)); sim_desc("dmax=%zu ", dmax); std::vector<bats::Cover> cv; bool land = sim::chance(1, 3); Pts P = land ? gen_points((int) N, (int) N) : Pts(); if (land) say(P);
  for (int i = 0; i < n; i++) { bats::Cover c; int k = rnd(1, 5);
    if (land) { std::set<size_t> l; for (int t = 0; t < k; t++) l.insert(sim::pick(N)); Pts L; L.dim = P.dim; L.metric = P.metric; for (auto x : l) L.p.push_back(P.p[x]); auto DX = dataset(P), DL = dataset(L); size_t kk = rnd(1, (int) l.size()); { sim::Sys s; c = with_metric(P.metric, [&](auto m) { return bats::landmark_cover(DX, DL, m, kk); }); } sim_probe("landmark-pipeline"); }
    else { c.resize(k); for (size_t x = 0; x < N; x++) { c[sim::pick(k)].insert(x); while (sim::chance(1, 3)) c[sim::pick(k)].insert(x); } }
    sim_desc("cover%d:", i); for (auto& s : c) sim_desc("%s", show(s).c_str()); sim_desc(" "); cv.push_back(c); }
  CoverDiag D; RefDiag ref;
  for (int i = 0; i < n; i++) {
    if (i) {
      bats::Cover c; std::vector<size_t> f1, f2; { sim::Sys s; std::tie(c, f1, f2) = bats::bivariate_cover(cv[i - 1], cv[i]); }
      need(c.size() == f1.size() && c.size() == f2.size(), "wrong-shape", "bivariate cover has %zu sets but maps of length %zu,%zu", c.size(), f1.size(), f2.size()); std::set<std::pair<size_t, size_t>> seen; size_t cnt = 0;
      for (size_t q = 0; q < c.size(); q++) { std::set<size_t> u; need(f1[q] < cv[i - 1].size() && f2[q] < cv[i].size(), "wrong-map", "bivariate map out of range"); for (auto x : cv[i - 1][f1[q]]) if (cv[i][f2[q]].count(x)) u.insert(x); need(c[q] == u && !u.empty(), "wrong-set", "bivariate set %zu is %s expected %s", q, show(c[q]).c_str(), show(u).c_str()); need(seen.insert({f1[q], f2[q]}).second, "wrong-set", "bivariate pair listed twice"); }
      for (auto& a : cv[i - 1]) for (auto& b : cv[i]) for (auto x : a) if (b.count(x)) { cnt++; break; } need(cnt == c.size(), "wrong-set", "bivariate cover has %zu sets, expected %zu", c.size(), cnt);
      size_t p = D.nnode(); D.add_node(c); ref.X.push_back(nerve_ref(c, dmax)); D.add_edge(p, p - 1, f1); ref.e.push_back({p, p - 1}); ref.f0.push_back(f1); D.add_node(cv[i]); ref.X.push_back(nerve_ref(cv[i], dmax)); D.add_edge(p, p + 1, f2); ref.e.push_back({p, p + 1}); ref.f0.push_back(f2);
    } else { D.add_node(cv[0]); ref.X.push_back(nerve_ref(cv[0], dmax)); }
  }
  sim_set_threads(1 + sim_spick(16)); CpxDiag TD; { sim::Sys s; TD = bats::Nerve(D, dmax); } check_cpx_diag(TD, ref, "nerve diagram"); finish_any(TD, ref, dmax);
}
// a chain of coarsenings: all arrows forward (or backward)
SIM_SCENARIO(C07, coarsening, 2) {
  swarm_env(); size_t N = rnd(3, 8), dmax = rnd(0, 2); int n = rnd(2, zm(7)), fwd = sim::pick(2); sim_desc("dmax=%zu ", dmax); std::vector<bats::Cover> cv; std::vector<std::vector<size_t>> f; bats::Cover c(rnd(2, 6));
  for (size_t x = 0; x < N; x++) { c[sim::pick(c.size())].insert(x); while (sim::chance(1, 3)) c[sim::pick(c.size())].insert(x); } cv.push_back(c);
  for (int i = 1; i < n; i++) { size_t k = rnd(1, (int) c.size()); bats::Cover d(k); std::vector<size_t> g; for (auto& s : c) { size_t t = sim::pick(k); g.push_back(t); d[t].insert(s.begin(), s.end()); } if (sim::chance(1, 3)) d[sim::pick(k)].insert(sim::pick(N)); c = d; cv.push_back(c); f.push_back(g); }
  CoverDiag D; RefDiag ref; for (int i = 0; i < n; i++) { auto& u = cv[fwd ? i : n - 1 - i]; D.add_node(u); ref.X.push_back(nerve_ref(u, dmax)); sim_desc("cover:"); for (auto& s : u) sim_desc("%s", show(s).c_str()); }
  for (int j = 0; j + 1 < n; j++) { size_t s = fwd ? j : j + 1, t = fwd ? j + 1 : j; auto& g = f[fwd ? j : n - 2 - j]; D.add_edge(s, t, g); ref.e.push_back({s, t}); ref.f0.push_back(g); }
  CpxDiag TD; { sim::Sys s; TD = bats::Nerve(D, dmax); } check_cpx_diag(TD, ref, "nerve diagram"); finish_any(TD, ref, dmax);
}
// Rips zigzags on a greedy landmark sequence
SIM_SCENARIO(C07, zoo, 3) {
  swarm_env(); Pts P = gen_points(1, 8, 12); say(P); auto X = dataset(P); size_t n = P.p.size(), c0; std::vector<size_t> inds; std::vector<double> hds;
  { sim::Sys s; c0 = with_metric(P.metric, [&](auto m) { return bats::approx_center(X, m); }); } need(c0 < n, "wrong-center", "centre %zu of %zu points", c0, n);
  { sim::Sys s; std::tie(inds, hds) = with_metric(P.metric, [&](auto m) { return bats::greedy_landmarks_hausdorff(X, m, c0); }); }
  need(inds.size() == n && hds.size() == n && inds[0] == c0, "wrong-landmarks", "%zu landmarks", inds.size());
  { std::vector<double> d(n, 1e300); double h = 0; for (size_t t = 0; t < n; t++) { need(inds[t] < n && (!t || d[inds[t]] == h), "wrong-landmarks", "landmark %zu is not a furthest point", t); h = 0; for (size_t i = 0; i < n; i++) { d[i] = std::min(d[i], P.dist(i, inds[t])); h = std::max(h, d[i]); } need(hds[t] == h, "wrong-radius", "radius %zu is %g expected %g", t, hds[t], h); } }
  bool mor = sim::chance(1, 2); double rho = mor ? rnd(4, 24) * 0.5 : rnd(1, 6) * 0.5, eta = mor ? 0 : std::min(rho, rnd(1, 6) * 0.5); sim_desc("morozov=%d rho=%g eta=%g ", mor, rho, eta); SetDiag D; std::vector<double> r; bool full = mor && sim::chance(1, 2); CpxDiag TD; size_t dmax = rnd(1, 2);
  { sim::Sys s; if (mor) { if (full) std::tie(TD, r) = with_metric(P.metric, [&](auto m) { return bats::DiscreteMorozovZigzag(X, m, rho, dmax); }); else std::tie(D, r) = with_metric(P.metric, [&](auto m) { return bats::DiscreteMorozovZigzagSets(X, m, rho); }); } else std::tie(D, r) = with_metric(P.metric, [&](auto m) { return bats::OscillatingRipsZigzagSets(X, m, rho, eta); }); }
  std::vector<size_t> lv; std::vector<double> ra; // levels and radii by definition
  if (mor) { double th = std::sqrt(double(P.dim) / (2 * double(P.dim) + 1)), et = (3 * rho + 20) / (10 * th * rho + 20); lv.push_back(0); for (size_t i = 1; i < n; i++) if (!(hds[i] > et * hds[lv.back()])) lv.push_back(i); }
  else for (size_t i = 0; i < n; i++) lv.push_back(i);
  std::vector<std::set<size_t>> node; std::vector<std::array<size_t, 2>> e; std::vector<double> want;
  for (size_t q = 0; q < lv.size(); q++) { std::set<size_t> s(inds.begin(), inds.begin() + lv[q] + 1); if (q) { node.push_back(s); want.push_back(hds[lv[q - 1]] * rho); } node.push_back(s); want.push_back(mor ? hds[lv[q]] * rho : eta * hds[lv[q]]); }
  for (size_t j = 0; j + 1 < node.size(); j++) if (j % 2) e.push_back({j + 1, j}); else e.push_back({j, j + 1});
  need(r == want, "wrong-parameters", "%zu Rips parameters differ from the definition", r.size()); sim_probe(mor ? "morozov" : "oscillating");
  if (full) { RefDiag ref; rips_ref(P, node, e, r, dmax, ref); check_cpx_diag(TD, ref, "Morozov zigzag"); if (e.size()) finish_any(TD, ref, dmax); return; }
  expect_sets(D, node, e); if (e.empty()) return; from_sets(D, P, node, e, r, false);
}
