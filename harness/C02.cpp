#include "diagrams.hpp"
#include "hom.hpp"
template <class Red> Node node_check(const Red& C, const RefChain& r, size_t i, size_t k, int deg, int) {
  return deg < 0 ? node_check(C, r.d[i][k], r.d[i][k + 1], i, k) : node_check(C, tr(r.d[i][k + 1]), tr(r.d[i][k]), i, k);
}
template <class F, class HD> void check_hd(const HD& H, const RefDiag& ref, const RefChain& r, const std::vector<size_t>& dims, int deg, int off, std::function<const MT<F>&(size_t, size_t)> mat) {
  need(H.nnode() == ref.X.size() && H.nedge() == ref.e.size(), "wrong-shape", "homology diagram has %zu nodes %zu edges", H.nnode(), H.nedge());
  for (size_t j = 0; j < ref.e.size(); j++) { size_t s = ref.e[j][deg > 0], t = ref.e[j][deg < 0]; need(H.elist[j].src == s && H.elist[j].targ == t, "wrong-edge", "homology edge %zu goes %zu>%zu, expected %zu>%zu", j, H.elist[j].src, H.elist[j].targ, s, t); }
  for (size_t q = 0; q < dims.size(); q++) {
    size_t k = dims[q]; std::vector<Node> n;
    for (size_t i = 0; i < ref.X.size(); i++) n.push_back(node_check(H.node[i], r, i, k, deg, off));
    for (size_t j = 0; j < ref.e.size(); j++) { size_t s = ref.e[j][deg > 0], t = ref.e[j][deg < 0]; M A = dense<F>(mat(j, q), "induced map"); M f = deg < 0 ? r.f[j][k] : tr(r.f[j][k]); edge_check(A, n[s], n[t], f, j, k); if (!is_zero(A) && A.c) sim_probe("nonzero-induced-map"); if (k > 0 && A.c) sim_probe("positive-dimension-class"); }
  }
}
template <class F> void run_hom(const CpxDiag& TD, const RefDiag& ref, size_t dmax) {
  use_field<F>(); RefChain r = ref_chain(TD, ref); int mode = rnd(0, 5); bool all = mode & 1, topd = sim::chance(1, 2); size_t k = rnd(0, (int) dmax);
  sim_desc("mode=%d k=%zu topd=%d field=%d ", mode, k, topd, PP());
  size_t nd = topd ? dmax + 1 : dmax; std::vector<size_t> dims; if (all) for (size_t q = 0; q < nd; q++) dims.push_back(q); else dims.push_back(k);
  auto no_homology = [&](auto fn) { bool threw = false; try { sim::Sys s; fn(); } catch (std::runtime_error&) { threw = true; } need(threw, "no-error", "all-dimension homology of a 0-dimensional diagram did not throw"); };
  if (mode <= 1) {
    auto CD = bats::ChainFunctor<MT<F>>(TD);
    if (all) { if (!nd) { no_homology([&] { bats::Hom<MT<F>>(CD, (bool) topd); }); return; } bats::Diagram<bats::ReducedChainComplex<MT<F>>, std::vector<MT<F>>> H; { sim::Sys s; H = bats::Hom<MT<F>>(CD, (bool) topd); } for (size_t j = 0; j < H.nedge(); j++) need(H.edata[j].size() == nd, "wrong-shape", "edge %zu has maps in %zu dimensions, expected %zu", j, H.edata[j].size(), nd); check_hd<F>(H, ref, r, dims, -1, 0, [&](size_t j, size_t q) -> const MT<F>& { return H.edata[j][q]; }); sim_probe("hom-all"); }
    else { bats::Diagram<bats::ReducedChainComplex<MT<F>>, MT<F>> H; { sim::Sys s; H = bats::Hom<MT<F>>(CD, k); } check_hd<F>(H, ref, r, dims, -1, 0, [&](size_t j, size_t) -> const MT<F>& { return H.edata[j]; }); sim_probe("hom-k"); }
  } else {
    int deg = mode <= 3 ? -1 : 1, off = deg < 0 ? 0 : 1; auto CD = bats::DGLinearFunctor<MT<F>>(TD, deg);
    if (all) { if (!nd) { no_homology([&] { bats::Hom<MT<F>>(CD, (bool) topd); }); return; } bats::Diagram<bats::ReducedDGVectorSpace<MT<F>>, std::vector<MT<F>>> H; { sim::Sys s; H = bats::Hom<MT<F>>(CD, (bool) topd); } for (size_t j = 0; j < H.nedge(); j++) need(H.edata[j].size() == nd, "wrong-shape", "edge %zu has maps in %zu dimensions, expected %zu", j, H.edata[j].size(), nd); check_hd<F>(H, ref, r, dims, deg, off, [&](size_t j, size_t q) -> const MT<F>& { return H.edata[j][q]; }); }
    else { bats::Diagram<bats::ReducedDGVectorSpace<MT<F>>, MT<F>> H; { sim::Sys s; H = bats::Hom<MT<F>>(CD, k); } check_hd<F>(H, ref, r, dims, deg, off, [&](size_t j, size_t) -> const MT<F>& { return H.edata[j]; }); }
    sim_probe(deg < 0 ? "dg-homology" : "dg-cohomology");
  }
}
static void hom_any(const CpxDiag& TD, const RefDiag& ref, size_t dmax) { switch (pick_field(4, 2)) { case 0: run_hom<F2>(TD, ref, dmax); break; case 1: run_hom<F3>(TD, ref, dmax); break; case 2: run_hom<FQ>(TD, ref, dmax); break; default: run_hom<F5>(TD, ref, dmax); } }
SIM_SCENARIO(C02, nerve, 3) {
  swarm_env(); RefDiag ref; size_t dmax = rnd(0, 3); sim_desc("dmax=%zu ", dmax);
  auto D = gen_covers(5, 8, 6, rnd(3, 7), dmax, ref); auto TD = bats::Nerve(D, dmax); hom_any(TD, ref, dmax);
}
SIM_SCENARIO(C02, rips, 3) {
  swarm_env(); RefDiag ref; size_t dmax = rnd(0, 3); auto P = gen_points(2, 9); std::vector<double> r;
  sim_desc("dmax=%zu metric=%d dim=%d ", dmax, P.metric, P.dim); for (auto& x : P.p) { sim_desc("("); for (auto v : x) sim_desc("%g ", v); sim_desc(")"); }
  auto D = gen_subsets(P, 5, 8, dmax, r, false, ref); auto X = dataset(P);
  auto TD = with_metric(P.metric, [&](auto m) { return bats::Rips(D, X, m, r, dmax); }); hom_any(TD, ref, dmax);
}
// graphs and spheres with many classes, maps that permute or kill them
SIM_SCENARIO(C02, cycles, 2) {
  swarm_env(); RefDiag ref; CpxDiag TD; int n = rnd(1, 4); size_t dmax = rnd(1, 2);
  for (int i = 0; i < n; i++) {
    SpxSet S; int nv = rnd(2, 6), m = rnd(1, 8); for (int v = 0; v < nv; v++) S.insert({(size_t) v});
    for (int t = 0; t < m; t++) { std::set<size_t> s; int sz = rnd(2, (int) dmax + 1); for (int q = 0; q < sz; q++) s.insert(rnd(0, nv - 1)); add_closed(S, Spx(s.begin(), s.end())); }
    if (i && sim::chance(1, 2)) { S.insert(ref.X[i - 1].begin(), ref.X[i - 1].end()); }
    bats::SimplicialComplex X(6, dmax); auto bd = by_dim(S, dmax); for (auto& l : bd) for (auto& s : l) X.add(s); for (auto& l : bd) for (auto& s : l) sim_desc("%s", show(s).c_str()); sim_desc(" / ");
    ref.X.push_back(S); TD.add_node(X);
  }
  int want = rnd(0, 8), tries = 60; while (want > 0 && tries-- > 0) {
    size_t s = sim::pick(n), t = sim::pick(n); size_t nv = 0; for (auto& x : ref.X[s]) if (x.size() == 1) nv = std::max(nv, x[0] + 1); size_t nt = 0; for (auto& x : ref.X[t]) if (x.size() == 1) nt = std::max(nt, x[0] + 1);
    std::vector<size_t> f; int kind = sim::pick(3); for (size_t v = 0; v < nv; v++) f.push_back(kind == 0 ? std::min(v, nt - 1) : kind == 1 ? (v + 1) % nt : sim::pick(nt));
    if (!is_simplicial(ref.X[s], ref.X[t], f)) continue;
    { size_t at = TD.add_edge(s, t, bats::SimplicialMap(TD.node[s], TD.node[t], f)); need(at == ref.e.size() && TD.edge_source(at) == s && TD.edge_target(at) == t, "wrong-edge-id", "edge %zu has number %zu", ref.e.size(), at); } ref.e.push_back({s, t}); ref.f0.push_back(f); want--; sim_desc("edge %zu>%zu %s ", s, t, show(f, 0).c_str());
  }
  hom_any(TD, ref, dmax);
}
// fused construction: dimensions and matrices, bases are internal so compare what does not depend on them
template <class F> void fused(size_t hd) {
  use_field<F>(); RefDiag ref; auto P = gen_points(2, 8); std::vector<double> r;
  sim_desc("hdim=%zu field=%d metric=%d dim=%d ", hd, PP(), P.metric, P.dim); for (auto& x : P.p) { sim_desc("("); for (auto v : x) sim_desc("%g ", v); sim_desc(")"); }
  auto D = gen_subsets(P, 5, 8, hd + 1, r, false, ref); auto X = dataset(P); bats::Diagram<size_t, MT<F>> H;
  { sim::Sys s; H = with_metric(P.metric, [&](auto m) { return bats::RipsHom(D, X, m, r, hd, F()); }); }
  need(H.nnode() == ref.X.size() && H.nedge() == ref.e.size(), "wrong-shape", "fused diagram has %zu nodes %zu edges", H.nnode(), H.nedge());
  std::vector<Hom> h; std::vector<std::vector<std::vector<Spx>>> c;
  for (auto& S : ref.X) { auto b = by_dim(S, hd + 1); c.push_back(b); h.push_back(homology(hd ? boundary(b[hd - 1], b[hd]) : M(0, b[0].size()), boundary(b[hd], b[hd + 1]))); }
  for (size_t i = 0; i < c.size(); i++) need(H.node[i] == h[i].dim(), "wrong-betti", "fused node %zu: Betti number %zu, expected %zu", i, H.node[i], h[i].dim());
  std::vector<M> want, got;
  for (size_t j = 0; j < ref.e.size(); j++) {
    size_t s = ref.e[j][0], t = ref.e[j][1]; need(H.elist[j].src == s && H.elist[j].targ == t, "wrong-edge", "fused edge %zu goes %zu>%zu", j, H.elist[j].src, H.elist[j].targ);
    M f = map_ref(c[s][hd], c[t][hd], ref.f0[j]); want.push_back(coords(h[t], f * h[s].H)); got.push_back(dense<F>(H.edata[j], "fused map"));
    need(got[j].r == want[j].r && got[j].c == want[j].c, "wrong-shape", "fused edge %zu is %zux%zu", j, got[j].r, got[j].c);
    need(rank(got[j]) == rank(want[j]), "wrong-induced-map", "fused edge %zu has rank %zu, expected %zu", j, rank(got[j]), rank(want[j]));
    if (rank(want[j])) sim_probe("fused-nonzero");
  }
  for (size_t a = 0; a < want.size(); a++) for (size_t b = 0; b < want.size(); b++) {
    auto &ea = ref.e[a], &eb = ref.e[b];
    if (ea[1] == eb[0]) { need(rank(got[b] * got[a]) == rank(want[b] * want[a]), "wrong-induced-map", "composite of fused edges %zu,%zu has the wrong rank", a, b);
      for (size_t q = 0; q < want.size(); q++) if (ref.e[q][0] == ea[0] && ref.e[q][1] == eb[1]) need(rank(got[b] * got[a] - got[q]) == rank(want[b] * want[a] - want[q]), "wrong-induced-map", "fused edges %zu,%zu,%zu: triangle defect has the wrong rank", a, b, q); }
    if (a < b && ea[1] == eb[1]) need(rank(hcat(got[a], got[b])) == rank(hcat(want[a], want[b])), "wrong-induced-map", "images of fused edges %zu,%zu do not meet as they should", a, b);
    if (a < b && ea[0] == eb[0]) need(rank(vcat(got[a], got[b])) == rank(vcat(want[a], want[b])), "wrong-induced-map", "kernels of fused edges %zu,%zu do not meet as they should", a, b);
    if (a < b && ea == eb) need(rank(got[a] - got[b]) == rank(want[a] - want[b]), "wrong-induced-map", "difference of parallel fused edges %zu,%zu has the wrong rank", a, b);
  }
}
SIM_SCENARIO(C02, fused, 2) { swarm_env(); size_t hd = rnd(0, 2); switch (pick_field(3, 2)) { case 0: fused<F2>(hd); break; case 1: fused<F3>(hd); break; default: fused<FQ>(hd); } }
