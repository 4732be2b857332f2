#include "diagrams.hpp"
// boundaries and maps of the chain / graded diagrams built from TD
template <class F> void check_chain(const CpxDiag& TD, const RefDiag& ref) {
  use_field<F>(); RefChain r = ref_chain(TD, ref); int mode = rnd(0, 4);
  auto hd = [&](size_t j, size_t s, size_t t, bool rev) { size_t es = ref.e[j][rev ? 1 : 0], et = ref.e[j][rev ? 0 : 1]; need(s == es && t == et, "wrong-edge", "chain edge %zu goes %zu>%zu, expected %zu>%zu", j, s, t, es, et); };
  if (mode <= 2) {
    bats::Diagram<bats::ChainComplex<MT<F>>, bats::ChainMap<MT<F>>> CD;
    { sim::Sys s; CD = mode == 0 ? bats::ChainFunctor<MT<F>>(TD) : mode == 1 ? bats::Chain(TD, F()) : bats::__ChainFunctor(TD, F()); }
    sim_probe("chain-functor");
    need(CD.nnode() == ref.X.size() && CD.nedge() == ref.e.size(), "wrong-shape", "chain diagram has %zu nodes %zu edges", CD.nnode(), CD.nedge());
    for (size_t i = 0; i < CD.nnode(); i++) {
      const auto& C = CD.node[i]; size_t top = TD.node[i].maxdim();
      need(C.boundary.size() == top + 1, "wrong-dimension", "node %zu: chain complex has %zu boundary maps for a complex of dimension %zu", i, C.boundary.size(), top);
      for (size_t k = 0; k <= top; k++) { M g = dense<F>(C.boundary[k], "chain boundary"); if (k == 0) need(g.c == r.d[i][0].c && is_zero(g), "wrong-boundary", "node %zu: boundary in dimension 0 is %s", i, show(g).c_str()); else need(same_boundary(g, r.d[i][k], k), "wrong-boundary", "node %zu dim %zu: boundary %s expected %s", i, k, show(g).c_str(), show(r.d[i][k]).c_str()); }
    }
    for (size_t j = 0; j < CD.nedge(); j++) { hd(j, CD.elist[j].src, CD.elist[j].targ, false); size_t top = TD.node[ref.e[j][0]].maxdim(); for (size_t k = 0; k <= top; k++) { need(k < CD.edata[j].map.size(), "wrong-map", "chain edge %zu lacks dimension %zu", j, k); M g = dense<F>(CD.edata[j].map[k], "chain map"); need(g == r.f[j][k], "wrong-map", "chain edge %zu dim %zu: %s expected %s", j, k, show(g).c_str(), show(r.f[j][k]).c_str()); } }
  } else {
    int deg = mode == 3 ? -1 : 1; bats::Diagram<bats::DGVectorSpace<MT<F>>, bats::DGLinearMap<MT<F>>> DD;
    bool plain = deg == -1 && sim::chance(1, 2); { sim::Sys s; DD = plain ? bats::DGLinearFunctor<MT<F>>(TD) : bats::DGLinearFunctor<MT<F>>(TD, deg); }
    sim_probe(deg < 0 ? "dg-homological" : "dg-cohomological");
    need(DD.nnode() == ref.X.size() && DD.nedge() == ref.e.size(), "wrong-shape", "graded diagram has %zu nodes %zu edges", DD.nnode(), DD.nedge());
    for (size_t i = 0; i < DD.nnode(); i++) {
      const auto& C = DD.node[i]; size_t top = TD.node[i].maxdim();
      need(C.degree == deg && C.differential.size() == top + 2, "wrong-dimension", "node %zu: degree %d, %zu differentials", i, C.degree, C.differential.size());
      for (size_t k = 0; k <= top + 1; k++) { M g = dense<F>(C.differential[k], "differential"); M w = k <= top ? r.d[i][k] : M(r.d[i][top].c, 0); if (k == 0) w = M(0, r.d[i][0].c); if (deg > 0) w = tr(w); need(same_boundary(g, w, k), "wrong-boundary", "node %zu: differential %zu is %s expected %s", i, k, show(g).c_str(), show(w).c_str()); }
    }
    for (size_t j = 0; j < DD.nedge(); j++) { hd(j, DD.elist[j].src, DD.elist[j].targ, deg > 0); size_t top = TD.node[ref.e[j][0]].maxdim(); for (size_t k = 0; k <= top; k++) { need(k < DD.edata[j].map.size(), "wrong-map", "graded edge %zu lacks dimension %zu", j, k); M g = dense<F>(DD.edata[j].map[k], "graded map"); M w = deg < 0 ? r.f[j][k] : tr(r.f[j][k]); need(g == w, "wrong-map", "graded edge %zu dim %zu: %s expected %s", j, k, show(g).c_str(), show(w).c_str()); } }
  }
}
static void chain_any(const CpxDiag& TD, const RefDiag& ref) { switch (pick_field(4, 2)) { case 0: check_chain<F2>(TD, ref); break; case 1: check_chain<F3>(TD, ref); break; case 2: check_chain<FQ>(TD, ref); break; default: check_chain<F5>(TD, ref); } }

SIM_SCENARIO(C01, nerve, 2) {
  swarm_env(); RefDiag ref; size_t dmax = rnd(0, 3); sim_desc("dmax=%zu ", dmax);
  auto D = gen_covers(6, 9, 6, rnd(2, 7), dmax, ref); CpxDiag TD;
  { sim::Sys s; TD = bats::Nerve(D, dmax); }
  check_cpx_diag(TD, ref, "nerve diagram"); chain_any(TD, ref);
}
SIM_SCENARIO(C01, rips, 2) {
  swarm_env(); RefDiag ref; size_t dmax = rnd(0, 3); auto P = gen_points(2, 9); std::vector<double> r; bool one = sim::chance(1, 2);
  sim_desc("dmax=%zu metric=%d dim=%d ", dmax, P.metric, P.dim); for (auto& x : P.p) { sim_desc("("); for (auto v : x) sim_desc("%g ", v); sim_desc(")"); }
  auto D = gen_subsets(P, 6, 9, dmax, r, one, ref); auto X = dataset(P); CpxDiag TD;
  { sim::Sys s; TD = with_metric(P.metric, [&](auto m) { return one ? bats::Rips(D, X, m, r[0], dmax) : bats::Rips(D, X, m, r, dmax); }); }
  sim_probe(one ? "rips-one-radius" : "rips-radius-per-node");
  check_cpx_diag(TD, ref, "Rips diagram"); chain_any(TD, ref);
}
