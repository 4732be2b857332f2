#include "modules.hpp"
typedef std::vector<bats::PersistencePair<size_t>> Pairs;
struct VSpace { size_t dim; };
template <class F> void run_algs(const Zig& z, const Bars& want) {
  auto D = zig_diagram<F, VSpace>(z); auto before = D.edata; size_t h = rnd(0, 3);
  Pairs a, b, c, d;
  { sim::Sys s; d = bats::barcode(D, h); } check_bars(d, z, want, h, "default");
  { sim::Sys s; c = bats::barcode(D, h, bats::flags::divide_conquer()); } check_bars(c, z, want, h, "divide_conquer");
  { sim::Sys s; a = bats::barcode(D, h, bats::flags::rightward()); } check_bars(a, z, want, h, "rightward");
  { sim::Sys s; b = bats::barcode(D, h, bats::flags::leftward()); } check_bars(b, z, want, h, "leftward");
  for (size_t k = 0; k < z.f.size(); k++) need(dense<F>(D.edata[k], "input") == z.f[k], "input-changed", "edge %zu of the input diagram changed", k);
  if (z.f.size() >= 5 && sim_max_threads() >= 4) sim_probe("parallel-divide-conquer");
  if (z.f.size() >= 12 && sim_max_threads() >= 4) sim_probe("recursive-divide-conquer");
  if (want.size() > 2) sim_probe("several-bars");
}
template <class F> void random_case() {
  use_field<F>(); bool q = PP() == 0; size_t n = q ? rnd(2, 8) : rnd(2, zm(12, 40)); int dirs = sim::pick(4); Zig z = random_module(n, q ? 2 : n > 8 ? 3 : 4, dirs); sim_desc("field=%d dirs=%d ", PP(), dirs); describe(z);
  Bars want = zig_bars(z); run_algs<F>(z, want);
}
template <class F> void intervals_case() {
  use_field<F>(); bool q = PP() == 0; int dirs = sim::pick(4); Bars want; size_t n = q ? rnd(2, 8) : rnd(2, zm(40)); int nb = q ? rnd(0, 4) : rnd(0, n > 12 ? zm(12) : zm(8, 24)); Zig z = interval_module(n, nb, rnd(0, q ? 1 : 8), want, dirs);
  sim_desc("field=%d dirs=%d ", PP(), dirs); describe(z); run_algs<F>(z, want);
}
SIM_SCENARIO(C03, random, 3) { swarm_env(); switch (sim::pick(4)) { case 0: random_case<F2>(); break; case 1: random_case<F3>(); break; case 2: random_case<F5>(); break; default: random_case<FQ>(); } }
SIM_SCENARIO(C03, intervals, 3) { swarm_env(); switch (sim::pick(4)) { case 0: intervals_case<F2>(); break; case 1: intervals_case<F3>(); break; case 2: intervals_case<F5>(); break; default: intervals_case<FQ>(); } }
// diagrams carrying several dimensions at once
template <class F> void stacked() {
  use_field<F>(); size_t K = rnd(1, 3), n = rnd(2, zm(12)); int dirs = sim::pick(3); std::vector<Zig> zs; std::vector<Bars> want(K); std::vector<bats::Diagram<VSpace, MT<F>>> Ds;
  for (size_t k = 0; k < K; k++) { zs.push_back(interval_module(n, rnd(0, 6), rnd(0, 6), want[k], dirs)); sim_desc("dim%zu: ", k); describe(zs[k]); Ds.push_back(zig_diagram<F, VSpace>(zs[k])); }
  bats::Diagram<VSpace, std::vector<MT<F>>> D(n, n - 1); for (size_t j = 0; j + 1 < n; j++) { std::vector<MT<F>> v; for (auto& d : Ds) v.push_back(d.edata[j]); D.set_edge(j, Ds[0].elist[j].src, Ds[0].elist[j].targ, v); }
  Pairs p; int alg = sim::pick(4); { sim::Sys s; p = alg == 0 ? bats::barcode(D) : alg == 1 ? bats::barcode(D, bats::flags::divide_conquer()) : alg == 2 ? bats::barcode(D, bats::flags::rightward()) : bats::barcode(D, bats::flags::leftward()); }
  for (size_t k = 0; k < K; k++) { Pairs pk; for (auto& x : p) { if (x.dim == k) pk.push_back(x); need(x.dim < K, "wrong-dimension", "a bar has dimension %zu of %zu", (size_t) x.dim, K); } check_bars(pk, zs[k], want[k], k, "stacked"); }
  size_t k = sim::pick(K); { sim::Sys s; auto E = bats::extract_dimension(D, k); sim::Off o; for (size_t j = 0; j + 1 < n; j++) need(dense<F>(E.edata[j], "extracted") == zs[k].f[j] && E.elist[j].src == D.elist[j].src && E.elist[j].targ == D.elist[j].targ, "wrong-extraction", "extracted edge %zu differs", j); }
}
SIM_SCENARIO(C03, stacked, 1) { swarm_env(); if (sim::chance(1, 2)) stacked<F3>(); else stacked<F2>(); }
