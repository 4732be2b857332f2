#include "diagrams.hpp"
#include "modules.hpp"
#include "digest.hpp"
#include "exhaust.hpp"
SIM_SCENARIO(C08, exhaust_diagram, 4) {
  swarm_env(); RefDiag ref; size_t dmax = rnd(1, 2); bool nerve = sim::chance(1, 2); Pts P; std::vector<double> r; CoverDiag CD; SetDiag SD; CpxDiag TD;
  if (nerve) { CD = gen_covers(4, 5, 4, rnd(3, 5), dmax, ref); TD = bats::Nerve(CD, dmax); } else { P = gen_points(2, 6); P.metric = 0; SD = gen_subsets(P, 4, 5, dmax, r, sim::chance(1, 2), ref); TD = bats::Rips(SD, dataset(P), bats::Euclidean(), r, dmax); }
  auto X = nerve ? bats::DataSet<double>() : dataset(P); auto none = [] { return (uint64_t) 0; };
  switch (sim::pick(nerve ? 7 : 9)) {
    case 0: if (nerve) exhaust(OP(bats::Nerve(CD, dmax)), [&] { return dg(CD); }, "Nerve"); else exhaust(OP(bats::Rips(SD, X, bats::Euclidean(), r, dmax)), [&] { return dg(SD); }, "Rips", false); break;
    case 1: exhaust(OP(bats::ChainFunctor<MT<F3>>(TD)), [&] { return dg(TD); }, "ChainFunctor"); break;
    case 2: { auto C = bats::ChainFunctor<MT<F3>>(TD); exhaust(OP(bats::Hom<MT<F3>>(C, (size_t) 0)), [&] { return dg(C); }, "Hom"); break; }
    case 3: { auto C = bats::ChainFunctor<MT<F2>>(TD); exhaust(OP(bats::Hom<MT<F2>>(C, true)), [&] { return dg(C); }, "Hom in all dimensions"); break; }
    case 4: { int d = sim::chance(1, 2) ? 1 : -1; exhaust(OP(bats::DGLinearFunctor<MT<F3>>(TD, d)), [&] { return dg(TD); }, "DGLinearFunctor"); break; }
    case 5: { auto C = bats::DGLinearFunctor<MT<F3>>(TD, sim::chance(1, 2) ? 1 : -1); exhaust(OP(bats::Hom<MT<F3>>(C, (size_t) 0)), [&] { return dg(C); }, "graded Hom"); break; }
    case 6: { auto C = bats::DGLinearFunctor<MT<F2>>(TD, sim::chance(1, 2) ? 1 : -1); exhaust(OP(bats::Hom<MT<F2>>(C, true)), [&] { return dg(C); }, "graded Hom in all dimensions"); break; }
    case 7: exhaust(OP(bats::RipsHom(SD, X, bats::Euclidean(), r, 0, F3())), [&] { return dg(SD); }, "RipsHom", false); break;
    default: { double m = r[0]; for (auto x : r) if (x != m) return; auto SE = SD; exhaust(OP(bats::Rips(SE, X, bats::Euclidean(), m, dmax)), [&] { return dg(SE); }, "Rips with one radius", false); }
  }
  (void) none;
}
SIM_SCENARIO(C08, exhaust_quiver, 2) {
  swarm_env(); use_field<F3>(); Bars b; size_t n = rnd(2, 14); Zig z = interval_module(n, rnd(1, 5), rnd(0, 3), b, sim::pick(4)); auto D = zig_diagram<F3, size_t>(z); for (auto& x : D.node) x = 0; auto in = [&] { return dg(D); };
  switch (sim::pick(4)) { case 0: exhaust(OP(bats::barcode(D, 0)), in, "barcode"); break; case 1: exhaust(OP(bats::barcode(D, 0, bats::flags::leftward())), in, "leftward barcode"); break; case 2: exhaust(OP(bats::barcode(D, 0, bats::flags::rightward())), in, "rightward barcode"); break;
    default: { bats::Diagram<size_t, std::vector<MT<F3>>> E(n, n - 1); for (auto& x : E.node) x = 0; for (size_t j = 0; j + 1 < n; j++) E.set_edge(j, D.elist[j].src, D.elist[j].targ, std::vector<MT<F3>>{D.edata[j], D.edata[j]}); exhaust(OP(bats::barcode(E)), [&] { return dg(E); }, "barcode in all dimensions"); } }
}
SIM_SCENARIO(C08, exhaust_reduce, 1) {
  swarm_env(); use_field<F3>(); bool big = sim::chance(1, 3); size_t r = rnd(2, 8), c = big ? 260 + sim::pick(300) : 4 + sim::pick(20), blk = 1 + sim::pick(10); uint64_t h = sim::pick(1u << 16); M A(r, c); for (size_t j = 0; j < c; j++) { h = sim_mix(h, j); A(h % r, j) = mk(1); A((h >> 8) % r, j) = mk(2); if (h & 64) A((h >> 16) % r, j) = mk(1); }
  auto S = sparse<F3>(A); auto in = [&] { return dg(S); };
  auto run = [&](auto fn) { return [&S, fn]() -> uint64_t { MT<F3> B; uint64_t e = 0; { B = S; sim::Sys s; e = fn(B); } return sim_mix(e, dg(B)); }; };
  if (sim::chance(1, 2)) exhaust(run([](MT<F3>& B) { auto p = bats::reduce_matrix(B, bats::divide_conquer_flag()); sim::Off o; return dg(p); }), in, "divide and conquer reduction"); else exhaust(run([blk](MT<F3>& B) { bats::partial_reduce_parallel(B, blk); return (uint64_t) 0; }), in, "parallel pre-reduction");
}
SIM_SCENARIO(C08, exhaust_points, 2) {
  swarm_env(); Pts P = gen_points(2, 8), Q = gen_points(1, 5); Q.dim = P.dim; for (auto& x : Q.p) x.resize(P.dim); auto X = dataset(P), Y = dataset(Q); auto in = [] { return (uint64_t) 0; }; size_t k = 1 + sim::pick(Q.p.size()); double r = rnd(1, 8) * 0.5;
  switch (sim::pick(4)) { case 0: exhaust(OP(bats::neighborhoods(X, Y, bats::L1Dist(), r)), in, "radius neighbourhoods"); break; case 1: exhaust(OP(bats::neighborhoods(X, Y, bats::LInfDist(), k)), in, "nearest neighbours"); break; case 2: exhaust(OP(bats::landmark_cover(X, Y, bats::Euclidean(), k)), in, "landmark cover"); break; default: exhaust(OP(bats::landmark_eps_cover(X, Y, bats::Euclidean(), r)), in, "landmark eps cover"); }
}
SIM_SCENARIO(C08, exhaust_levelset, 1) {
  swarm_env(); int a = rnd(1, 2), b = rnd(1, 2), c = rnd(1, 2); std::vector<std::vector<std::vector<double>>> img(a, std::vector<std::vector<double>>(b, std::vector<double>(c))); for (auto& x : img) for (auto& y : x) for (auto& v : y) v = rnd(0, 4) * 0.5;
  auto Z = bats::zigzag_toplex(img); double t1 = rnd(1, 4) * 0.5; exhaust(OP(bats::zigzag_levelsets(Z, 0.5, 0.0, t1)), [&] { return dg(Z.complex()); }, "level-set zigzag");
}
// ---- invalid data on some arrows
template <class Op> int outcome(const Op& op) { try { op(); return 0; } catch (std::range_error&) { return 1; } catch (std::out_of_range&) { return 2; } catch (std::runtime_error&) { return 3; } catch (std::exception&) { return 4; } }
static const char* oname(int o) { static const char* n[] = {"no exception", "range_error", "out_of_range", "runtime_error", "another exception"}; return n[o]; }
SIM_SCENARIO(C08, bad_radius_or_map, 4) {
  swarm_env(); RefDiag ref; size_t dmax = rnd(0, 2); Pts P = gen_points(2, 7); std::vector<double> r; auto D = gen_subsets(P, 5, 8, dmax, r, false, ref); auto X = dataset(P); if (ref.e.empty()) return;
  auto G = D; std::vector<double> rb = r; std::set<int> may; int kind = sim::pick(3);
  if (kind != 1) { size_t i = sim::pick(r.size()); rb[i] += sim::chance(1, 2) ? 5 : -20; for (auto& e : ref.e) if (rb[e[1]] < rb[e[0]]) may.insert(1); }
  if (kind != 0) { size_t n = 1 + sim::pick(2); while (n--) { size_t j = sim::pick(D.nedge()), q = D.edata[j].size(); if (!q) continue; size_t i = sim::pick(q); D.edata[j][i] = sim::pick((uint32_t) D.node[ref.e[j][1]].size() + 3); sim_desc("edge %zu vertex %zu -> %zu ", j, i, D.edata[j][i]); } }
  // which arrows are invalid with the parameters in use
  RefDiag now; for (size_t i = 0; i < D.nnode(); i++) { std::vector<size_t> v(D.node[i].begin(), D.node[i].end()); double ri = rb[i]; now.X.push_back(flag(v.size(), [&](size_t a, size_t b) { return P.dist(v[a], v[b]) <= ri; }, dmax)); } now.e = ref.e; now.f0 = D.edata;
  std::vector<int> bad; for (size_t j = 0; j < D.nedge(); j++) { bool dec = rb[ref.e[j][1]] < rb[ref.e[j][0]], miss = !dec && !is_simplicial(now.X[ref.e[j][0]], now.X[ref.e[j][1]], D.edata[j]); if (dec) may.insert(1); if (miss) may.insert(2); bad.push_back(dec || miss); }
  sim_desc("bad arrows:"); for (size_t j = 0; j < bad.size(); j++) if (bad[j]) sim_desc("%zu ", j);
  uint64_t in = dg(D); CpxDiag TD; bool fused = dmax && sim::chance(1, 3);
  int o = outcome([&] { sim::Sys s; if (fused) with_metric(P.metric, [&](auto m) { bats::RipsHom(D, X, m, rb, dmax - 1, F3()); return 0; }); else TD = with_metric(P.metric, [&](auto m) { return bats::Rips(D, X, m, rb, dmax); }); });
  if (may.empty()) need(o == 0, "spurious-exception", "valid diagram, but %s", oname(o)); else need(may.count(o), "error-not-reported", "%s although %zu arrows are invalid", oname(o), (size_t) std::count(bad.begin(), bad.end(), 1));
  if (o == 1) sim_probe("decreasing-radius-reported"); if (o == 2) sim_probe("missing-target-reported"); if (o && sim_max_threads() > 1) sim_probe("reported-with-threads"); if (std::count(bad.begin(), bad.end(), 1) > 1) sim_probe("several-failures");
  need(dg(D) == in, "input-changed", "the input diagram changed"); if (o == 0 && !fused) check_cpx_diag(TD, now, "after changed data");
  sim_set_threads(1 + sim_spick(16)); CpxDiag T2; { sim::Sys s; T2 = with_metric(P.metric, [&](auto m) { return bats::Rips(G, X, m, r, dmax); }); } check_cpx_diag(T2, ref, "valid call after a failed one");
}
SIM_SCENARIO(C08, bad_nerve_map, 3) {
  swarm_env(); RefDiag ref; size_t dmax = rnd(0, 2); auto D = gen_covers(5, 8, 5, rnd(3, 6), dmax, ref); if (ref.e.empty()) return; auto G = D; int n = 1 + sim::pick(3); while (n--) { size_t j = sim::pick(D.nedge()); size_t i = sim::pick(D.edata[j].size()); D.edata[j][i] = sim::pick((uint32_t) D.node[ref.e[j][1]].size() + 3); sim_desc("edge %zu set %zu -> %zu ", j, i, D.edata[j][i]); }
  int bad = 0; for (size_t j = 0; j < D.nedge(); j++) bad += !is_simplicial(ref.X[ref.e[j][0]], ref.X[ref.e[j][1]], D.edata[j]); uint64_t in = dg(D); CpxDiag TD;
  int o = outcome([&] { sim::Sys s; TD = bats::Nerve(D, dmax); }); need(o == (bad ? 2 : 0), "error-not-reported", "%s with %d invalid arrows", oname(o), bad); need(dg(D) == in, "input-changed", "the input diagram changed"); if (o) sim_probe("missing-target-reported");
  if (!o) { RefDiag now = ref; now.f0 = D.edata; check_cpx_diag(TD, now, "changed maps"); }
  sim_set_threads(1 + sim_spick(16)); CpxDiag T2; { sim::Sys s; T2 = bats::Nerve(G, dmax); } check_cpx_diag(T2, ref, "valid call after a failed one");
}
template <class CD, class Mk> void mismatched(CD& C, size_t dmax, Mk shape, size_t m) {
  bool all = sim::chance(1, 2); size_t k = sim::pick(dmax + 1); CD good = C; std::set<size_t> badk; int n = 1 + sim::pick(2); bool zero_ = false;
  while (n--) { size_t j = sim::pick(m), q = all ? sim::pick(dmax + 1) : k; auto rc = shape(j, q); size_t r = rc.first, c = rc.second; if (sim::chance(1, 2)) r += 1 + sim::pick(2); else c += 1 + sim::pick(2); if (sim::chance(1, 4) && rc.second) c = rc.second - 1; if (r == rc.first && c == rc.second) continue; C.edata[j][q] = MT<F3>(r, c); badk.insert(q); sim_desc("edge %zu dim %zu: %zux%zu -> %zux%zu ", j, q, rc.first, rc.second, r, c); }
  bool hit = !badk.empty(); uint64_t in = dg(C), h0 = 0; (void) zero_;
  auto op = [&](CD& D) { sim::Sys s; if (all) { auto H = bats::Hom<MT<F3>>(D, true); sim::Off o; h0 = dg(H); } else { auto H = bats::Hom<MT<F3>>(D, k); sim::Off o; h0 = dg(H); } };
  int o = outcome([&] { op(C); }); need(o == (hit ? 3 : 0), "error-not-reported", "%s with mismatched chain maps", oname(o)); need(dg(C) == in, "input-changed", "the input diagram changed"); if (o) sim_probe("mismatch-reported");
  sim_set_threads(1 + sim_spick(16)); o = outcome([&] { op(good); }); need(o == 0, "spurious-exception", "valid call after a failed one: %s", oname(o)); uint64_t h1 = h0; sim_set_threads(1); op(good); need(h0 == h1, "retry-differs", "valid calls differ");
}
SIM_SCENARIO(C08, bad_dimensions, 3) {
  swarm_env(); use_field<F3>(); RefDiag ref; size_t dmax = rnd(1, 2); auto D = gen_covers(4, 6, 5, rnd(3, 6), dmax, ref); if (ref.e.empty()) return; auto TD = bats::Nerve(D, dmax); RefChain rc = ref_chain(TD, ref); size_t dm = rc.top; for (auto& X : TD.node) dm = std::min(dm, X.maxdim());
  if (sim::chance(1, 2)) { auto C = bats::ChainFunctor<MT<F3>>(TD); if (dm < rc.top || dm == 0) return; mismatched(C, dm, [&](size_t j, size_t q) { return std::make_pair(rc.f[j][q].r, rc.f[j][q].c); }, ref.e.size()); }
  else { int deg = sim::chance(1, 2) ? 1 : -1; auto C = bats::DGLinearFunctor<MT<F3>>(TD, deg); if (dm < rc.top || dm == 0) return; mismatched(C, dm, [&](size_t j, size_t q) { return deg < 0 ? std::make_pair(rc.f[j][q].r, rc.f[j][q].c) : std::make_pair(rc.f[j][q].c, rc.f[j][q].r); }, ref.e.size()); }
}
// parameters outside the documented range: a degree other than +1 or -1, multipliers in the wrong order
SIM_SCENARIO(C08, bad_parameters, 1) {
  swarm_env(); use_field<F3>();
  if (sim::chance(1, 3)) { // spaces of both degrees in one diagram
    RefDiag ref; size_t dmax = rnd(1, 2); auto D = gen_covers(4, 6, 5, rnd(3, 6), dmax, ref); if (ref.e.empty()) return; auto TD = bats::Nerve(D, dmax); auto C = bats::DGLinearFunctor<MT<F3>>(TD, -1), O = bats::DGLinearFunctor<MT<F3>>(TD, 1); if (sim::chance(1, 2)) std::swap(C, O);
    auto good = C; std::vector<int> flip(C.nnode()); for (size_t i = 0; i < flip.size(); i++) if ((flip[i] = sim::chance(1, 3))) { C.node[i] = O.node[i]; sim_desc("node %zu of the other degree ", i); } bool mixed = false; for (auto& e : ref.e) mixed |= flip[e[0]] != flip[e[1]]; if (!mixed) return;
    uint64_t in = dg(C); bool all = sim::chance(1, 2); int o = outcome([&] { sim::Sys s; if (all) bats::Hom<MT<F3>>(C, true); else bats::Hom<MT<F3>>(C, (size_t) 0); }); need(o == 3, "error-not-reported", "%s for maps between spaces of different degrees", oname(o)); need(dg(C) == in, "input-changed", "the input diagram changed"); sim_probe("mixed-degrees-refused");
    sim_set_threads(1 + sim_spick(16)); o = outcome([&] { sim::Sys s; bats::Hom<MT<F3>>(good, (size_t) 0); }); need(o == 0, "spurious-exception", "valid call after a failed one: %s", oname(o));
  } else if (sim::chance(1, 2)) {
    RefDiag ref; size_t dmax = rnd(1, 2); auto D = gen_covers(4, 6, 5, rnd(3, 6), dmax, ref); auto TD = bats::Nerve(D, dmax); int deg = sim::chance(1, 2) ? 0 : rnd(2, 4) * (sim::chance(1, 2) ? 1 : -1); sim_desc("degree %d ", deg); uint64_t in = dg(TD);
    int o = outcome([&] { sim::Sys s; bats::DGLinearFunctor<MT<F3>>(TD, deg); }); need(o == 3, "error-not-reported", "%s with degree %d", oname(o), deg); need(dg(TD) == in, "input-changed", "the input diagram changed"); sim_probe("degree-refused");
    sim_set_threads(1 + sim_spick(16)); int good = sim::chance(1, 2) ? 1 : -1; o = outcome([&] { sim::Sys s; bats::DGLinearFunctor<MT<F3>>(TD, good); }); need(o == 0, "spurious-exception", "valid call after a failed one: %s", oname(o));
  } else {
    Pts P = gen_points(1, 6); auto X = dataset(P); double rho = rnd(1, 8) * 0.5, eta = rnd(1, 8) * 0.5; sim_desc("rho %g eta %g ", rho, eta);
    int o = outcome([&] { sim::Sys s; with_metric(P.metric, [&](auto m) { bats::OscillatingRipsZigzagSets(X, m, rho, eta); return 0; }); }); need(o == (rho < eta ? 3 : 0), "error-not-reported", "%s with multipliers %g and %g", oname(o), rho, eta); if (o) sim_probe("multipliers-refused");
    o = outcome([&] { sim::Sys s; with_metric(P.metric, [&](auto m) { bats::OscillatingRipsZigzagSets(X, m, std::max(rho, eta), std::min(rho, eta)); return 0; }); }); need(o == 0, "spurious-exception", "valid call: %s", oname(o));
  }
}
