#include "diagrams.hpp"
#include "modules.hpp"
#include "digest.hpp"
#include <cstring>
// The same computation under two environments: threads, interleaving, heap contents and addresses, clock.
static uint64_t bits(double x) { uint64_t b; memcpy(&b, &x, 8); return b; }
static uint64_t dg(const bats::DataSet<double>& X) { uint64_t h = sim_mix(X.size(), X.dim()); for (size_t i = 0; i < X.size(); i++) for (size_t j = 0; j < X.dim(); j++) h = sim_mix(h, bits(X(i, j))); return h; }
static uint64_t dg(const bats::Matrix<double>& X) { uint64_t h = sim_mix(X.nrow(), X.ncol()); for (size_t i = 0; i < X.nrow(); i++) for (size_t j = 0; j < X.ncol(); j++) h = sim_mix(h, bits(X(i, j))); return h; }
static uint64_t dg(double x) { return bits(x); }
static uint64_t dg(const std::vector<double>& v) { uint64_t h = 51; for (auto x : v) h = sim_mix(h, bits(x)); return h; }
template <class F> uint64_t dg(const SparseVector<F, size_t>& v) { uint64_t h = 41; for (auto it = v.nzbegin(); it != v.nzend(); ++it) { h = sim_mix(h, it->ind); h = sim_mix(h, (uint64_t) toS(it->val).n); } return h; }
template <class A_, class B_> uint64_t dg(const std::tuple<A_, B_>& t) { return sim_mix(dg(std::get<0>(t)), dg(std::get<1>(t))); }
static uint64_t dg(const std::vector<bats::PersistencePair<double>>& p) { uint64_t h = 40; for (auto& x : p) { h = sim_mix(h, x.dim); h = sim_mix(h, x.birth_ind); h = sim_mix(h, x.death_ind); h = sim_mix(h, bits(x.birth)); h = sim_mix(h, bits(x.death)); } return h; }
template <class C> uint64_t dg(const bats::Filtration<double, C>& F_) { uint64_t h = dg(F_.complex()); for (auto& v : F_.vals()) h = sim_mix(h, dg(v)); return h; }
static void env(int t) { // where the computation runs
  static const int th[] = {1, 2, 3, 4, 5, 8, 16}; sim_set_threads(t ? th[sim_spick(7)] : 1); sim_heap_fill((int) sim_fpick(5), sim_fpick(1u << 30));
  sim_clock_set((int64_t) sim_fpick(1u << 30) * 4000000000ll - (int64_t) 2e18 * (sim_fpick(4) == 3)); sim_clock_jumpy(sim_fpick(3));
}
static std::vector<char*> junk; // shifts addresses and leaves the previous contents behind
static void churn() { sim::Sys s; for (int i = (int) sim_fpick(12); i > 0; i--) { size_t n = 8 + sim_fpick(600); char* p = new char[n]; memset(p, 0x5a + i, n); if (sim_fpick(2)) delete[] p; else junk.push_back(p); } }
static void unchurn() { sim::Sys s; for (auto p : junk) delete[] p; junk.clear(); }
static void same(const std::function<uint64_t()>& op, const char* what) {
  sim_desc("op=%s ", what); int reps = 2 + (int) sim::pick(2); uint64_t first = 0;
  for (int r = 0; r < reps; r++) { churn(); env(r); uint64_t h = op(); if (r == 0) { first = h; sim_note(h); } else need(h == first, "not-reproducible", "%s: run %d gives another result than run 0", what, r); if (r) sim_probe("repeated-under-other-environment"); }
  unchurn(); sim_clock_jumpy(0);
}
#define OP(expr) [&]() -> uint64_t { sim::Sys s; auto R = (expr); sim::Off o; return dg(R); }
template <class F> uint64_t dgr(const bats::ReducedChainComplex<MT<F>>& C) { uint64_t h = dg(C); for (size_t k = 0; k <= C.maxdim(); k++) { h = sim_mix(h, dg(C.R[k])); if (k < C.U.size()) h = sim_mix(h, dg(C.U[k])); h = sim_mix(h, dg(C.I[k])); h = sim_mix(h, dg(C.p2c[k])); } return h; }
SIM_SCENARIO(R01, diagrams, 3) {
  zoom(); RefDiag ref; size_t dmax = rnd(1, 2); auto D = gen_covers(4, 5, 4, rnd(3, 5), dmax, ref); auto TD = bats::Nerve(D, dmax); auto CD = bats::ChainFunctor<MT<F3>>(TD);
  switch (sim::pick(6)) { case 0: same(OP(bats::Nerve(D, dmax)), "Nerve"); break; case 1: same(OP(bats::ChainFunctor<MT<F3>>(TD)), "ChainFunctor"); break; case 2: same(OP(bats::Hom<MT<F3>>(CD, (size_t) 0)), "Hom 0"); break; case 3: same(OP(bats::Hom<MT<F3>>(CD, true)), "Hom all"); break;
    case 4: { auto GD = bats::DGLinearFunctor<MT<F3>>(TD, 1); same(OP(bats::Hom<MT<F3>>(GD, (size_t) 0)), "graded Hom"); break; } default: { int d = sim::chance(1, 2) ? 1 : -1; same(OP(bats::DGLinearFunctor<MT<F2>>(TD, d)), "DGLinearFunctor"); } }
}
SIM_SCENARIO(R01, barcode, 2) { zoom(); use_field<F3>(); Bars b; size_t n = rnd(2, zm(14)); Zig z = interval_module(n, rnd(1, 5), rnd(0, 3), b, sim::pick(4)); auto D = zig_diagram<F3, size_t>(z); for (auto& x : D.node) x = 0; switch (sim::pick(3)) { case 0: same(OP(bats::barcode(D, 0)), "barcode"); break; case 1: same(OP(bats::barcode(D, 0, bats::flags::leftward())), "leftward barcode"); break; default: same(OP(bats::barcode(D, 0, bats::flags::rightward())), "rightward barcode"); } }
SIM_SCENARIO(R01, points, 4) {
  zoom(); Pts P = gen_points(2, 8); auto X = dataset(P); size_t k = 1 + sim::pick(P.p.size()), i0 = sim::pick(P.p.size()); double r = rnd(1, 8) * 0.5; std::set<std::vector<double>> dist(P.p.begin(), P.p.end()); size_t kd = std::min(k, dist.size());
  switch (sim::pick(11)) {
    case 0: same(OP(bats::neighborhoods(X, X, bats::L1Dist(), r)), "neighbourhoods"); break; case 1: same(OP(bats::neighborhoods(X, X, bats::LInfDist(), k)), "nearest neighbours"); break;
    case 2: same(OP(bats::landmark_cover(X, X, bats::Euclidean(), k)), "landmark cover"); break; case 3: same(OP(bats::landmark_eps_cover(X, X, bats::Euclidean(), r)), "landmark eps cover"); break;
    case 4: same(OP(bats::greedy_landmarks(X, kd, bats::Euclidean(), i0)), "greedy landmarks"); break; case 5: same(OP(bats::hausdorff_landmarks(X, r, bats::Euclidean(), i0)), "hausdorff landmarks"); break;
    case 6: same(OP(bats::greedy_landmarks_hausdorff(X, bats::Euclidean(), i0)), "greedy landmark order"); break; case 7: same(OP(bats::random_landmarks(X, k)), "random landmarks"); break;
    case 8: same(OP(bats::RipsFiltration<bats::SimplicialComplex>(X, bats::Euclidean(), r, 2)), "Rips filtration"); break; case 9: same(OP((bats::RipsComplex<bats::SimplicialComplex>(X, bats::Euclidean(), r, 2))), "Rips complex"); break;
    default: same(OP(bats::approx_center(X, bats::Euclidean())), "centre"); }
}
template <class F> void reductions() {
  zoom(); use_field<F>(); Pts P = gen_points(2, 7, 20); P.metric = 0; auto X = dataset(P); auto Fl = bats::RipsFiltration<bats::SimplicialComplex>(X, bats::Euclidean(), (double) rnd(1, 6), 2); auto FC = bats::FilteredChainComplex<double, MT<F>>(Fl); typedef bats::ReducedFilteredChainComplex<double, MT<F>> RF;
  auto run = [&](auto... fl) { return [&, fl...]() -> uint64_t { sim::Sys s; RF R(FC, fl...); uint64_t h = 0; for (size_t k = 0; k <= R.maxdim(); k++) { auto p = R.persistence_pairs(k); sim::Off o; h = sim_mix(h, dg(p)); } sim::Off o; return sim_mix(h, dgr(R.RC)); }; };
  switch (sim::pick(7)) { case 0: same(run(), "reduction"); break; case 1: same(run(bats::standard_reduction_flag(), bats::clearing_flag()), "clearing"); break; case 2: same(run(bats::standard_reduction_flag(), bats::compression_flag()), "compression"); break; case 3: same(run(bats::extra_reduction_flag(), bats::compute_basis_flag()), "extra reduction"); break; case 4: same(run(bats::divide_conquer_flag()), "divide and conquer"); break;
    case 5: same([&]() -> uint64_t { sim::Sys s; bats::FilteredDGVectorSpace<double, MT<F>> D(Fl, 1); bats::ReducedFilteredDGVectorSpace<double, MT<F>> R(D); uint64_t h = 0; for (size_t k = 0; k <= R.maxdim(); k++) { auto p = R.persistence_pairs(k); sim::Off o; h = sim_mix(h, dg(p)); } return h; }, "cohomology"); break;
    default: same([&]() -> uint64_t { sim::Sys s; RF R(FC); uint64_t h = 0; for (size_t k = 0; k <= R.maxdim(); k++) for (auto& p : R.persistence_pairs(k)) { auto v = R.representative(p); sim::Off o; h = sim_mix(h, dg(v)); } return h; }, "representatives"); }
}
SIM_SCENARIO(R01, reductions, 3) { switch (sim::pick(3)) { case 0: reductions<F2>(); break; case 1: reductions<F3>(); break; default: reductions<F5>(); } }
SIM_SCENARIO(R01, big_reduction, 1) { use_field<F3>(); size_t r = rnd(2, 8), c = 260 + sim::pick(200), blk = 1 + sim::pick(10); uint64_t h = sim::pick(1u << 16); M A(r, c); for (size_t j = 0; j < c; j++) { h = sim_mix(h, j); A(h % r, j) = mk(1); A((h >> 8) % r, j) = mk(2); if (h & 64) A((h >> 16) % r, j) = mk(1); } auto S_ = sparse<F3>(A); bool dc = sim::chance(1, 2);
  same([&]() -> uint64_t { MT<F3> B = S_; uint64_t e = 0; { sim::Sys s; if (dc) { auto p = bats::reduce_matrix(B, bats::divide_conquer_flag()); sim::Off o; e = dg(p); } else bats::partial_reduce_parallel(B, blk); } return sim_mix(e, dg(B)); }, dc ? "divide and conquer" : "parallel pre-reduction"); }
SIM_SCENARIO(R01, levelset, 1) { zoom(); int a = rnd(1, zm(3)), b = rnd(1, zm(2, 5)), c = rnd(1, zm(2, 4)); std::vector<std::vector<std::vector<double>>> img(a, std::vector<std::vector<double>>(b, std::vector<double>(c))); for (auto& x : img) for (auto& y : x) for (auto& v : y) v = rnd(0, 4) * 0.5; double t1 = rnd(1, 4) * 0.5; same([&]() -> uint64_t { sim::Sys s; auto Z = bats::zigzag_toplex(img); auto D = bats::zigzag_levelsets(Z, 0.5, 0.0, t1); sim::Off o; return sim_mix(dg(Z.complex()), dg(D)); }, "level sets"); }
// ---- generators
template <class F> void matrix_kind(const MT<F>& A, size_t m, size_t n, int maxval) {
  need(A.nrow() == m && A.ncol() == n, "wrong-size", "random matrix is %zux%zu, asked for %zux%zu", A.nrow(), A.ncol(), m, n); M D = dense<F>(A, "random matrix");
  for (auto& x : D.a) if (!zero(x)) need(x.n >= 1 && x.n <= maxval && x.d == 1, "wrong-value", "random entry %s outside 1..%d", str(x).c_str(), maxval);
}
static void sphere_kind(const bats::DataSet<double>& X, size_t n, size_t d) { need(X.size() == n && X.dim() == d, "wrong-size", "sphere sample is %zux%zu", X.size(), X.dim()); for (size_t i = 0; i < n; i++) { double q = 0; for (size_t j = 0; j < d; j++) q += X(i, j) * X(i, j); need(std::fabs(q - 1) < 1e-9, "wrong-value", "point %zu has squared norm %g", i, q); } }
static void cube_kind(const bats::DataSet<double>& X, size_t n, size_t d) { need(X.size() == n && X.dim() == d, "wrong-size", "cube sample is %zux%zu", X.size(), X.dim()); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < d; j++) need(X(i, j) >= 0 && X(i, j) <= 1, "wrong-value", "coordinate %g outside the unit cube", X(i, j)); }
static void vector_kind(const VT<F5>& v, size_t n, int mv) { long last = -1; for (auto it = v.nzbegin(); it != v.nzend(); ++it) { need(it->ind < n && (long) it->ind > last && toS(it->val).n >= 1 && toS(it->val).n <= mv, "wrong-value", "random vector entry %zu:%d", it->ind, (int) toS(it->val).n); last = it->ind; } }
static void noise_kind(const bats::DataSet<double>& X, const bats::DataSet<double>& Y, double lo, double hi, const char* what) { need(X.size() == Y.size() && X.dim() == Y.dim(), "wrong-size", "%s noise changes the size", what); for (size_t i = 0; i < X.size(); i++) for (size_t j = 0; j < X.dim(); j++) { double e = Y(i, j) - X(i, j); need(e >= lo - 1e-9 && e <= hi + 1e-9, "wrong-value", "%s noise %g", what, e); } }
// no two generated coordinates should coincide: every entry gets a number of its own
static void all_differ(std::vector<double> v, const char* what) { std::sort(v.begin(), v.end()); for (size_t i = 1; i < v.size(); i++) need(v[i] != v[i - 1], "wrong-value", "%s: two entries get the same number %g", what, v[i]); }
static std::vector<double> diff(const bats::DataSet<double>& X, const bats::DataSet<double>& Y) { std::vector<double> r; for (size_t i = 0; i < X.size(); i++) for (size_t j = 0; j < X.dim(); j++) r.push_back(Y(i, j) - X(i, j)); return r; }
static std::vector<double> coords(const bats::DataSet<double>& X) { std::vector<double> r; for (size_t i = 0; i < X.size(); i++) for (size_t j = 0; j < X.dim(); j++) r.push_back(X(i, j)); return r; }
SIM_SCENARIO(R01, shapes, 1) { // generators without randomness
  env(1); churn(); size_t n = rnd(2, 12), m = rnd(1, 12); double a = rnd(-4, 4) * 0.75, b = a + rnd(1, 8) * 0.5, r = rnd(1, 6) * 0.5; sim_desc("interval %g..%g in %zu, circle of radius %g in %zu ", a, b, n, r, m); bats::DataSet<double> I, C, Z, Y; { sim::Sys s; I = bats::interval(a, b, n); C = bats::circle(r, m); Z = bats::product_space(I, C); Y = bats::gen_cylinder(n, m, r); }
  need(I.size() == n && I.dim() == 1 && C.size() == m && C.dim() == 2 && Z.size() == n * m && Z.dim() == 3 && Y.size() == n * m && Y.dim() == 3, "wrong-size", "interval %zux%zu, circle %zux%zu, product %zux%zu, cylinder %zux%zu", I.size(), I.dim(), C.size(), C.dim(), Z.size(), Z.dim(), Y.size(), Y.dim());
  for (size_t i = 0; i < n; i++) need(std::fabs(I(i, 0) - (a + (b - a) * i / (n - 1))) < 1e-9, "wrong-value", "point %zu of the interval is %g", i, I(i, 0));
  for (size_t i = 0; i < m; i++) need(std::fabs(C(i, 0) - r * std::cos(2 * M_PI * i / m)) < 1e-9 && std::fabs(C(i, 1) - r * std::sin(2 * M_PI * i / m)) < 1e-9, "wrong-value", "point %zu of the circle is (%g,%g)", i, C(i, 0), C(i, 1));
  for (size_t i = 0; i < n * m; i++) { need(Z(i, 0) == I(i / m, 0) && Z(i, 1) == C(i % m, 0) && Z(i, 2) == C(i % m, 1), "wrong-value", "point %zu of the product is (%g,%g,%g)", i, Z(i, 0), Z(i, 1), Z(i, 2)); need(std::fabs(Y(i, 0) - (double) (i / m) / (n - 1)) < 1e-9 && Y(i, 1) == C(i % m, 0) && Y(i, 2) == C(i % m, 1), "wrong-value", "point %zu of the cylinder is (%g,%g,%g)", i, Y(i, 0), Y(i, 1), Y(i, 2)); }
  Pts P = gen_points(1, 5), Q = gen_points(1, 4); auto A = dataset(P), B = dataset(Q); bats::DataSet<double> W; { sim::Sys s; W = bats::product_space(A, B); } need(W.size() == A.size() * B.size() && W.dim() == A.dim() + B.dim(), "wrong-size", "product is %zux%zu", W.size(), W.dim()); for (size_t i = 0; i < W.size(); i++) for (size_t j = 0; j < W.dim(); j++) { double x = j < A.dim() ? A(i / B.size(), j) : B(i % B.size(), j - A.dim()); need(W(i, j) == x, "wrong-value", "coordinate %zu of point %zu of the product is %g instead of %g", j, i, W(i, j), x); }
  sim_probe("shapes"); unchurn(); sim_clock_jumpy(0);
}
SIM_SCENARIO(R01, seeded, 3) {
  unsigned seed = sim::pick(1u << 20); size_t n = rnd(1, 9), d = rnd(1, 4); double p = sim::pick(11) * 0.1; int mv = rnd(1, 4);
  switch (sim::pick(7)) {
    case 0: same([&]() -> uint64_t { bats::DataSet<double> X; { sim::Sys s; X = bats::sample_sphere<double>(d, n, seed); } sphere_kind(X, n, d); if (d > 1) all_differ(coords(X), "seeded sphere"); return dg(X); }, "seeded sphere"); break; case 1: same([&]() -> uint64_t { bats::DataSet<double> X; { sim::Sys s; X = bats::sample_cube<double>(d, n, seed); } cube_kind(X, n, d); all_differ(coords(X), "seeded cube"); return dg(X); }, "seeded cube"); break;
    case 2: { use_field<F5>(); same([&]() -> uint64_t { sim::Sys s; std::default_random_engine g(seed); auto A = MT<F5>::random(n, d, p, mv, g); auto B = MT<F5>::random(d, n, p, mv, g); sim::Off o; matrix_kind<F5>(A, n, d, mv); matrix_kind<F5>(B, d, n, mv); return sim_mix(dg(A), dg(B)); }, "seeded matrices"); break; }
    case 3: { use_field<F5>(); same([&]() -> uint64_t { sim::Sys s; std::default_random_engine g(seed); auto v = VT<F5>::random(n, p, mv, g); sim::Off o; vector_kind(v, n, mv); return dg(v); }, "seeded vector"); break; }
    case 4: { Pts P = gen_points(1, 6); same([&]() -> uint64_t { auto Y = dataset(P), X = dataset(P); { sim::Sys s; bats::add_normal_noise(Y, seed, 0.5, 2.0); } noise_kind(X, Y, 0.5 - 30, 0.5 + 30, "seeded normal"); auto Z = dataset(P); { sim::Sys s; bats::add_uniform_noise(Z.data, seed + 1, -1.0, 3.0); } noise_kind(X, Z, -1, 3, "seeded uniform"); all_differ(diff(X, Z), "seeded uniform noise"); return sim_mix(dg(Y), dg(Z)); }, "seeded noise"); break; }
    case 5: { size_t k = 1 + sim::pick(n); same([&]() -> uint64_t { sim::Sys s; auto v = bats::util::random_subset(n, k); sim::Off o; need(v.size() == k && (v.empty() || *v.rbegin() < n), "wrong-value", "random subset of %zu of %zu", k, n); return dg(v); }, "random subset"); break; }
    default: same([&]() -> uint64_t { sim::Sys s; auto v = bats::util::rand_perm(n); sim::Off o; std::set<size_t> q(v.begin(), v.end()); need(v.size() == n && q.size() == n && *q.rbegin() < n, "wrong-value", "not a permutation of %zu", n); return dg(v); }, "random permutation"); }
}
SIM_SCENARIO(R01, unseeded, 3) {
  env(1); churn(); size_t n = rnd(1, 9), d = rnd(1, 4); int mv = rnd(1, 4); double p = sim::pick(11) * 0.1; bats::DataSet<double> X; sim_desc("n=%zu d=%zu p=%g maxval=%d ", n, d, p, mv);
  switch (sim::pick(6)) {
    case 0: { { sim::Sys s; X = bats::sample_sphere<double>(d, n); } sphere_kind(X, n, d); break; }
    case 1: { { sim::Sys s; X = bats::sample_cube<double>(d, n); } cube_kind(X, n, d); break; }
    case 2: { use_field<F5>(); MT<F5> A; { sim::Sys s; A = MT<F5>::random(n, d, p, mv); } matrix_kind<F5>(A, n, d, mv); break; }
    case 3: { use_field<F5>(); VT<F5> v; { sim::Sys s; v = VT<F5>::random(n, p, mv); } vector_kind(v, n, mv); break; }
    case 4: { Pts P = gen_points(1, 6); X = dataset(P); auto Y = dataset(P); { sim::Sys s; bats::add_uniform_noise(Y, -0.25, 0.5); } noise_kind(X, Y, -0.25, 0.5, "uniform"); auto Z = dataset(P); { sim::Sys s; bats::add_normal_noise(Z, 0.0, 1.0); } noise_kind(X, Z, -15, 15, "normal"); break; }
    default: { { sim::Sys s; X = bats::gen_cylinder(n + 1, d); } need(X.size() == (n + 1) * d && X.dim() == 3, "wrong-size", "cylinder is %zux%zu", X.size(), X.dim()); for (size_t i = 0; i < X.size(); i++) need(X(i, 0) >= -1e-9 && X(i, 0) <= 1 + 1e-9 && std::fabs(X(i, 1) * X(i, 1) + X(i, 2) * X(i, 2) - 1) < 1e-9, "wrong-value", "point %zu is off the cylinder", i); }
  }
  sim_probe("unseeded"); unchurn(); sim_clock_jumpy(0);
}
