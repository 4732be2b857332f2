#include "filt.hpp"
// Histories of updates of reduced graded spaces of either degree against recomputation on an independent description.
using namespace flt;
template <class F> using DG = bats::ReducedFilteredDGVectorSpace<double, MT<F>>;

static void quiet() { std::cout.setstate(std::ios::failbit); }
// differential times basis = reduced matrix in the current order, basis invertible upper triangular, pivots and homology indices as they should be
template <class F> void check_dg(const RF& f, const DG<F>& r, bool augmented, const char* what) {
  sim::Off o; use_field<F>(); int deg = r.RC.degree; size_t d = f.maxdim(); if (!augmented) check_pairs<F>(f, r, deg == 1, what); else check_order(f, r.perm, deg == 1, what);
  need(r.val == f.val, "wrong-values", "%s: stored values differ from the filtration's", what); auto& RC = r.RC; need(RC.R.size() == d + 2 && RC.U.size() == d + 2 && RC.p2c.size() == d + 2 && RC.I.size() == d + 2, "bad-factorization", "%s: wrong number of matrices", what);
  std::vector<M> D(d + 2); for (size_t k = 1; k <= d; k++) { D[k] = bd_matrix(f, k, r.perm[k - 1], r.perm[k]); if (deg == 1) D[k] = tr(D[k]); }
  size_t a = augmented; if (deg == -1) { D[0] = M(a, f.n(0)); D[d + 1] = M(f.n(d), 0); } else { D[0] = M(f.n(0), a); D[d + 1] = M(0, f.n(d)); } for (size_t i = 0; i < D[0].r; i++) for (size_t j = 0; j < D[0].c; j++) D[0](i, j) = mk(1);
  for (size_t k = 0; k <= d + 1; k++) {
    M R = dense<F>(RC.R[k], what), U = dense<F>(RC.U[k], what); size_t n = D[k].c; need(R.r == D[k].r && R.c == n, "bad-factorization", "%s: reduced matrix %zu is %zux%zu instead of %zux%zu", what, k, R.r, R.c, D[k].r, n); need(U.r == n && U.c == n, "bad-factorization", "%s: basis %zu is %zux%zu for %zu cells", what, k, U.r, U.c, n);
    for (size_t j = 0; j < n; j++) for (size_t i = j; i < n; i++) need(i == j ? !zero(U(i, j)) : zero(U(i, j)), "bad-factorization", "%s: basis %zu is not invertible upper triangular: %s", what, k, orc::show(U).c_str());
    M want = D[k] * U; // sign conventions of the boundary may differ by an orientation per dimension
    bool same = deg == -1 ? same_boundary(R, want, k) : same_boundary(tr(R), tr(want), k); need(same, "bad-factorization", "%s: differential %zu times the basis is %s but the reduced matrix is %s", what, k, orc::show(want).c_str(), orc::show(R).c_str());
    std::vector<size_t> low(R.r, bats::NO_IND); for (size_t j = 0; j < R.c; j++) for (size_t i = R.r; i-- > 0;) if (!zero(R(i, j))) { need(low[i] == bats::NO_IND, "bad-factorization", "%s: columns %zu and %zu of matrix %zu share a pivot", what, low[i], j, k); low[i] = j; break; }
    need(RC.p2c[k].size() == R.r, "bad-factorization", "%s: %zu recorded pivots for %zu rows of matrix %zu", what, RC.p2c[k].size(), R.r, k); for (size_t i = 0; i < R.r; i++) need(RC.p2c[k][i] == low[i], "bad-factorization", "%s: recorded pivot of row %zu of matrix %zu is wrong", what, i, k);
  }
  for (size_t k = 0; k <= d; k++) { size_t c = deg == -1 ? k : k + 1, b = deg == -1 ? k + 1 : k; std::vector<size_t> want; for (size_t j = 0; j < f.n(k); j++) if (RC.R[c][j].nnz() == 0 && RC.p2c[b][j] == bats::NO_IND) want.push_back(j); need(RC.I[c] == want, "wrong-indices", "%s: homology indices of dimension %zu are wrong", what, k); }
  if (augmented) { auto up = upward(r.perm, deg == 1); auto want = ref_pairs(f, up); if (f.n(0)) { auto& v = want[0]; size_t first = up[0][0]; for (auto it = v.begin(); it != v.end(); ++it) if (it->b == first) { need(it->d < 0, "harness", "the first vertex dies"); v.erase(it); break; } } for (size_t k = 0; k <= d; k++) same_pairs(to_pr(r.persistence_pairs(k), k), want[k], k, what); }
}
template <class F> DG<F> start(const bats::FilteredDGVectorSpace<double, MT<F>>& C, std::string& what) {
  using namespace bats; sim::Sys s; switch (sim::pick(6)) { case 0: case 1: what = "default"; return DG<F>(C); case 2: what = "standard with basis"; return DG<F>(C, standard_reduction_flag(), compute_basis_flag()); case 3: what = "extra with basis"; return DG<F>(C, extra_reduction_flag(), compute_basis_flag()); case 4: what = "extra, clearing with basis"; return DG<F>(C, extra_reduction_flag(), clearing_flag(), compute_basis_flag()); default: what = "clearing with basis"; return DG<F>(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()); }
}
// kind 0: value updates only; 1: UpdateInfo2; 2: Update_info (coefficients modulo 2)
template <class F, int kind, class Cx> void history(RF f, const std::function<RF(const RF&)>& next, Cx (*make)(const RF&), int spread, bool augmented = false) {
  quiet(); use_field<F>(); int deg = sim::pick(2) ? 1 : -1; std::string what; bats::Filtration<double, Cx> Fl(make(f), f.val); DG<F> R; sim_desc("degree %d: %s ", deg, show(f).c_str());
  { bats::FilteredDGVectorSpace<double, MT<F>> C; { sim::Sys s; C = deg == -1 && !augmented && sim::chance(1, 2) ? bats::FilteredDGVectorSpace<double, MT<F>>(Fl) : bats::FilteredDGVectorSpace<double, MT<F>>(Fl, deg, augmented); } R = start<F>(C, what); } sim_desc("(start %s) ", what.c_str()); check_dg<F>(f, R, augmented, what.c_str()); int n = 1 + (int) sim::pick(5);
  for (int i = 0; i < n; i++) {
    if (kind == 0 || sim::chance(1, 3)) { revalue(f, spread); what = "value update"; sim_desc("| values: %s", show(f).c_str()); { sim::Sys s; R.update_filtration(f.val); } Fl.update_filtration(f.val); sim_probe("value-update"); }
    else if constexpr (kind > 0) {
      RF g = next(f); bats::Filtration<double, Cx> Gl(make(g), g.val);
      if constexpr (kind == 1) { sim_desc("| update: %s", show(g).c_str()); what = "update"; sim::Sys s; bats::UpdateInfo2 UI(Fl, Gl); R.update_basis(UI); }
      else { int fl = sim::pick(6); what = fl == 4 ? "general update with clearing" : "general update"; sim_desc("| %s %d: %s", what.c_str(), fl, show(g).c_str()); sim::Sys s; auto UI = bats::Update_info(Fl, Gl); switch (fl) { case 0: case 1: R.update_filtration_general(UI); break; case 2: R.update_filtration_general(UI, bats::standard_reduction_flag()); break; case 3: R.update_filtration_general(UI, bats::extra_reduction_flag()); break; default: R.update_filtration_general_clearing(UI, bats::standard_reduction_flag()); } }
      sim_probe("general-update"); if (g.n(0) > f.n(0)) sim_probe("vertices-added"); if (g.n(0) < f.n(0)) sim_probe("vertices-removed"); if (!g.n(0)) sim_probe("emptied"); f = g; Fl = Gl;
    }
    what += " (step " + std::to_string(i + 1) + ")"; check_dg<F>(f, R, augmented, what.c_str());
  }
}
template <class F, int kind> void simplicial_history() { int nv = rnd(2, 6), sp = rnd(2, 8); auto f = gen_simplicial(nv, rnd(1, 5), rnd(0, 3), sp); history<F, kind, bats::SimplicialComplex>(f, [=](const RF& g) { return next_filtration(g, nv, sp); }, mk_simplicial, sp); }
SIM_SCENARIO(H02, info2, 3) { swarm_env(); switch (pick_field(4, 3)) { case 0: simplicial_history<F2, 1>(); break; case 1: simplicial_history<F3, 1>(); break; case 2: simplicial_history<F5, 1>(); break; default: simplicial_history<FQ, 1>(); } }
SIM_SCENARIO(H02, general, 3) { swarm_env(); simplicial_history<F2, 2>(); }
template <class F> void values() {
  int sp = rnd(2, 8); auto no = [](const RF& g) { return g; }; bool aug = sim::chance(1, 3);
  switch (sim::pick(4)) { case 0: case 1: history<F, 0, bats::SimplicialComplex>(gen_simplicial(rnd(1, 7), rnd(1, 6), rnd(0, 3), sp), no, mk_simplicial, sp, aug); break; case 2: history<F, 0, bats::CubicalComplex>(gen_cubical(rnd(1, 3), rnd(1, 3), 3), no, mk_cubical, sp, aug); break; default: history<F, 0, bats::CellComplex>(gen_cells(rnd(1, 3), rnd(1, 5)), no, mk_cells, sp); }
}
SIM_SCENARIO(H02, values, 2) { swarm_env(); switch (pick_field(4, 3)) { case 0: values<F2>(); break; case 1: values<F3>(); break; case 2: values<F5>(); break; default: values<FQ>(); } }
// the unreduced graded space follows value updates too
template <class F> void unreduced() {
  quiet(); use_field<F>(); int sp = rnd(2, 8), deg = sim::pick(2) ? 1 : -1; auto f = gen_simplicial(rnd(1, 6), rnd(1, 5), rnd(0, 3), sp); auto Fl = filtration(f); bats::FilteredDGVectorSpace<double, MT<F>> C(Fl, deg); int n = rnd(1, 4); sim_desc("degree %d: %s ", deg, show(f).c_str());
  for (int i = 0; i < n; i++) { revalue(f, sp); sim_desc("| values: %s", show(f).c_str()); { sim::Sys s; C.update_filtration(f.val); } check_order(f, C.perm, deg == 1, "updated filtered space"); for (size_t k = 1; k <= f.maxdim(); k++) { M got = dense<F>(C.complex().differential[k], "differential"), want = bd_matrix(f, k, C.perm[k - 1], C.perm[k]); if (deg == 1) got = tr(got); need(same_boundary(got, want, k), "wrong-differential", "after update %d differential %zu is %s expected %s", i, k, orc::show(got).c_str(), orc::show(want).c_str()); } }
  DG<F> R; { sim::Sys s; R = DG<F>(C); } check_dg<F>(f, R, false, "reduction of an updated graded space");
}
SIM_SCENARIO(H02, unreduced, 1) { swarm_env(); if (sim::chance(1, 2)) unreduced<F2>(); else unreduced<F3>(); }
