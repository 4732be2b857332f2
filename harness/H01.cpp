#include "filt.hpp"
// Histories of updates of a reduced filtered chain complex against recomputation on an independent description.
using namespace flt;
template <class F> bats::ReducedFilteredChainComplex<double, MT<F>> start(const bats::FilteredChainComplex<double, MT<F>>& C, std::string& what) {
  typedef bats::ReducedFilteredChainComplex<double, MT<F>> R; using namespace bats; sim::Sys s; switch (sim::pick(6)) { case 0: case 1: what = "default"; return R(C); case 2: what = "standard with basis"; return R(C, standard_reduction_flag(), compute_basis_flag()); case 3: what = "extra with basis"; return R(C, extra_reduction_flag(), compute_basis_flag()); case 4: what = "divide and conquer with basis"; return R(C, divide_conquer_flag(), compute_basis_flag()); default: what = "clearing with basis"; return R(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()); }
}
template <class F, bool general, class Cx> void history(RF f, const std::function<RF(const RF&)>& next, Cx (*make)(const RF&), int spread) {
  use_field<F>(); std::string what; bats::Filtration<double, Cx> Fl(make(f), f.val); bats::FilteredChainComplex<double, MT<F>> C; { sim::Sys s; C = bats::FilteredChainComplex<double, MT<F>>(Fl); } auto R = start<F>(C, what); sim_desc("start %s: %s ", what.c_str(), show(f).c_str());
  check_chain<F>(f, R, true, what.c_str()); check_factor<F>(f, R.RC, R.perm, what.c_str()); int n = 1 + (int) sim::pick(5);
  for (int i = 0; i < n; i++) {
    int op = sim::pick(general ? 10 : 6);
    if (op < 4) { revalue(f, spread); what = "value update"; sim_desc("| values: %s", show(f).c_str()); { sim::Sys s; R.update_filtration(f.val); } Fl.update_filtration(f.val); sim_probe("value-update"); }
    else if (op == 4) { what = "sparsify_basis"; sim_desc("| sparsify "); sim::Sys s; R.sparsify_basis(); }
    else if (op == 5) { what = "remove_extra_cycles"; sim_desc("| remove extra cycles "); sim::Sys s; R.remove_extra_cycles(); }
    else if constexpr (general) {
      RF g = next(f); sim_desc("| general: %s", show(g).c_str()); bats::Filtration<double, Cx> Gl(make(g), g.val); int fl = sim::pick(4); what = "general update";
      { sim::Sys s; auto UI = bats::Update_info(Fl, Gl); switch (fl) { case 0: case 1: R.update_filtration_general(UI); break; case 2: R.update_filtration_general(UI, bats::standard_reduction_flag()); break; default: R.update_filtration_general(UI, bats::extra_reduction_flag()); } }
      sim_probe("general-update"); if (g.n(0) > f.n(0)) sim_probe("vertices-added"); if (g.n(0) < f.n(0)) sim_probe("vertices-removed"); if (!g.n(0)) sim_probe("emptied"); f = g; Fl = Gl;
    }
    what += " (step " + std::to_string(i + 1) + ")"; check_chain<F>(f, R, true, what.c_str()); check_factor<F>(f, R.RC, R.perm, what.c_str()); need(R.val == f.val, "wrong-values", "%s: stored values differ from the filtration's", what.c_str());
  }
}
SIM_SCENARIO(H01, general, 5) { swarm_env(); int nv = rnd(2, 6), sp = rnd(2, 8); auto f = gen_simplicial(nv, rnd(1, 5), rnd(0, 3), sp); history<F2, true, bats::SimplicialComplex>(f, [=](const RF& g) { return next_filtration(g, nv, sp); }, mk_simplicial, sp); }
template <class F> void values() {
  int sp = rnd(2, 8); auto no = [](const RF& g) { return g; };
  switch (sim::pick(4)) { case 0: case 1: history<F, false, bats::SimplicialComplex>(gen_simplicial(rnd(1, 7), rnd(1, 6), rnd(0, 3), sp), no, mk_simplicial, sp); break; case 2: history<F, false, bats::CubicalComplex>(gen_cubical(rnd(1, 3), rnd(1, 3), 3), no, mk_cubical, sp); break; default: history<F, false, bats::CellComplex>(gen_cells(rnd(1, 3), rnd(1, 5)), no, mk_cells, sp); }
}
SIM_SCENARIO(H01, values, 3) { swarm_env(); switch (pick_field(4, 3)) { case 0: values<F2>(); break; case 1: values<F3>(); break; case 2: values<F5>(); break; default: values<FQ>(); } }
// the unreduced filtered complex follows value updates too
template <class F> void unreduced() {
  use_field<F>(); int sp = rnd(2, 8); auto f = gen_simplicial(rnd(1, 6), rnd(1, 5), rnd(1, 3), sp); auto Fl = filtration(f); bats::FilteredChainComplex<double, MT<F>> C(Fl); int n = rnd(1, 4); sim_desc("%s ", show(f).c_str());
  for (int i = 0; i < n; i++) { revalue(f, sp); sim_desc("| values: %s", show(f).c_str()); { sim::Sys s; C.update_filtration(f.val); } check_order(f, C.perm, false, "updated filtered complex"); for (size_t k = 1; k <= f.maxdim(); k++) { M got = dense<F>(C.complex().boundary[k], "boundary"), want = bd_matrix(f, k, C.perm[k - 1], C.perm[k]); need(same_boundary(got, want, k), "wrong-boundary", "after update %d the boundary in dimension %zu is %s expected %s", i, k, orc::show(got).c_str(), orc::show(want).c_str()); } }
  bats::ReducedFilteredChainComplex<double, MT<F>> R; { sim::Sys s; R = bats::ReducedFilteredChainComplex<double, MT<F>>(C); } check_chain<F>(f, R, true, "reduction of an updated filtered complex");
}
SIM_SCENARIO(H01, unreduced, 1) { swarm_env(); if (sim::chance(1, 2)) unreduced<F2>(); else unreduced<F3>(); }
// the update information itself, and the unreduced filtered complex brought up to date by it (coefficients modulo 2)
static size_t inversions(const std::vector<size_t>& p) { size_t n = 0; for (size_t i = 0; i < p.size(); i++) for (size_t j = i + 1; j < p.size(); j++) n += p[i] > p[j]; return n; }
template <class UI> void check_info(const UI& u, const RF& f, const RF& g) {
  sim::Off o; size_t top = g.maxdim(); need(u.max_dim == top && u.deletion_indices.size() == top + 1 && u.addition_indices.size() == top + 1 && u.permutations.size() == top + 1 && u.boundary_indices.size() == top + 1 && u.kendall_tau_dists.size() == top + 1, "wrong-info", "update information for %zu dimensions instead of %zu", u.max_dim + 1, top + 1);
  check_order(f, u.F_X_perms, false, "old order"); check_order(g, u.F_Y_perms, false, "new order"); need(u.F_Y_vals == g.val && u.F_X_vals == f.val, "wrong-info", "values differ");
  auto names = [](const RF& h, const std::vector<std::vector<size_t>>& p, size_t k) { std::vector<Spx> r; for (size_t i : p[k]) r.push_back(h.spx[k][i]); return r; }; auto at = [](const std::vector<Spx>& v, const Spx& s) { return (size_t) (std::find(v.begin(), v.end(), s) - v.begin()); };
  for (size_t k = 0; k <= top; k++) {
    auto x = names(f, u.F_X_perms, k), y = names(g, u.F_Y_perms, k), low = k ? names(g, u.F_Y_perms, k - 1) : std::vector<Spx>(); std::vector<size_t> del, ad, p; std::vector<Spx> stay; std::vector<std::set<size_t>> bd; for (size_t i = 0; i < x.size(); i++) if (at(y, x[i]) == y.size()) del.push_back(i); else stay.push_back(x[i]);
    for (size_t i = 0; i < y.size(); i++) if (at(x, y[i]) == x.size()) { ad.push_back(i); std::set<size_t> b; for (size_t q = 0; k && q < y[i].size(); q++) { Spx t = y[i]; t.erase(t.begin() + q); b.insert(at(low, t)); } bd.push_back(b); } else p.push_back(at(stay, y[i]));
    need(u.deletion_indices[k] == del, "wrong-info", "dimension %zu: deletions are %s instead of %s", k, orc::show(u.deletion_indices[k]).c_str(), orc::show(del).c_str()); need(u.addition_indices[k] == ad, "wrong-info", "dimension %zu: additions are %s instead of %s", k, orc::show(u.addition_indices[k]).c_str(), orc::show(ad).c_str());
    need(u.permutations[k] == p, "wrong-info", "dimension %zu: the permutation is %s instead of %s", k, orc::show(u.permutations[k]).c_str(), orc::show(p).c_str()); need(u.kendall_tau_dists[k] == inversions(p), "wrong-info", "dimension %zu: the Kendall-tau distance is %zu instead of %zu", k, u.kendall_tau_dists[k], inversions(p));
    if (k) { need(u.boundary_indices[k].size() == bd.size(), "wrong-info", "dimension %zu: %zu boundaries instead of %zu", k, u.boundary_indices[k].size(), bd.size()); for (size_t i = 0; i < bd.size(); i++) { auto& b = u.boundary_indices[k][i]; need(b.size() == bd[i].size() && std::set<size_t>(b.begin(), b.end()) == bd[i], "wrong-info", "dimension %zu: addition %zu has boundary %s", k, i, orc::show(b).c_str()); } }
  }
}
SIM_SCENARIO(H01, information, 2) {
  swarm_env(); use_field<F2>(); std::cout.setstate(std::ios::failbit); int nv = rnd(2, 6), sp = rnd(2, 8); auto f = gen_simplicial(nv, rnd(1, 5), rnd(0, 3), sp); auto Fl = filtration(f); bats::FilteredChainComplex<double, MT<F2>> C; { sim::Sys s; C = bats::FilteredChainComplex<double, MT<F2>>(Fl); } sim_desc("%s ", show(f).c_str()); int n = rnd(1, 4);
  for (int i = 0; i < n; i++) {
    RF g = sim::chance(1, 4) ? f : next_filtration(f, nv, sp); if (sim::chance(1, 4)) revalue(g, sp); sim_desc("| %s", show(g).c_str()); auto Gl = filtration(g); bool same_order = sim::chance(1, 8);
    { sim::Sys s; bats::Update_info<bats::Filtration<double, bats::SimplicialComplex>> u(Fl, Gl); { sim::Off o; check_info(u, f, g); } C.update_filtration_general(u); } (void) same_order;
    check_order(g, C.perm, false, "updated filtered complex"); need(C.vals() == g.val, "wrong-values", "the values are not those of the new filtration"); need(C.C.boundary.size() == g.bd.size(), "wrong-shape", "%zu boundary matrices", C.C.boundary.size());
    for (size_t k = 0; k <= g.maxdim(); k++) { M got = dense<F2>(C.complex().boundary[k], "boundary"), want = k ? bd_matrix(g, k, C.perm[k - 1], C.perm[k]) : M(1, g.n(0)); need(got == want, "wrong-boundary", "after update %d the boundary in dimension %zu is %s expected %s", i, k, orc::show(got).c_str(), orc::show(want).c_str()); }
    f = g; Fl = Gl;
  }
  bats::ReducedFilteredChainComplex<double, MT<F2>> R; { sim::Sys s; R = bats::ReducedFilteredChainComplex<double, MT<F2>>(C); } check_chain<F2>(f, R, true, "reduction of an updated filtered complex");
  // distances between orders
  std::vector<std::vector<size_t>> ps(1 + sim::pick(3)); size_t len = sim::pick(9); for (auto& p : ps) { for (size_t i = 0; i < len; i++) p.push_back(i); for (size_t i = len; i > 1; i--) if (sim::chance(2, 3)) std::swap(p[i - 1], p[sim::pick(i)]); }
  std::vector<size_t> d; size_t both = 0; { sim::Sys s; d = bats::Kendall_tau(ps); both = bats::Kendall_tau(ps[0], ps.back()); need(bats::Kendall_tau(ps[0]) == d[0], "wrong-distance", "the distances of one order differ"); } need(d.size() == ps.size(), "wrong-distance", "%zu distances", d.size()); for (size_t i = 0; i < ps.size(); i++) need(d[i] == inversions(ps[i]), "wrong-distance", "distance of %s is %zu", orc::show(ps[i]).c_str(), d[i]);
  std::vector<size_t> pa(len), pb(len), rel(len); for (size_t i = 0; i < len; i++) { pa[ps[0][i]] = i; pb[ps.back()[i]] = i; } for (size_t i = 0; i < len; i++) rel[pa[i]] = pb[i]; size_t want = inversions(rel); need(both == want, "wrong-distance", "distance between %s and %s is %zu instead of %zu", orc::show(ps[0]).c_str(), orc::show(ps.back()).c_str(), both, want);
}
