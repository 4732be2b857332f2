#include "filt.hpp"
// Persistence pairs of every algorithm against elimination on an independent description of the complex.
using namespace flt;
template <class F, class Cx> void all_chain(const RF& f, const bats::Filtration<double, Cx>& Fl, bool more) {
  typedef bats::ReducedFilteredChainComplex<double, MT<F>> RC; bats::FilteredChainComplex<double, MT<F>> C; { sim::Sys s; C = bats::FilteredChainComplex<double, MT<F>>(Fl); }
  using namespace bats; typedef standard_reduction_flag St; typedef extra_reduction_flag Ex; typedef divide_conquer_flag Dq; typedef compute_basis_flag B;
#define RUN(basis, what, ...) do { RC r; { sim::Sys s; r = RC(C, ##__VA_ARGS__); } check_chain<F>(f, r, basis, what); if (basis && more) { { sim::Sys s; r.remove_extra_cycles(); } check_chain<F>(f, r, true, what " then remove_extra_cycles"); { sim::Sys s; r.sparsify_basis(); } check_chain<F>(f, r, true, what " then sparsify_basis"); } } while (0)
  switch (sim::pick(17)) {
    case 0: RUN(true, "default"); break; case 1: RUN(false, "standard", St()); break; case 2: RUN(false, "extra", Ex()); break; case 3: RUN(false, "divide and conquer", Dq()); break;
    case 4: RUN(true, "standard with basis", St(), B()); break; case 5: RUN(true, "extra with basis", Ex(), B()); break; case 6: RUN(true, "divide and conquer with basis", Dq(), B()); break;
    case 7: RUN(false, "standard clearing", St(), clearing_flag()); break; case 8: RUN(false, "extra clearing", Ex(), clearing_flag()); break; case 9: RUN(false, "divide and conquer clearing", Dq(), clearing_flag()); break;
    case 10: RUN(true, "standard clearing with basis", St(), clearing_flag(), B()); break; case 11: RUN(true, "extra clearing with basis", Ex(), clearing_flag(), B()); break;
    case 12: RUN(false, "standard compression", St(), compression_flag()); break; case 13: RUN(false, "extra compression", Ex(), compression_flag()); break; case 14: RUN(false, "divide and conquer compression", Dq(), compression_flag()); break;
    case 15: RUN(true, "standard compression with basis", St(), compression_flag(), B()); break; default: RUN(true, "extra compression with basis", Ex(), compression_flag(), B());
  }
#undef RUN
}
template <class F, class Cx> void all_graded(const RF& f, const bats::Filtration<double, Cx>& Fl) {
  typedef bats::ReducedFilteredDGVectorSpace<double, MT<F>> RC; int deg = sim::chance(1, 2) ? 1 : -1; bats::FilteredDGVectorSpace<double, MT<F>> C; { sim::Sys s; C = bats::FilteredDGVectorSpace<double, MT<F>>(Fl, deg); }
  using namespace bats; typedef standard_reduction_flag St; typedef extra_reduction_flag Ex; typedef divide_conquer_flag Dq; typedef compute_basis_flag B;
#define RUN(what, ...) do { RC r; { sim::Sys s; r = RC(C, ##__VA_ARGS__); } check_pairs<F>(f, r, deg == 1, deg == 1 ? "cohomology " what : "graded homology " what); } while (0)
  switch (sim::pick(12)) {
    case 0: RUN("default"); break; case 1: RUN("standard", St()); break; case 2: RUN("extra", Ex()); break; case 3: RUN("divide and conquer", Dq()); break; case 4: RUN("standard with basis", St(), B()); break; case 5: RUN("extra with basis", Ex(), B()); break;
    case 6: RUN("standard clearing", St(), clearing_flag()); break; case 7: RUN("extra clearing", Ex(), clearing_flag()); break; case 8: RUN("standard clearing with basis", St(), clearing_flag(), B()); break; case 9: RUN("standard compression", St(), compression_flag()); break; case 10: RUN("extra compression", Ex(), compression_flag()); break; default: RUN("divide and conquer compression", Dq(), compression_flag());
  }
#undef RUN
}
template <class F> void check_union_find(const RF& f, const bats::FilteredChainComplex<double, MT<F>>& C) {
  if (f.maxdim() < 1) return; for (auto& e : f.bd[1]) { if (e.size() != 2) return; for (auto& x : e) if (x.second != 1 && x.second != -1) return; }
  std::vector<bats::PersistencePair<double>> ps; { sim::Sys s; ps = bats::union_find_pairs(C); } use_field<F>(); auto want = ref_pairs(f, C.perm)[0]; std::multiset<std::pair<double, double>> a, b; for (auto& p : want) b.insert({p.bv, p.dv}); std::set<size_t> births, deaths;
  for (auto& p : ps) { a.insert({p.birth, p.death}); need(p.dim == 0 && p.birth_ind < f.n(0) && births.insert(p.birth_ind).second, "wrong-pairs", "union-find: birth cell %zu is missing or used twice", p.birth_ind); if (p.death_ind != bats::NO_IND) need(p.death_ind < f.n(1) && deaths.insert(p.death_ind).second, "wrong-pairs", "union-find: death cell %zu is missing or used twice", p.death_ind); }
  if (a != b) { std::string s, t; char q[64]; for (auto& x : a) { snprintf(q, 64, "(%g,%g) ", x.first, x.second); s += q; } for (auto& x : b) { snprintf(q, 64, "(%g,%g) ", x.first, x.second); t += q; } sim_fail("wrong-pairs", "union-find: bars %sexpected %s", s.c_str(), t.c_str()); }
  // the cells named are the critical ones, in the order of addition as for every other algorithm
  for (auto& p : ps) need(f.val[0][p.birth_ind] == p.birth && (p.death_ind == bats::NO_IND || f.val[1][p.death_ind] == p.death), "wrong-pairs", "union-find: pair %zu>%zu has values (%g,%g), not those of its cells", p.birth_ind, p.death_ind, p.birth, p.death);
}
template <class F, class Cx> void every(const RF& f, const Cx& X) {
  use_field<F>(); bats::Filtration<double, Cx> Fl(X, f.val); sim_desc("%s", show(f).c_str());
  int n = 1 + (int) sim::pick(3); bool more = sim::chance(1, 3);
  while (n--) switch (sim::pick(8)) { case 0: case 1: case 2: case 3: all_chain<F>(f, Fl, more); break; case 4: case 5: case 6: all_graded<F>(f, Fl); break; default: check_union_find<F>(f, bats::FilteredChainComplex<double, MT<F>>(Fl)); }
}
template <class Fn> void with_field(Fn fn) { switch (pick_field(4, 3)) { case 0: fn(F2()); break; case 1: fn(F3()); break; case 2: fn(F5()); break; default: fn(FQ()); } }
SIM_SCENARIO(P01, simplicial, 4) {
  swarm_env(); auto f = gen_simplicial(rnd(1, 7), rnd(1, 6), rnd(0, 3), rnd(2, 8)); if (f.n(0) == 0) return; bool light = sim::chance(1, 4);
  with_field([&](auto x) { typedef decltype(x) F; if (!light) every<F>(f, simplicial(f)); else { bats::LightSimplicialComplex<size_t> X(zm(8), f.maxdim()); for (auto& k : f.spx) for (auto s : k) X.add(s); every<F>(f, X); } });
}
SIM_SCENARIO(P01, cubical, 2) {
  swarm_env(); size_t d = rnd(1, 3); auto f = gen_cubical(d, rnd(1, 4), 3); bats::CubicalComplex X(d); for (auto& k : f.spx) for (auto& c : k) X.add(c); with_field([&](auto x) { every<decltype(x)>(f, X); });
}
SIM_SCENARIO(P01, cells, 3) { swarm_env(); auto f = gen_cells(rnd(1, 3), rnd(1, 5)); auto X = cellcomplex(f); with_field([&](auto x) { every<decltype(x)>(f, X); }); }
// preprocessing by apparent pairs leaves the pairs alone
template <class F> void apparent() {
  use_field<F>(); int kind = sim::pick(3); RF f = kind == 0 ? gen_simplicial(rnd(1, 7), rnd(1, 6), rnd(0, 3), rnd(2, 8)) : kind == 1 ? gen_cubical(rnd(1, 3), rnd(1, 4), 3) : gen_cells(rnd(1, 3), rnd(1, 5)); int alg = sim::pick(5); sim_desc("kind %d algorithm %d %s ", kind, alg, show(f).c_str());
  typedef bats::FilteredChainComplex<double, MT<F>> FC; typedef bats::ReducedFilteredChainComplex<double, MT<F>> RC; using namespace bats; RC r; FC C;
  { sim::Sys s; if (kind == 0) C = FC(bats::Filtration<double, bats::SimplicialComplex>(mk_simplicial(f), f.val)); else if (kind == 1) C = FC(bats::Filtration<double, bats::CubicalComplex>(mk_cubical(f), f.val)); else C = FC(bats::Filtration<double, bats::CellComplex>(mk_cells(f), f.val));
    C.C.clear_compress_apparent_pairs(); switch (alg) { case 0: r = RC(C, standard_reduction_flag()); break; case 1: r = RC(C, extra_reduction_flag()); break; case 2: r = RC(C, standard_reduction_flag(), clearing_flag()); break; case 3: r = RC(C, standard_reduction_flag(), compression_flag()); break; default: r = RC(C, divide_conquer_flag()); } }
  check_pairs<F>(f, r, false, "reduction after clearing and compressing apparent pairs");
}
SIM_SCENARIO(P01, apparent, 2) { swarm_env(); with_field([&](auto x) { apparent<decltype(x)>(); }); }
// large enough for the parallel variant to split
template <class F> void parallel() {
  use_field<F>(); int n = rnd(24, 34), top = rnd(1, 2); uint64_t h = sim::pick(1u << 20); std::vector<std::vector<Spx>> c(top + 1); std::map<Spx, double> v; auto val = [&](double lo) { h = sim_mix(h, 5); return std::max(lo, (double) (h % 6)); };
  for (size_t i = 0; i < (size_t) n; i++) c[0].push_back({i}); for (size_t i = 0; i < (size_t) n; i++) for (size_t j = i + 1; j < (size_t) n; j++) c[1].push_back({i, j}); if (top == 2) { size_t m = 256 + sim::pick(300); for (size_t i = 0; i < (size_t) n && c[2].size() < m; i++) for (size_t j = i + 1; j < (size_t) n && c[2].size() < m; j++) for (size_t k = j + 1; k < (size_t) n && c[2].size() < m; k++) { h = sim_mix(h, 9); if (h % 3 == 0) c[2].push_back({i, j, k}); } }
  for (auto& k : c) for (size_t i = k.size(); i > 1; i--) { h = sim_mix(h, i); std::swap(k[i - 1], k[h % i]); }
  for (auto& k : c) for (auto& s : k) { double lo = -1; for (size_t i = 0; s.size() > 1 && i < s.size(); i++) { Spx t = s; t.erase(t.begin() + i); lo = std::max(lo, v[t]); } v[s] = val(lo); }
  auto f = from_cells(c, v); sim_desc("%d vertices, %zu edges, %zu triangles ", n, f.n(1), f.n(2)); auto Fl = filtration(f); typedef bats::ReducedFilteredChainComplex<double, MT<F>> RC; auto C = bats::FilteredChainComplex<double, MT<F>>(Fl); RC r;
  switch (sim::pick(4)) {
    case 0: { sim::Sys s; r = RC(C, bats::divide_conquer_flag()); } check_chain<F>(f, r, false, "parallel divide and conquer"); break;
    case 1: { sim::Sys s; r = RC(C, bats::divide_conquer_flag(), bats::clearing_flag()); } check_chain<F>(f, r, false, "parallel divide and conquer with clearing"); break;
    case 2: { sim::Sys s; r = RC(C, bats::divide_conquer_flag(), bats::compression_flag()); } check_chain<F>(f, r, false, "parallel divide and conquer with compression"); break;
    default: { int deg = sim::chance(1, 2) ? 1 : -1; bats::ReducedFilteredDGVectorSpace<double, MT<F>> g; { auto D = bats::FilteredDGVectorSpace<double, MT<F>>(Fl, deg); sim::Sys s; g = bats::ReducedFilteredDGVectorSpace<double, MT<F>>(D, bats::divide_conquer_flag()); } check_pairs<F>(f, g, deg == 1, "graded parallel divide and conquer"); }
  }
  if (sim_max_threads() > 1) sim_probe("split-with-threads");
}
SIM_SCENARIO(P01, parallel, 1) { swarm_env(); if (sim::chance(1, 2)) parallel<F2>(); else parallel<F3>(); }
// the building blocks on arbitrary matrices
template <class F> void reduced_form(const M& A, const MT<F>& R, const MT<F>* U, const std::vector<size_t>* p2c, const char* what) {
  M r = dense<F>(R, what); need(r.r == A.r && r.c == A.c, "wrong-shape", "%s: shape changed", what); std::map<size_t, size_t> low; for (size_t j = 0; j < r.c; j++) for (size_t i = r.r; i-- > 0;) if (!zero(r(i, j))) { auto q = low.emplace(i, j); need(q.second, "not-reduced", "%s: columns %zu and %zu share pivot %zu in %s", what, q.first->second, j, i, show(r).c_str()); break; }
  for (size_t j = 0; j <= A.c; j++) { std::vector<size_t> q; for (size_t i = 0; i < j; i++) q.push_back(i); need(rank(cols(A, q)) == rank(hcat(cols(A, q), cols(r, q))) && rank(cols(A, q)) == rank(cols(r, q)), "wrong-span", "%s: the first %zu columns span another space: %s became %s", what, j, show(A).c_str(), show(r).c_str()); }
  if (p2c) { need(p2c->size() == A.r, "wrong-pivots", "%s: %zu pivots for %zu rows", what, p2c->size(), A.r); for (size_t i = 0; i < A.r; i++) need(low.count(i) ? (*p2c)[i] == low[i] : (*p2c)[i] == bats::NO_IND, "wrong-pivots", "%s: pivot map at row %zu is wrong for %s", what, i, show(r).c_str()); }
  if (U) { M u = dense<F>(*U, what); need(u.r == A.c && u.c == A.c && A * u == r, "wrong-factorization", "%s: A U is not R: A=%s U=%s R=%s", what, show(A).c_str(), show(u).c_str(), show(r).c_str()); for (size_t j = 0; j < u.c; j++) for (size_t i = j; i < u.r; i++) need(i == j ? !zero(u(i, j)) : zero(u(i, j)), "wrong-factorization", "%s: U is not invertible upper triangular: %s", what, show(u).c_str()); }
}
template <class F> void blocks() {
  use_field<F>(); bool q = std::is_same<F, FQ>::value; size_t r = rnd(0, q ? 4 : 6), c = rnd(0, q ? 5 : 8); M A(r, c); int dens = rnd(1, 4); for (auto& x : A.a) x = sim::chance(dens, 5) ? mk((ll) sim::pick(q ? 3 : 5) - (q ? 1 : 2)) : mk(0); auto S = sparse<F>(A); MT<F> R = S, U = MT<F>::identity(c); std::vector<size_t> p; sim_desc("matrix %s ", show(A).c_str());
  switch (sim::pick(12)) {
    case 0: { sim::Sys s; p = bats::reduce_matrix(R); } reduced_form<F>(A, R, nullptr, &p, "reduce_matrix"); break;
    case 1: { sim::Sys s; p = bats::reduce_matrix(R, bats::extra_reduction_flag()); } reduced_form<F>(A, R, nullptr, &p, "reduce_matrix extra"); break;
    case 2: { sim::Sys s; p = bats::reduce_matrix(R, bats::divide_conquer_flag()); } reduced_form<F>(A, R, nullptr, &p, "reduce_matrix divide and conquer"); break;
    case 3: { sim::Sys s; p = bats::reduce_matrix(R, U); } reduced_form<F>(A, R, &U, &p, "reduce_matrix with basis"); break;
    case 4: { sim::Sys s; p = bats::reduce_matrix(R, U, bats::extra_reduction_flag()); } reduced_form<F>(A, R, &U, &p, "reduce_matrix extra with basis"); break;
    case 5: { sim::Sys s; p = bats::reduce_matrix(R, U, bats::divide_conquer_flag()); } reduced_form<F>(A, R, &U, &p, "reduce_matrix divide and conquer with basis"); break;
    case 6: case 7: { size_t b = 2 + sim::pick(4); std::unordered_map<size_t, size_t> q; std::vector<size_t> nz; bool basis = sim::chance(1, 2); { sim::Sys s; if (basis) std::tie(q, nz) = bats::reduce_block_dq(R, U, (size_t) 0, c, b); else { size_t lv = sim::pick(4);
      _Pragma("omp parallel") { _Pragma("omp single") { std::tie(q, nz) = bats::reduce_block_dq(R, (size_t) 0, c, b, (size_t) 0, lv); } } } } p.assign(r, bats::NO_IND); for (auto& x : q) p.at(x.first) = x.second; reduced_form<F>(A, R, basis ? &U : nullptr, &p, "reduce_block_dq"); std::vector<size_t> w; for (size_t j = 0; j < c; j++) if (R[j].nnz()) w.push_back(j); need(nz == w, "wrong-pivots", "reduce_block_dq lists the wrong nonzero columns"); break; }
    case 8: case 9: { std::map<F, size_t> co; typename VT<F>::tmp_type tmp; p.assign(r, bats::NO_IND); if constexpr (!std::is_same<F, FQ>::value) { sim::Sys s; for (size_t j = 0; j < c; j++) bats::reduce_column_sparsify(R, j, p, co, tmp); } else { sim::Sys s; p = bats::reduce_matrix(R); } reduced_form<F>(A, R, nullptr, &p, "reduce_column_sparsify"); break; }
    case 10: { std::unordered_map<size_t, size_t> q; typename VT<F>::tmp_type tmp; { sim::Sys s; for (size_t j = 0; j < c; j++) bats::reduce_column_extra(R, j, q, tmp); } p.assign(r, bats::NO_IND); for (auto& x : q) p.at(x.first) = x.second; reduced_form<F>(A, R, nullptr, &p, "reduce_column_extra"); break; }
    default: { bool ex = sim::chance(1, 2); { sim::Sys s; if (ex) bats::reduce_matrix(R, U, bats::extra_reduction_flag()); else bats::reduce_matrix(R, U); bats::remove_extra_cycles(R, U); } reduced_form<F>(A, R, &U, nullptr, "remove_extra_cycles"); { sim::Sys s; bats::sparsify_basis(R, U); } reduced_form<F>(A, R, &U, nullptr, "sparsify_basis"); }
  }
}
SIM_SCENARIO(P01, matrices, 3) { swarm_env(); with_field([&](auto x) { blocks<decltype(x)>(); }); }
// union-find on pairwise distances
SIM_SCENARIO(P01, rips_union_find, 1) {
  swarm_env(); PP() = 2; size_t n = rnd(1, 9); std::vector<double> d; std::vector<std::pair<size_t, size_t>> e; for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) { e.push_back({i, j}); d.push_back(rnd(1, 6) * 0.5); }
  std::vector<size_t> ix(d.size()); for (size_t i = 0; i < ix.size(); i++) ix[i] = i; std::stable_sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return d[a] < d[b]; }); sim_desc("%zu points ", n); for (auto x : d) sim_desc("%g ", x);
  std::vector<bats::PersistencePair<double>> ps; { sim::Sys s; ps = bats::rips_union_find_pairs(ix, d); } RF f; f.bd.resize(2); f.val.resize(2); f.spx.resize(2); for (size_t i = 0; i < n; i++) { f.bd[0].push_back({}); f.val[0].push_back(0); } for (size_t i = 0; i < e.size(); i++) { f.bd[1].push_back({{e[i].first, -1}, {e[i].second, 1}}); f.val[1].push_back(d[i]); }
  auto want = ref_pairs(f, stable_order(f))[0]; std::multiset<double> a, b; for (auto& p : want) b.insert(p.dv); std::set<size_t> births, deaths; for (auto& p : ps) { need(p.dim == 0 && p.birth == 0 && births.insert(p.birth_ind).second, "wrong-pairs", "birth %zu", p.birth_ind); a.insert(p.death); if (p.death_ind != bats::NO_IND) need(deaths.insert(p.death_ind).second && p.death_ind < ix.size() && d[ix[p.death_ind]] == p.death, "wrong-pairs", "death edge %zu", p.death_ind); } need(a == b, "wrong-pairs", "the deaths differ from those of the reduction");
}
// known finding: the older cochain classes (homology/cohom_basis.hpp)
SIM_SCENARIO(P01, directed_cochain, 0) {
  PP() = 2; SpxSet X; add_closed(X, {0, 1, 2}); bats::SimplicialComplex C; for (auto& k : by_dim(X)) for (auto s : k) C.add(s); bats::ReducedCochainComplex<MT<F2>> R; { sim::Sys s; R = bats::ReducedCochainComplex<MT<F2>>(bats::CochainComplex<MT<F2>>(C)); }
  size_t want[3] = {1, 0, 0}; for (size_t k = 0; k < 3; k++) need(R.hdim(k) == want[k], "directed-cochain", "ReducedCochainComplex of a full triangle: hdim(%zu) is %zu, cohomology has dimension %zu", k, R.hdim(k), want[k]);
}
