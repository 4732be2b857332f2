#include "diagrams.hpp"
#include "digest.hpp"
#include <cstring>
// Several caller threads query shared constant objects; every answer equals the one given when run alone.
typedef std::function<uint64_t()> Query;
struct Shared { std::vector<Query> q; std::vector<uint64_t> want; std::vector<std::vector<size_t>> todo; };
static void caller(int t, void* p) {
  Shared* s = (Shared*) p; std::vector<size_t> todo; { sim::Off o; todo = s->todo[t]; }
  for (size_t i : todo) { uint64_t g = s->q[i](); sim::Off o; need(g == s->want[i], "answer-differs", "thread %d: query %zu answers differently than alone", t, i); }
}
static void race_all(std::vector<Query> q, const char* what) {
  Shared s; s.q = q; for (auto& f : s.q) { sim::Sys x; uint64_t v = f(); sim::Off o; s.want.push_back(v); }
  int n = 2 + (int) sim_spick(5), each = rnd(1, 4); s.todo.resize(n); for (auto& t : s.todo) for (int i = 0; i < each; i++) t.push_back(sim::pick((uint32_t) s.q.size()));
  sim_desc("%s: %d callers x %d of %zu queries ", what, n, each, s.q.size()); for (auto& t : s.todo) { for (auto i : t) sim_desc("%zu,", i); sim_desc(" "); }
  sim_set_threads(1 + sim_spick(3)); { sim::Sys x; sim_team(n, caller, &s); } sim_probe("concurrent-callers");
  for (size_t i = 0; i < s.q.size(); i++) { sim::Sys x; uint64_t v = s.q[i](); sim::Off o; need(v == s.want[i], "state-changed", "%s: query %zu answers differently after the concurrent ones", what, i); }
}
#define Q(expr) q.push_back([=]() -> uint64_t { auto R = (expr); sim::Off o; return dg(R); })
// random closed complex in a random order of insertion (faces first), on at most n vertices
static std::vector<Spx> gen_spx(int n, int facets, int dmax) {
  SpxSet X; for (int i = 0; i < facets; i++) { std::set<size_t> s; int d = rnd(1, dmax + 1); while ((int) s.size() < d) s.insert(sim::pick(n)), d = std::min(d, n); add_closed(X, Spx(s.begin(), s.end())); }
  std::vector<Spx> r(X.begin(), X.end()); for (size_t i = r.size(); i > 1; i--) std::swap(r[i - 1], r[sim::pick(i)]); std::stable_sort(r.begin(), r.end(), [](const Spx& a, const Spx& b) { return a.size() < b.size(); }); return r;
}
static uint64_t dg(const std::vector<std::pair<size_t, int>>& v) { uint64_t h = 4; for (auto& x : v) h = sim_mix(h, x.first * 8 + x.second + 3); return h; }
static uint64_t dg(const std::tuple<std::vector<size_t>, std::vector<int>>& t) { uint64_t h = dg(std::get<0>(t)); for (auto x : std::get<1>(t)) h = sim_mix(h, x + 7); return h; }
template <class C> uint64_t dg(const CSCMatrix<int, C>& A) { return dg(MT<int>(A)); }
static uint64_t dg(const std::vector<bats::PersistencePair<double>>& p) { uint64_t h = 40; for (auto& x : p) { h = sim_mix(h, x.dim); h = sim_mix(h, x.birth_ind); h = sim_mix(h, x.death_ind); uint64_t b; memcpy(&b, &x.birth, 8); h = sim_mix(h, b); memcpy(&b, &x.death, 8); h = sim_mix(h, b); } return h; }
template <class F> uint64_t dg(const SparseVector<F, size_t>& v) { uint64_t h = 41; for (auto it = v.nzbegin(); it != v.nzend(); ++it) { h = sim_mix(h, it->ind); S s = toS(it->val); h = sim_mix(h, (uint64_t) s.n); } return h; }
template <class F> uint64_t dgr(const bats::ReducedChainComplex<MT<F>>& C) { uint64_t h = dg(C); for (size_t k = 0; k <= C.maxdim(); k++) { h = sim_mix(h, dg(C.R[k])); if (k < C.U.size()) h = sim_mix(h, dg(C.U[k])); h = sim_mix(h, dg(C.I[k])); h = sim_mix(h, dg(C.p2c[k])); } return h; }
template <class F> uint64_t dgr(const bats::ReducedDGVectorSpace<MT<F>>& C) { uint64_t h = dg(C); for (size_t k = 0; k < C.R.size(); k++) { h = sim_mix(h, dg(C.R[k])); if (k < C.U.size()) h = sim_mix(h, dg(C.U[k])); } return h; }

SIM_SCENARIO(C09, simplicial, 3) {
  swarm_env(); int n = rnd(2, zm(7)); auto sp = gen_spx(n, rnd(1, zm(5)), 3); bats::SimplicialComplex X; for (auto s : sp) X.add(s); const auto* C = &X; size_t top = X.maxdim(); std::vector<Query> q;
  bats::SimplicialComplex A; for (auto s : sp) if (s.size() == 1 && sim::chance(1, 2)) A.add(s); if (A.ncells() == 0) { auto s = sp[0]; A.add(s); }
  for (int i = 0; i < 3; i++) { auto s = sp[sim::pick(sp.size())]; Q(C->find_idx(s)); auto miss = Spx{(size_t) n + 3}; if (i == 0) Q(C->find_idx(miss)); }
  Q(C->get_simplices()); Q(C->ncells()); const auto* Ap = &A; Q(C->get_indices(*Ap)); for (size_t k = 0; k <= top; k++) { Q(C->get_simplices(k)); Q(C->get_simplex(k, C->ncells(k) - 1)); if (k) { Q(C->boundary_csc(k)); Q(C->boundary(k, C->ncells(k) - 1)); q.push_back([C, k] { uint64_t h = 1; for (auto it = C->faces_begin(k, 0); it != C->faces_end(k, 0); ++it) h = sim_mix(h, *it); return h; }); } }
  Q(bats::ChainComplex<MT<F3>>(*C)); Q((bats::ChainComplex<MT<F3>>(*C, *Ap))); Q(bats::SimplicialComplex(*C)); std::vector<size_t> f; for (int i = 0; i < n; i++) f.push_back(i); Q(bats::SimplicialMap(*C, *C, f));
  q.push_back([C] { auto R = bats::Reduce(*C, F2()); sim::Off o; return dgr(R); });
  race_all(q, "simplicial complex");
}
SIM_SCENARIO(C09, light_and_cubical, 2) {
  swarm_env(); std::vector<Query> q;
  if (sim::chance(1, 2)) {
    int n = rnd(2, zm(7)); auto sp = gen_spx(n, rnd(1, zm(5)), 3); bats::LightSimplicialComplex<size_t> X(n, 3); for (auto& s : sp) X.add(s); const auto* C = &X;
    for (int i = 0; i < 3; i++) { auto s = sp[sim::pick(sp.size())]; Q(C->find_idx(s)); } Q(C->get_simplices()); Q(C->ncells()); for (size_t k = 0; k <= 3; k++) { Q(C->get_simplices(k)); if (k && C->ncells(k)) { Q(C->boundary_csc(k)); Q(C->boundary(k, C->ncells(k) - 1)); } } Q(bats::ChainComplex<MT<F2>>(*C));
    race_all(q, "light complex");
  } else {
    size_t d = rnd(1, 3); bats::CubicalComplex X(d); int n = rnd(1, 4); for (int i = 0; i < n; i++) { Spx c; for (size_t k = 0; k < d; k++) { size_t a = sim::pick(3); c.push_back(a); c.push_back(a + 1); } X.add_recursive(c); } const auto* C = &X;
    for (size_t k = 0; k <= d; k++) { Q(C->get_cubes(k)); Q(C->get_cube(k, 0)); auto c = X.get_cube(k, X.ncells(k) - 1); Q(C->find_idx(c)); if (k) Q(C->boundary_csc(k)); } Q(C->ncells()); Q(C->get_cubes()); Q(C->skeleton(d - 1)); Q(bats::ChainComplex<MT<F3>>(*C));
    race_all(q, "cubical complex");
  }
}
template <class F> void filtered() {
  int n = rnd(2, zm(7)); auto sp = gen_spx(n, rnd(1, zm(5)), 3); bats::Filtration<double, bats::SimplicialComplex> Fl; std::map<Spx, double> val; for (auto s : sp) { double t = sim::pick(5) * 0.5; for (size_t i = 0; i < s.size() && s.size() > 1; i++) { Spx f = s; f.erase(f.begin() + i); t = std::max(t, val[f]); } val[s] = t; Fl.add(t, s); }
  const auto* C = &Fl; size_t top = Fl.maxdim(); std::vector<Query> q; use_field<F>();
  Q(C->sortperm()); Q(C->sublevelset(1.0)); Q(C->ncells(0)); Q(C->complex()); q.push_back([C] { auto R = bats::FilteredChainComplex<double, MT<F>>(*C); sim::Off o; return dg(R.complex()); });
  auto FC = bats::FilteredChainComplex<double, MT<F>>(Fl); const auto* fc = &FC; auto R = bats::Reduce(FC); const auto* r = &R; auto FD = bats::FilteredDGVectorSpace<double, MT<F>>(Fl, 1); const auto* fd = &FD; auto RD = bats::ReducedFilteredDGVectorSpace<double, MT<F>>(FD); const auto* rd = &RD;
  q.push_back([fc] { auto R = bats::ReducedFilteredChainComplex<double, MT<F>>(*fc); sim::Off o; return dgr(R.RC); }); q.push_back([fc] { auto R = bats::ReducedFilteredChainComplex<double, MT<F>>(*fc, bats::standard_reduction_flag(), bats::clearing_flag()); sim::Off o; return dgr(R.RC); });
  q.push_back([fc] { auto R = bats::ReducedFilteredChainComplex<double, MT<F>>(*fc, bats::standard_reduction_flag(), bats::compression_flag()); sim::Off o; return dgr(R.RC); }); q.push_back([fd] { auto R = bats::ReducedFilteredDGVectorSpace<double, MT<F>>(*fd); sim::Off o; return dgr(R.RC); });
  for (size_t k = 0; k <= top; k++) {
    Q(r->persistence_pairs(k)); Q(rd->persistence_pairs(k)); Q(r->persistence_pairs(k, true)); auto ps = R.persistence_pairs(k); if (!ps.empty()) { auto p = ps[sim::pick(ps.size())]; Q(r->representative(p)); }
    q.push_back([r, k] { uint64_t h = r->hdim(k) + 9 * r->dim(k); return h; });
    if (R.hdim(k)) { Q(r->RC.get_preferred_representative(0, k)); VT<F> c = R.RC.get_preferred_representative(0, k); q.push_back([r, c, k] { auto v = r->RC.chain_preferred_representative(c, k); sim::Off o; return dg(v); }); q.push_back([r, c, k] { auto y = r->RC.to_hom_basis(c, k); r->RC.find_preferred_representative(y, k); auto z = r->RC.from_hom_basis(y, k); sim::Off o; return sim_mix(dg(y), dg(z)); }); }
    q.push_back([rd, k] { uint64_t h = rd->hdim(k); return h; });
  }
  std::vector<size_t> f; for (int i = 0; i < n; i++) f.push_back(i); auto sm = bats::SimplicialMap(Fl.complex(), Fl.complex(), f); auto CM = bats::ChainMap<MT<F>>(sm); const auto* cm = &CM; auto RC = bats::ReducedChainComplex<MT<F>>(bats::ChainComplex<MT<F>>(Fl.complex())); const auto* rc = &RC; auto RG = bats::ReducedDGVectorSpace<MT<F>>(bats::DGVectorSpace<MT<F>>(Fl.complex(), 1)); const auto* rg = &RG; auto GM = bats::DGLinearMap<MT<F>>(sm, 1); const auto* gm = &GM;
  for (size_t k = 0; k <= top; k++) { Q(bats::induced_map(*cm, *rc, *rc, k)); Q(bats::induced_map(*gm, *rg, *rg, k)); }
  race_all(q, "filtration and reductions");
}
SIM_SCENARIO(C09, filtered, 4) { swarm_env(); switch (sim::pick(3)) { case 0: filtered<F2>(); break; case 1: filtered<F3>(); break; default: filtered<F5>(); } }
template <class F> void matrices() {
  use_field<F>(); size_t r = rnd(1, 6), c = rnd(1, 6); M D(r, c), E(c, r), T(r, r); for (auto& x : D.a) x = mk((ll) sim::pick(3) - 1); for (auto& x : E.a) x = mk((ll) sim::pick(3) - 1); for (size_t i = 0; i < r; i++) for (size_t j = i; j < r; j++) T(i, j) = i == j ? mk(1) : mk((ll) sim::pick(3) - 1);
  const auto MD = sparse<F>(D), ME = sparse<F>(E), MTt = sparse<F>(T); const auto* A = &MD; const auto* B = &ME; const auto* U = &MTt; std::vector<Query> q; size_t j = sim::pick(c), i = sim::pick(r);
  std::vector<size_t> ri, ci; for (size_t k = 0; k < r; k++) if (sim::chance(1, 2)) ri.push_back(k); for (size_t k = 0; k < c; k++) if (sim::chance(1, 2)) ci.push_back(k);
  Q((*A) * (*B)); Q((*A) + (*A)); Q(A->T()); Q(A->transpose()); Q((*A) * (*B)[0]); q.push_back([A, i, j] { auto v = (*A)(i, j); sim::Off o; return (uint64_t) toS(v).n; }); Q(u_solve(*U, *A)); Q(u_solve(*U, (*A)[j])); Q(u_inv(*U));
  Q(A->submatrix(ri, ci)); q.push_back([A] { uint64_t h = A->nnz() + 31 * A->is_zero(); return h; });
  q.push_back([A] { auto B = *A; auto p = bats::reduce_matrix(B); sim::Off o; return sim_mix(dg(B), dg(p)); }); q.push_back([A] { auto B = *A; auto p = bats::reduce_matrix(B, bats::divide_conquer_flag()); sim::Off o; return sim_mix(dg(B), dg(p)); }); q.push_back([U] { auto f = UQL(*U); sim::Off o; return dg(f.U); });
  race_all(q, "matrices");
}
SIM_SCENARIO(C09, matrices, 2) { swarm_env(); if (sim::chance(1, 2)) matrices<F2>(); else matrices<F5>(); }
SIM_SCENARIO(C09, diagrams, 2) {
  swarm_env(); RefDiag ref; size_t dmax = rnd(1, 2); auto D = gen_covers(4, 5, 4, rnd(3, 5), dmax, ref); const auto* C = &D; auto TDm = bats::Nerve(D, dmax); const auto* TD = &TDm; auto CDm = bats::ChainFunctor<MT<F3>>(TDm); const auto* CD = &CDm; std::vector<Query> q;
  Q(bats::Nerve(*C, dmax)); Q(bats::ChainFunctor<MT<F3>>(*TD)); Q(bats::Hom<MT<F3>>(*CD, (size_t) 0)); Pts P = gen_points(2, 6); auto Xm = dataset(P); const auto* X = &Xm; double rad = rnd(1, 6) * 0.5;
  Q(bats::neighborhoods(*X, *X, bats::L1Dist(), rad)); Q(bats::neighborhoods(*X, *X, bats::L1Dist(), (size_t) 1)); Q(bats::landmark_cover(*X, *X, bats::L1Dist(), (size_t) 1)); q.push_back([X, rad] { auto F_ = bats::RipsFiltration<bats::SimplicialComplex>(*X, bats::Euclidean(), rad, 2); sim::Off o; return dg(F_.complex()); });
  race_all(q, "diagrams and data");
}
