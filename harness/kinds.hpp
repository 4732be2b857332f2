// Object kinds for copy histories and memory exhaustion: deterministic makers, changes and digests.
#pragma once
#include "filt.hpp"
#include <cstring>
namespace kinds {
using namespace flt;
struct Lcg { uint64_t s; size_t operator()(size_t n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return n ? (size_t) ((s >> 33) % n) : 0; } };
// ---- digests
static uint64_t H(uint64_t a, uint64_t b) { return sim_mix(a, b); }
template <class T> uint64_t dn(const std::vector<T>& v) { uint64_t h = H(40, v.size()); for (auto& x : v) h = H(h, (uint64_t) x); return h; }
static uint64_t dn(const std::vector<double>& v) { uint64_t h = H(41, v.size()); for (auto& x : v) { uint64_t b; memcpy(&b, &x, 8); h = H(h, b); } return h; }
template <class T> uint64_t dn(const std::vector<std::vector<T>>& v) { uint64_t h = H(42, v.size()); for (auto& x : v) h = H(h, dn(x)); return h; }
template <class F> uint64_t dv(const VT<F>& v) { uint64_t h = 43; for (auto it = v.nzbegin(); it != v.nzend(); ++it) { S s = toS(it->val); h = H(H(h, it->ind), (uint64_t) (s.n * 97 + s.d)); } return h; }
template <class F> uint64_t dm(const MT<F>& A) { uint64_t h = H(A.nrow(), A.ncol()); for (size_t j = 0; j < A.ncol(); j++) h = H(h, dv<F>(A[j])); return h; }
template <class T> uint64_t dc(const T& A) { uint64_t h = H(A.nrow(), A.ncol()); MT<int> B(A); return H(h, dm<int>(B)); }
template <class Cx> uint64_t dx(const Cx& X) { // cells in order, lookups, boundaries
  uint64_t h = X.maxdim() + 5; for (size_t k = 0; k <= X.maxdim(); k++) { h = H(h, X.ncells(k)); for (size_t i = 0; i < X.ncells(k); i++) { auto s = X.get_cell(k, i); h = H(h, dn(s)); h = H(h, X.find_idx(s)); } if (k && X.ncells(k)) h = H(h, dc(X.boundary_csc(k))); } return H(h, X.ncells());
}
static uint64_t dx(const bats::CellComplex& X) { uint64_t h = X.maxdim() + 6; for (size_t k = 0; k <= X.maxdim(); k++) { h = H(h, X.ncells(k)); if (k && X.ncells(k)) h = H(h, dc(X.boundary_csc(k))); } return H(h, X.ncells()); }
template <class Cx> uint64_t df(const bats::Filtration<double, Cx>& F) { return H(dx(F.complex()), dn(F.vals())); }
static uint64_t dmap(const bats::CellularMap& f) { uint64_t h = H(f.maxdim(), 9); for (size_t k = 0; k <= f.maxdim() && f.maxdim() + 1; k++) h = H(h, dm<int>(f[k])); return h; }
template <class F> uint64_t dch(const bats::ChainComplex<MT<F>>& C) { uint64_t h = H(C.maxdim(), 10); for (size_t k = 0; k <= C.maxdim(); k++) h = H(H(h, C.dim(k)), dm<F>(C[k])); return h; }
template <class F> uint64_t dcm(const bats::ChainMap<MT<F>>& C) { uint64_t h = H(C.maxdim(), 11); for (size_t k = 0; k <= C.maxdim(); k++) h = H(h, dm<F>(C[k])); return h; }
template <class F> uint64_t ddg(const bats::DGVectorSpace<MT<F>>& C) { uint64_t h = H((uint64_t) C.degree + 9, 12); for (auto& d : C.differential) h = H(h, dm<F>(d)); return h; }
template <class F> uint64_t dred(const bats::ReducedChainComplex<MT<F>>& C) { uint64_t h = H(C.maxdim(), 13); for (auto& x : C.R) h = H(h, dm<F>(x)); for (auto& x : C.U) h = H(h, dm<F>(x)); h = H(h, dn(C.I)); h = H(h, dn(C.p2c)); for (size_t k = 0; k <= C.maxdim(); k++) h = H(h, C.hdim(k)); return h; }
template <class F> uint64_t drdg(const bats::ReducedDGVectorSpace<MT<F>>& C) { uint64_t h = H((uint64_t) C.degree + 9, 14); for (auto& x : C.R) h = H(h, dm<F>(x)); for (auto& x : C.U) h = H(h, dm<F>(x)); h = H(h, dn(C.I)); h = H(h, dn(C.p2c)); return h; }
template <class F> uint64_t dfc(const bats::FilteredChainComplex<double, MT<F>>& C) { uint64_t h = H(dch<F>(C.complex()), dn(C.vals())); return H(h, dn(C.perm)); }
template <class F> uint64_t drf(const bats::ReducedFilteredChainComplex<double, MT<F>>& C) { uint64_t h = H(dred<F>(C.RC), dn(C.val)); h = H(h, dn(C.perm)); for (size_t k = 0; k <= C.maxdim(); k++) for (auto& p : C.persistence_pairs(k)) h = H(H(H(h, p.birth_ind), p.death_ind), (uint64_t) (int64_t) (p.birth * 64)); return h; }
// ---- kinds
static Spx some_simplex(Lcg& g, size_t nv, size_t dmax) { std::set<size_t> s; size_t d = 1 + g(dmax + 1); for (int t = 0; t < 8 && s.size() < d; t++) s.insert(g(nv)); return Spx(s.begin(), s.end()); }
static bats::SimplicialComplex spx_make(unsigned c) { Lcg g{c}; bats::SimplicialComplex X = g(3) ? bats::SimplicialComplex(6, 3) : bats::SimplicialComplex(); size_t n = g(4); while (n--) { Spx s = some_simplex(g, 6, 3); X.add_recursive(s); } return X; }
static void spx_mut(bats::SimplicialComplex& X, unsigned c) { Lcg g{c}; Spx s = some_simplex(g, 6, 3); if (g(3)) X.add_recursive(s); else X.add(s); }
typedef bats::LightSimplicialComplex<size_t> LC;
static LC light_make(unsigned c) { Lcg g{c}; LC X(5 + g(2), 3); size_t n = g(4); while (n--) { Spx s = some_simplex(g, 5, 3); X.add_recursive(s); } return X; }
static void light_mut(LC& X, unsigned c) { Lcg g{c}; X.add_recursive(some_simplex(g, 5, 3)); }
static Cube some_cube(Lcg& g) { Cube q; for (int i = 0; i < 2; i++) { size_t a = g(3); q.push_back(a); q.push_back(a + g(2)); } return q; }
static bats::CubicalComplex cub_make(unsigned c) { Lcg g{c}; bats::CubicalComplex X(2); size_t n = g(4); while (n--) X.add_recursive(some_cube(g)); return X; }
static void cub_mut(bats::CubicalComplex& X, unsigned c) { Lcg g{c}; X.add_recursive(some_cube(g)); }
static void cell_mut(bats::CellComplex& X, unsigned c) { Lcg g{c}; if (g(3) == 0 || X.maxdim() + 1 == 0 || X.ncells(0) == 0) { X.add_vertices(1 + g(3)); return; } std::vector<size_t> b{g(X.ncells(0))}; std::vector<int> k{1}; size_t o = g(X.ncells(0)); if (o != b[0]) { b.push_back(o); k.push_back(-1); } else { b.clear(); k.clear(); } X.add(b, k, 1); }
static bats::CellComplex cell_make(unsigned c) { Lcg g{c}; bats::CellComplex X(2); X.add_vertices(g(3)); size_t n = g(5); while (n--) cell_mut(X, c + 17 * n); return X; }
template <class Cx> using Fl = bats::Filtration<double, Cx>;
static Fl<bats::SimplicialComplex> fil_make(unsigned c) { Lcg g{c}; auto X = spx_make(c); std::vector<std::vector<double>> v; for (size_t k = 0; k <= X.maxdim(); k++) v.push_back(std::vector<double>(X.ncells(k), (double) (g(2) + k))); return Fl<bats::SimplicialComplex>(X, v); }
static void fil_mut(Fl<bats::SimplicialComplex>& F, unsigned c) { Lcg g{c}; if (g(3) == 0) { auto v = F.vals(); for (auto& k : v) for (auto& x : k) x += 0.5 * g(3); F.update_filtration(v); } else { Spx s = some_simplex(g, 6, 3); F.add_recursive(0.5 * g(9), s); } }
static Fl<LC> lfil_make(unsigned c) { auto X = light_make(c); std::vector<std::vector<double>> v; for (size_t k = 0; k <= X.maxdim(); k++) v.push_back(std::vector<double>(X.ncells(k), k)); return Fl<LC>(X, v); }
static void lfil_mut(Fl<LC>& F, unsigned c) { Lcg g{c}; Spx s = some_simplex(g, 5, 3); F.add_recursive(0.5 * g(9), s); }
template <class F> VT<F> vec_make(unsigned c) { Lcg g{c}; VT<F> v; for (size_t i = 0; i < 9; i++) if (g(2)) { F x((int) g(4)); if (!(x == F(0))) v.emplace_back(i, x); } return v; }
template <class F> void vec_mut(VT<F>& v, unsigned c) { Lcg g{c}; switch (g(4)) { case 0: { auto w = vec_make<F>(c + 1); v.axpy(F(1), w); break; } case 1: v.scale_inplace(F(1 + (int) g(1))); v = v + vec_make<F>(c + 5); break; case 2: v.permute({8, 7, 6, 5, 4, 3, 2, 1, 0}); break; default: v.clear(); } }
template <class F> MT<F> mat_make(unsigned c) { Lcg g{c}; size_t n = g(6); std::vector<VT<F>> cs; for (size_t j = 0; j < n; j++) cs.push_back(vec_make<F>(c + 31 * j)); return MT<F>(9, n, cs); }
template <class F> void mat_mut(MT<F>& A, unsigned c) { Lcg g{c}; switch (g(6)) { case 0: A.append_column(vec_make<F>(c + 1)); break; case 1: if (A.ncol()) A[g(A.ncol())].axpy(F(1), vec_make<F>(c + 2)); break; case 2: A.permute_rows({8, 7, 6, 5, 4, 3, 2, 1, 0}); break; case 3: A = A + A; break; case 4: if (A.ncol() > 1) A.swap_cols(0, A.ncol() - 1); break; default: { auto B = mat_make<F>(c + 3); A = B; } } }
static CSCMatrix<int, size_t> csc_make(unsigned c) { auto X = spx_make(c | 4096u); Lcg g{c}; Spx s = some_simplex(g, 6, 1); X.add_recursive(s); Spx e01{0, 1}; X.add_recursive(e01); return X.boundary_csc(1); }
static void csc_mut(CSCMatrix<int, size_t>& A, unsigned c) { Lcg g{c}; if (g(2)) A = csc_make(c + 1); else { std::vector<size_t> p(A.ncol()); for (size_t i = 0; i < p.size(); i++) p[i] = p.size() - 1 - i; MT<int> B(A); B.permute_cols(p); std::vector<size_t> cp{0}, ri; std::vector<int> vv; for (size_t j = 0; j < B.ncol(); j++) { for (auto it = B[j].nzbegin(); it != B[j].nzend(); ++it) { ri.push_back(it->ind); vv.push_back(it->val); } cp.push_back(ri.size()); } A = CSCMatrix<int, size_t>(B.nrow(), B.ncol(), cp, ri, vv); } }
template <class F> bats::ChainComplex<MT<F>> ch_make(unsigned c) { auto X = spx_make(c); return bats::Chain(X, F()); }
static std::vector<std::vector<size_t>> rev(const std::vector<size_t>& n, Lcg& g) { std::vector<std::vector<size_t>> p; for (auto m : n) { std::vector<size_t> q(m); for (size_t i = 0; i < m; i++) q[i] = i; for (size_t i = m; i > 1; i--) std::swap(q[i - 1], q[g(i)]); p.push_back(q); } return p; }
template <class F> void ch_mut(bats::ChainComplex<MT<F>>& C, unsigned c) { Lcg g{c}; std::vector<size_t> n; for (size_t k = 0; k <= C.maxdim(); k++) n.push_back(C.dim(k)); auto p = rev(n, g); if (g(2)) C.permute_basis(p); else C.ipermute_basis(p); }
template <class F> bats::ReducedChainComplex<MT<F>> red_make(unsigned c) { return bats::ReducedChainComplex<MT<F>>(ch_make<F>(c)); }
template <class F> void red_mut(bats::ReducedChainComplex<MT<F>>& C, unsigned c) { Lcg g{c}; switch (g(3)) { case 0: C.sparsify_basis(); break; case 1: C.remove_extra_cycles(); break; default: { std::vector<size_t> n; for (size_t k = 0; k <= C.maxdim(); k++) n.push_back(C.dim(k)); C.permute_basis(rev(n, g)); } } }
template <class F> bats::FilteredChainComplex<double, MT<F>> fc_make(unsigned c) { return bats::FilteredChainComplex<double, MT<F>>(fil_make(c)); }
static std::vector<std::vector<double>> newvals(std::vector<std::vector<double>> v, Lcg& g) { for (size_t k = 0; k < v.size(); k++) for (auto& x : v[k]) x = 4.0 * k + 0.5 * g(5); return v; }
template <class F> void fc_mut(bats::FilteredChainComplex<double, MT<F>>& C, unsigned c) { Lcg g{c}; C.update_filtration(newvals(C.vals(), g)); }
template <class F> bats::ReducedFilteredChainComplex<double, MT<F>> rf_make(unsigned c) { return bats::Reduce(fc_make<F>(c)); }
template <class F> void rf_mut(bats::ReducedFilteredChainComplex<double, MT<F>>& C, unsigned c) { Lcg g{c}; C.update_filtration(newvals(C.val, g)); }
template <class F> bats::DGVectorSpace<MT<F>> dg_make(unsigned c) { auto X = spx_make(c); return bats::DGVectorSpace<MT<F>>(X, c % 2 ? 1 : -1); }
template <class F> void dg_mut(bats::DGVectorSpace<MT<F>>& C, unsigned c) { C = dg_make<F>(c + 1 + (uint64_t) C.differential.size()); }
template <class F> bats::ReducedDGVectorSpace<MT<F>> rdg_make(unsigned c) { return bats::ReducedDGVectorSpace<MT<F>>(dg_make<F>(c)); }
template <class F> void rdg_mut(bats::ReducedDGVectorSpace<MT<F>>& C, unsigned c) { C = rdg_make<F>(c + 1 + (uint64_t) C.R.size()); }
// diagrams
typedef bats::Diagram<bats::SimplicialComplex, bats::CellularMap> XD;
static void xd_mut(XD& D, unsigned c) { Lcg g{c}; size_t n = D.nnode(); if (n < 2 || g(3) == 0) { auto X = spx_make(c); D.add_node(X); return; } size_t i = g(n); if (g(2)) spx_mut(D.node_data(i), c); else { bats::CellularMap f(1); size_t j = g(n); f[0] = MT<int>(D.node_data(j).ncells(0), D.node_data(i).ncells(0)); D.add_edge(i, j, f); } }
static XD xd_make(unsigned c) { XD D; for (unsigned i = 0; i < c % 4; i++) xd_mut(D, c + 7 * i); return D; }
static uint64_t dxd(const XD& D) { uint64_t h = H(D.nnode(), D.nedge()); for (auto& n : D.node) h = H(h, dx(n)); for (size_t j = 0; j < D.nedge(); j++) { h = H(h, D.elist[j].src * 100 + D.elist[j].targ); h = H(h, dmap(D.edata[j])); } return h; }
typedef bats::Diagram<bats::ChainComplex<MT<F3>>, bats::ChainMap<MT<F3>>> CDg;
static CDg cd_make(unsigned c) { Lcg g{c}; CDg D(1 + g(3), 0); for (auto& n : D.node) n = ch_make<F3>(c++); if (g(2)) { auto X = spx_make(c); auto Y = X; Spx t012{0, 1, 2}; Y.add_recursive(t012); bats::ChainMap<MT<F3>> m(bats::SimplicialMap(X, Y)); D.add_edge(0, 0, m); } return D; }
static void cd_mut(CDg& D, unsigned c) { Lcg g{c}; size_t i = g(D.nnode()); if (g(2)) ch_mut<F3>(D.node_data(i), c); else { auto C = ch_make<F3>(c); D.add_node(C); } }
static uint64_t dcd(const CDg& D) { uint64_t h = H(D.nnode(), D.nedge()); for (auto& n : D.node) h = H(h, dch<F3>(n)); for (auto& e : D.edata) h = H(h, dcm<F3>(e)); return h; }
typedef bats::SparseTrie<size_t, size_t> Tr;
static void tr_mut(Tr& t, unsigned c) { Lcg g{c}; std::vector<size_t> k(g(4)); for (auto& x : k) x = g(3); t.emplace(k, (size_t) (1 + g(50))); }
static Tr tr_make(unsigned c) { Tr t(bats::NO_IND); for (unsigned i = 0; i < c % 5; i++) tr_mut(t, c + i * 13); return t; }
static uint64_t dtr(const Tr& t) { uint64_t h = 50; for (size_t n = 0; n < 4; n++) { size_t m = 1; for (size_t i = 0; i < n; i++) m *= 3; for (size_t q = 0; q < m; q++) { std::vector<size_t> k; size_t r = q; for (size_t i = 0; i < n; i++) { k.push_back(r % 3); r /= 3; } h = H(h, t.get(k.cbegin(), k.cend(), (size_t) 777)); } } return h; }
typedef bats::zigzag::ZigzagFiltration<bats::SimplicialComplex, double> Zf;
static void zf_mut(Zf& Z, unsigned c) { Lcg g{c}; Spx s = some_simplex(g, 6, 2); Z.add_recursive(0.5 * g(4), 4.0, s); }
static Zf zf_make(unsigned c) { Zf Z; for (unsigned i = 0; i < 1 + c % 3; i++) zf_mut(Z, c + i * 13); return Z; }
static uint64_t dzf(const Zf& Z) { uint64_t h = dx(Z.complex()); for (auto& k : Z.vals()) for (auto& x : k) for (auto& p : x) h = H(H(h, (uint64_t) (p.first * 8)), (uint64_t) (p.second * 8)); return h; }
static bats::CellularMap map_make(unsigned c) { Lcg g{c}; bats::CellularMap f(g(3)); for (size_t k = 0; k <= f.maxdim(); k++) f[k] = mat_make<int>(c + (unsigned) k); return f; }
static void map_mut(bats::CellularMap& f, unsigned c) { Lcg g{c}; f[g(5)] = mat_make<int>(c); }
} // namespace kinds
