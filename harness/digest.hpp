// Digests of results and inputs, for comparing runs.
#pragma once
#include "common.hpp"
// ---- digests of results
static uint64_t dg(const std::vector<size_t>& s);
static uint64_t dg(const bats::CubicalComplex& X) { uint64_t h = 22; for (size_t k = 0; k <= X.maxdim(); k++) for (auto& c : X.get_cubes(k)) h = sim_mix(h, dg(c)); return h; }
static uint64_t dg(const SpxSet& s) { uint64_t h = 1; for (auto& x : s) { h = sim_mix(h, x.size()); for (auto v : x) h = sim_mix(h, v); } return h; }
static uint64_t dg(const bats::SimplicialComplex& X) { return digest(cells_of(X)); }
template <class F> uint64_t dg(const ColumnMatrix<SparseVector<F, size_t>>& A) { int p = PP(); PP() = FieldInfo<F>::p; uint64_t h = digest(dense<F>(A, "matrix")); PP() = p; return h; }
static uint64_t dg(const bats::CellularMap& f) { uint64_t h = 5; if (f.maxdim() + 1 == 0) return h; for (size_t k = 0; k <= f.maxdim(); k++) h = sim_mix(h, dg(f[k])); return h; }
static uint64_t dg(size_t x) { return x; }
static uint64_t dg(const std::set<size_t>& s) { uint64_t h = 9; for (auto x : s) h = sim_mix(h, x); return h; }
static uint64_t dg(const std::vector<size_t>& s) { uint64_t h = 8; for (auto x : s) h = sim_mix(h, x); return h; }
static uint64_t dg(const bats::Cover& c) { uint64_t h = 7; for (auto& s : c) h = sim_mix(h, dg(s)); return h; }
template <class F> uint64_t dg(const std::vector<ColumnMatrix<SparseVector<F, size_t>>>& v) { uint64_t h = 11; for (auto& A : v) h = sim_mix(h, dg(A)); return h; }
template <class TM> uint64_t dg(const bats::ChainComplex<TM>& C) { uint64_t h = 13; for (size_t k = 0; k <= C.maxdim(); k++) h = sim_mix(h, dg(C[k])); return h; }
template <class TM> uint64_t dg(const bats::ChainMap<TM>& C) { uint64_t h = 14; for (size_t k = 0; k <= C.maxdim(); k++) h = sim_mix(h, dg(C[k])); return h; }
template <class TM> uint64_t dg(const bats::ReducedChainComplex<TM>& C) { uint64_t h = 15; for (size_t k = 0; k <= C.maxdim(); k++) h = sim_mix(h, C.hdim(k)); return h; }
template <class TM> uint64_t dg(const bats::DGVectorSpace<TM>& C) { uint64_t h = 16; for (auto& d : C.differential) h = sim_mix(h, dg(d)); return h; }
template <class TM> uint64_t dg(const bats::DGLinearMap<TM>& C) { uint64_t h = 17; for (size_t k = 0; k <= C.maxdim(); k++) h = sim_mix(h, dg(C[k])); return h; }
template <class TM> uint64_t dg(const bats::ReducedDGVectorSpace<TM>& C) { uint64_t h = 18; for (size_t k = 0; k <= C.maxdim(); k++) h = sim_mix(h, C.hdim(k)); return h; }
template <class N, class E> uint64_t dg(const bats::Diagram<N, E>& D) { uint64_t h = 19; for (auto& n : D.node) h = sim_mix(h, dg(n)); for (size_t j = 0; j < D.nedge(); j++) { h = sim_mix(h, D.elist[j].src * 1000 + D.elist[j].targ); h = sim_mix(h, dg(D.edata[j])); } return h; }
// the intervals; positions in a node's basis depend on the algorithm chosen for the thread count
static uint64_t dg(const std::vector<bats::PersistencePair<size_t>>& p) { std::vector<std::array<size_t, 3>> v; for (auto& x : p) v.push_back({(size_t) x.dim, (size_t) x.birth, (size_t) x.death}); std::sort(v.begin(), v.end()); uint64_t h = 20; for (auto& x : v) for (auto y : x) h = sim_mix(h, y); return h; }
static uint64_t dg(const std::vector<std::vector<size_t>>& v) { uint64_t h = 21; for (auto& x : v) h = sim_mix(h, dg(x)); return h; }
