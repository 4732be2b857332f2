#pragma once
#include "sim.h"
#include "oracle.hpp"
#include <bats.hpp>
#include <iostream>
#include <sstream>
#include <fstream>
#include <locale>

using namespace orc;
typedef ModP<int, 2> F2; typedef ModP<int, 3> F3; typedef ModP<int, 5> F5; typedef Rational<int> FQ;
template <class F> struct FieldInfo;
template <> struct FieldInfo<F2> { static const int p = 2; };
template <> struct FieldInfo<F3> { static const int p = 3; };
template <> struct FieldInfo<F5> { static const int p = 5; };
template <> struct FieldInfo<FQ> { static const int p = 0; };
template <> struct FieldInfo<int> { static const int p = 0; };
template <class F> using VT = SparseVector<F, size_t>;
template <class F> using MT = ColumnMatrix<VT<F>>;
typedef VT<int> VZ; typedef MT<int> MZ;

inline S toS(int v) { return mk(v); }
template <class I, unsigned p> S toS(const ModP<I, p>& v) { return mk((ll) v.to_int()); }
template <class I> S toS(const Rational<I>& v) { // the fields are private: read the printed form
  sim::Off o; std::ostringstream ss; ss << v; std::string t = ss.str(); size_t k = t.find('/'); ll n = atoll(t.c_str()), d = k == std::string::npos ? 1 : atoll(t.c_str() + k + 1);
  if (d == 0) sim_fail("bad-rational", "rational with zero denominator: %s", t.c_str());
  return mkq(n, d);
}
template <class F> void use_field() { PP() = FieldInfo<F>::p; }

// dense copy of a sparse matrix, checking the column invariants on the way
template <class F> M dense(const MT<F>& A, const char* what, bool check = true) {
  sim::Off off;
  M D(A.nrow(), A.ncol());
  if (A.cols().size() != A.ncol()) sim_fail("malformed", "%s: %zu stored columns but ncol()=%zu", what, A.cols().size(), A.ncol());
  for (size_t j = 0; j < A.ncol(); j++) {
    long last = -1;
    for (auto it = A[j].nzbegin(); it != A[j].nzend(); ++it) {
      size_t i = (*it).ind;
      if (i >= A.nrow()) sim_fail("malformed", "%s: row index %zu outside %zu rows in column %zu", what, i, A.nrow(), j);
      if (check && (long) i <= last) sim_fail("malformed", "%s: column %zu is not sorted by row index (%ld then %zu)", what, j, last, i);
      S v = toS((*it).val);
      if (check && zero(v)) sim_fail("malformed", "%s: stored zero at (%zu,%zu)", what, i, j);
      D(i, j) = add(D(i, j), v); last = (long) i;
    }
  }
  return D;
}
template <class F> MT<F> sparse(const M& D) { // only for integer or residue entries
  std::vector<VT<F>> cs; for (size_t j = 0; j < D.c; j++) { VT<F> v; for (size_t i = 0; i < D.r; i++) if (!zero(D(i, j))) v.emplace_back(i, F((int) D(i, j).n)); cs.push_back(v); }
  return MT<F>(D.r, D.c, cs);
}
inline void need_fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define need(c, ...) (__builtin_expect((bool) (c), 1) ? (void) 0 : need_fail(__VA_ARGS__)) // the arguments are evaluated only on failure
inline void need_fail(const char* key, const char* fmt, ...) { char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); sim_fail(key, "%s", b); }

// ---- reading BATS complexes without trusting their lookup
inline std::vector<std::vector<Spx>> cells_of(const bats::SimplicialComplex& X) { sim::Off o; std::vector<std::vector<Spx>> r; for (size_t k = 0; k <= X.maxdim(); k++) { r.push_back(X.get_simplices(k)); if (r.back().size() != X.ncells(k)) sim_fail("cell-count", "dimension %zu lists %zu simplices but ncells is %zu", k, r.back().size(), X.ncells(k)); } return r; }
inline SpxSet set_of(const std::vector<std::vector<Spx>>& c) { SpxSet s; for (auto& k : c) for (auto& x : k) if (!s.insert(x).second) sim_fail("duplicate-cell", "simplex %s is listed twice", show(x).c_str()); return s; }
// a boundary may be the standard one or its negative, the same for every complex of a run in one dimension
inline bool same_boundary(const M& got, const M& want, size_t dim, int family = 0) {
  static int orient[4][16]; if (is_zero(want) || dim > 15) return got == want;
  int& o = orient[family][dim]; M neg_(want.r, want.c); for (size_t i = 0; i < want.a.size(); i++) neg_.a[i] = neg(want.a[i]);
  if (got == want && (o >= 0 || neg_ == want)) { if (!(neg_ == want)) o = 1; return true; }
  if (got == neg_ && o <= 0) { o = -1; return true; }
  return false;
}
// complex equals the reference set, is closed, finds its cells, has the right boundaries
inline void check_complex(const bats::SimplicialComplex& X, const SpxSet& want, const char* what) {
  sim::Off o;
  auto c = cells_of(X); SpxSet got = set_of(c);
  if (got != want) { std::string miss, extra; for (auto& s : want) if (!got.count(s)) miss += show(s); for (auto& s : got) if (!want.count(s)) extra += show(s); sim_fail("wrong-cells", "%s: missing %s extra %s", what, miss.c_str(), extra.c_str()); }
  for (size_t k = 0; k < c.size(); k++) for (size_t i = 0; i < c[k].size(); i++) { size_t j = X.find_idx(c[k][i]); if (j != i) sim_fail("wrong-lookup", "%s: simplex %s has index %zu but lookup gives %zu", what, show(c[k][i]).c_str(), i, j); }
  int p = PP(); PP() = 0;
  for (size_t k = 1; k < c.size(); k++) {
    M want_b = boundary(c[k - 1], c[k]); MT<int> got_b(X.boundary_csc(k)); M gb = dense<int>(got_b, what);
    if (!same_boundary(gb, want_b, k)) sim_fail("wrong-boundary", "%s: boundary matrix in dimension %zu is %s, expected %s", what, k, show(gb).c_str(), show(want_b).c_str());
  }
  PP() = p;
}
inline uint64_t digest(const std::vector<std::vector<Spx>>& c) { uint64_t h = 3; for (auto& k : c) { h = sim_mix(h, 77); for (auto& s : k) { h = sim_mix(h, s.size()); for (auto v : s) h = sim_mix(h, v); } } return h; }
inline uint64_t digest(const M& A) { uint64_t h = sim_mix(A.r, A.c); for (auto& x : A.a) h = sim_mix(h, (uint64_t) x.n * 31 + (uint64_t) x.d); return h; }

// ---- swarm: draws the environment of a run
inline int rnd(int lo, int hi) { return sim::range(lo, hi); }
// once in a while there are many small things for many threads
inline bool& WIDE() { static bool w = false; return w; }
inline int many(int lo, int hi) { return WIDE() ? rnd(9, 26) : rnd(lo, hi); }
// once in a while everything generated is several times larger
inline int& ZOOM() { static int z = 1; return z; }
inline int zm(int n, int cap = 1 << 20) { return std::max(n, std::min(n * ZOOM(), cap)); }
inline void zoom(int one_in = 120) { if (sim::chance(1, one_in)) { static const int z[] = {2, 3, 5}; ZOOM() = z[sim::pick(3)]; sim_probe("larger-inputs"); sim_desc("zoom=%d ", ZOOM()); } else if (sim::chance(1, 100)) { WIDE() = true; sim_probe("wide-inputs"); } }
inline void swarm_env(int maxthreads = 16) {
  static const int th[] = {1, 2, 3, 4, 5, 8, 16};
  int n = th[sim_spick(7)]; if (n > maxthreads) n = maxthreads;
  sim_set_threads(n);
  sim_heap_fill((int) sim_fpick(5), sim_fpick(1u << 30)); zoom(); if (WIDE() && maxthreads >= 16) sim_set_threads(9 + sim_spick(24));
}
// the rational field (number q of n) only with inputs of the usual size: its ints overflow
inline int pick_field(int n, int q) { int k = sim::pick(n); return ZOOM() > 1 && k == q ? 0 : k; }
extern "C" void sim_warmup() {
  std::stringstream ss; ss << 1.5 << ' ' << 12 << ' ' << std::string("x"); double d; int i; std::string s; ss >> d >> i >> s;
  { std::istringstream is("3,4"); std::string t; getline(is, t, ','); (void) std::stoi(t); (void) std::stod("1.25"); }
  { std::ofstream f("/simfs/warm"); f << 3 << "\n" << 2.5 << "x"; f.close(); std::ifstream g("/simfs/warm"); int q; g >> q; sim_fs_remove("/simfs/warm"); }
  try { throw std::runtime_error("warm"); } catch (std::exception&) {}
}
