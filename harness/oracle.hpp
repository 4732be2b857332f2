// Independent reference models: exact dense linear algebra, simplicial and
// cubical sets, homology with bases, interval decompositions from ranks.
// Nothing here uses BATS.
#pragma once
#include <vector>
#include <map>
#include <set>
#include <string>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <sstream>
#include "sim.h"

namespace orc {
typedef std::vector<size_t> Spx;
typedef long long ll;
// ---- scalars: residues mod P, or fractions when P == 0
struct S { __int128 n = 0, d = 1; };
inline int& PP() { static int p = 2; return p; }
inline __int128 gcd128(__int128 a, __int128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { __int128 t = a % b; a = b; b = t; } return a ? a : 1; }
inline S norm(__int128 n, __int128 d) {
  if (PP()) { ll m = (ll) n == n ? (ll) n % PP() : (ll) (n % PP()); if (m < 0) m += PP(); return S{m, 1}; }
  if (d < 0) { n = -n; d = -d; }
  __int128 g = gcd128(n, d); n /= g; d /= g;
  const __int128 L = ((__int128) 1) << 60;
  if (n > L || n < -L || d > L) sim_inconclusive("reference arithmetic overflow");
  return S{n, d};
}
inline S mk(ll v) { return norm(v, 1); }
inline S mkq(ll n, ll d) { if (PP()) { ll inv = 1, b = ((d % PP()) + PP()) % PP(), e = PP() - 2; while (e) { if (e & 1) inv = inv * b % PP(); b = b * b % PP(); e >>= 1; } return norm((__int128) n * inv, 1); } return norm(n, d); }
inline bool zero(const S& a) { return a.n == 0; }
inline S add(const S& a, const S& b) { return PP() ? norm(a.n + b.n, 1) : norm(a.n * b.d + b.n * a.d, a.d * b.d); }
inline S neg(const S& a) { return norm(-a.n, a.d); }
inline S sub(const S& a, const S& b) { return add(a, neg(b)); }
inline S mul(const S& a, const S& b) { return PP() ? norm(a.n * b.n, 1) : norm(a.n * b.n, a.d * b.d); }
inline S inv(const S& a) { if (PP()) { ll r = 1, b = (ll) a.n, e = PP() - 2; while (e > 0) { if (e & 1) r = r * b % PP(); b = b * b % PP(); e >>= 1; } return S{r, 1}; } return norm(a.d, a.n); }
inline bool eq(const S& a, const S& b) { return a.n == b.n && a.d == b.d; }
inline std::string str(const S& a) { std::string s = std::to_string((ll) a.n); if (a.d != 1) s += "/" + std::to_string((ll) a.d); return s; }

// ---- dense matrices
struct M {
  size_t r = 0, c = 0; std::vector<S> a;
  M() {} M(size_t r, size_t c) : r(r), c(c), a(r * c) {}
  S& operator()(size_t i, size_t j) { return a[i * c + j]; }
  const S& operator()(size_t i, size_t j) const { return a[i * c + j]; }
};
inline M ident(size_t n) { M m(n, n); for (size_t i = 0; i < n; i++) m(i, i) = mk(1); return m; }
inline M operator*(const M& A, const M& B) { M C(A.r, B.c); if (A.c != B.r) sim_fail("harness", "reference product of %zux%zu by %zux%zu", A.r, A.c, B.r, B.c); for (size_t i = 0; i < A.r; i++) for (size_t k = 0; k < A.c; k++) { if (zero(A(i, k))) continue; for (size_t j = 0; j < B.c; j++) if (!zero(B(k, j))) C(i, j) = add(C(i, j), mul(A(i, k), B(k, j))); } return C; }
inline M operator+(const M& A, const M& B) { M C(A.r, A.c); for (size_t i = 0; i < A.a.size(); i++) C.a[i] = add(A.a[i], B.a[i]); return C; }
inline M operator-(const M& A, const M& B) { M C(A.r, A.c); for (size_t i = 0; i < A.a.size(); i++) C.a[i] = sub(A.a[i], B.a[i]); return C; }
inline bool operator==(const M& A, const M& B) { if (A.r != B.r || A.c != B.c) return false; for (size_t i = 0; i < A.a.size(); i++) if (!eq(A.a[i], B.a[i])) return false; return true; }
inline bool operator!=(const M& A, const M& B) { return !(A == B); }
inline M tr(const M& A) { M B(A.c, A.r); for (size_t i = 0; i < A.r; i++) for (size_t j = 0; j < A.c; j++) B(j, i) = A(i, j); return B; }
inline bool is_zero(const M& A) { for (auto& x : A.a) if (!zero(x)) return false; return true; }
inline M cols(const M& A, const std::vector<size_t>& js) { M B(A.r, js.size()); for (size_t j = 0; j < js.size(); j++) for (size_t i = 0; i < A.r; i++) B(i, j) = A(i, js[j]); return B; }
inline M hcat(const M& A, const M& B) { M C(A.r ? A.r : B.r, A.c + B.c); for (size_t i = 0; i < C.r; i++) { for (size_t j = 0; j < A.c; j++) C(i, j) = A(i, j); for (size_t j = 0; j < B.c; j++) C(i, A.c + j) = B(i, j); } return C; }
inline M vcat(const M& A, const M& B) { return tr(hcat(tr(A), tr(B))); }
// row echelon form; returns pivot columns
inline std::vector<size_t> echelon(M& A) {
  std::vector<size_t> piv; size_t row = 0;
  for (size_t j = 0; j < A.c && row < A.r; j++) {
    size_t p = row; while (p < A.r && zero(A(p, j))) p++;
    if (p == A.r) continue;
    if (p != row) for (size_t k = 0; k < A.c; k++) std::swap(A(p, k), A(row, k));
    S iv = inv(A(row, j));
    for (size_t k = j; k < A.c; k++) A(row, k) = mul(A(row, k), iv);
    for (size_t i = 0; i < A.r; i++) if (i != row && !zero(A(i, j))) { S f = A(i, j); for (size_t k = j; k < A.c; k++) if (!zero(A(row, k))) A(i, k) = sub(A(i, k), mul(f, A(row, k))); }
    piv.push_back(j); row++;
  }
  return piv;
}
inline size_t rank(M A) { return echelon(A).size(); }
inline M kernel(M A) { // columns span ker A
  size_t n = A.c; auto piv = echelon(A); std::vector<bool> isp(n, false); for (auto p : piv) isp[p] = true;
  std::vector<size_t> fr; for (size_t j = 0; j < n; j++) if (!isp[j]) fr.push_back(j);
  M K(n, fr.size());
  for (size_t k = 0; k < fr.size(); k++) { K(fr[k], k) = mk(1); for (size_t i = 0; i < piv.size(); i++) K(piv[i], k) = neg(A(i, fr[k])); }
  return K;
}
inline M image(const M& A) { M B = A; auto p = echelon(B); return cols(A, p); }
// X with A X = B (A full column rank); ok=false if impossible
inline M solve(const M& A, const M& B, bool* ok = nullptr) {
  M W = hcat(A, B); if (A.r == 0) { W = M(0, A.c + B.c); }
  auto piv = echelon(W); M X(A.c, B.c); bool good = true;
  for (auto p : piv) if (p >= A.c) good = false;
  for (size_t i = 0; i < piv.size(); i++) if (piv[i] < A.c) for (size_t j = 0; j < B.c; j++) X(piv[i], j) = W(i, A.c + j);
  if (ok) *ok = good; else if (!good) sim_fail("harness", "reference solve: inconsistent system");
  return X;
}
inline size_t rank_of_span_intersection(const M& A, const M& B) { return rank(A) + rank(B) - rank(hcat(A, B)); }
inline std::string show(const M& A) { std::string s = "[" + std::to_string(A.r) + "x" + std::to_string(A.c) + "]"; for (size_t i = 0; i < A.r; i++) { s += i ? "; " : " "; for (size_t j = 0; j < A.c; j++) s += (j ? "," : "") + str(A(i, j)); } return s; }

// ---- simplicial sets
typedef std::set<Spx> SpxSet;
inline std::string show(const Spx& s) { std::string r = "("; for (size_t i = 0; i < s.size(); i++) r += (i ? "," : "") + std::to_string(s[i]); return r + ")"; }
inline std::string show(const SpxSet& X) { std::string r = "{"; for (auto& s : X) r += show(s); return r + "}"; }
inline void add_closed(SpxSet& X, Spx s) { std::sort(s.begin(), s.end()); if (X.count(s)) return; X.insert(s); if (s.size() > 1) for (size_t i = 0; i < s.size(); i++) { Spx f = s; f.erase(f.begin() + i); add_closed(X, f); } }
inline bool closed(const SpxSet& X, Spx* bad = nullptr) { for (auto& s : X) if (s.size() > 1) for (size_t i = 0; i < s.size(); i++) { Spx f = s; f.erase(f.begin() + i); if (!X.count(f)) { if (bad) *bad = s; return false; } } return true; }
inline int sort_sign(Spx& s) { int sg = 1; for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j + 1 < s.size(); j++) if (s[j] > s[j + 1]) { std::swap(s[j], s[j + 1]); sg = -sg; } for (size_t i = 0; i + 1 < s.size(); i++) if (s[i] == s[i + 1]) return 0; return sg; }
// flag complex of a graph on n vertices up to dimension dmax
template <class Adj> SpxSet flag(size_t n, Adj adj, size_t dmax) {
  SpxSet X; std::vector<Spx> cur; for (size_t i = 0; i < n; i++) { cur.push_back({i}); X.insert({i}); }
  for (size_t d = 1; d <= dmax; d++) { std::vector<Spx> nx; for (auto& s : cur) for (size_t v = s.back() + 1; v < n; v++) { bool ok = true; for (auto u : s) if (!adj(u, v)) { ok = false; break; } if (ok) { Spx t = s; t.push_back(v); nx.push_back(t); X.insert(t); } } cur.swap(nx); }
  return X;
}
inline std::vector<std::vector<Spx>> by_dim(const SpxSet& X, int maxd = -1) { std::vector<std::vector<Spx>> r(maxd + 1); for (auto& s : X) { if (r.size() < s.size()) r.resize(s.size()); r[s.size() - 1].push_back(s); } return r; }
// boundary matrix between ordered lists of simplices
inline M boundary(const std::vector<Spx>& lo, const std::vector<Spx>& hi) {
  std::map<Spx, size_t> ix; for (size_t i = 0; i < lo.size(); i++) ix[lo[i]] = i;
  M B(lo.size(), hi.size());
  for (size_t j = 0; j < hi.size(); j++) for (size_t k = 0; k < hi[j].size() && hi[j].size() > 1; k++) { Spx f = hi[j]; f.erase(f.begin() + k); auto it = ix.find(f); if (it == ix.end()) sim_fail("harness", "reference boundary: missing face"); B(it->second, j) = mk(k % 2 ? -1 : 1); }
  return B;
}
// ---- homology of a complex given by boundary matrices d[k]: C_k -> C_{k-1}; d[0] has 0 rows
struct Hom { M Z, B, H; size_t dim() const { return H.c; } };  // cycles, boundaries, representatives completing B to Z
inline Hom homology(const M& dk, const M& dk1) {
  Hom h; h.Z = kernel(dk); h.B = image(dk1);
  if (dk1.r == 0 && dk.c) h.B = M(dk.c, 0);
  M W = hcat(h.B, h.Z); if (W.r == 0) W.r = dk.c; M E = W; auto p = echelon(E); std::vector<size_t> q; for (auto x : p) if (x >= h.B.c) q.push_back(x);
  h.H = cols(W, q); return h;
}
// coordinates in H of the classes of the columns of C (must be cycles)
inline M coords(const Hom& h, const M& C, bool* ok = nullptr) { M A = hcat(h.H, h.B); if (A.r == 0) A.r = C.r; M X = solve(A, C, ok); M Y(h.H.c, C.c); for (size_t i = 0; i < h.H.c; i++) for (size_t j = 0; j < C.c; j++) Y(i, j) = X(i, j); return Y; }

// ---- interval decomposition of a zigzag module from ranks of sub-segments
// dims[i]; map i between node i and i+1: fwd[i] ? V_i -> V_{i+1} : V_{i+1} -> V_i
struct Zig { std::vector<size_t> dim; std::vector<M> f; std::vector<bool> fwd; };
inline size_t seg_rank(const Zig& z, size_t a, size_t b) {
  std::vector<size_t> off(1, 0); for (size_t i = a; i <= b; i++) off.push_back(off.back() + z.dim[i]);
  size_t N = off.back(); if (!N) return 0;
  for (size_t i = a; i <= b; i++) if (!z.dim[i]) return 0;
  size_t rows = 0; for (size_t i = a; i < b; i++) rows += z.f[i].r;
  M L(rows, N), C(N, 0); size_t r0 = 0; size_t cc = 0; for (size_t i = a; i < b; i++) cc += z.f[i].c; C = M(N, cc); size_t c0 = 0;
  for (size_t i = a; i < b; i++) { // lim: f(x_src) = x_dst ; colim: identify x with f(x)
    size_t s = z.fwd[i] ? i : i + 1, t = z.fwd[i] ? i + 1 : i; const M& f = z.f[i];
    for (size_t p = 0; p < f.r; p++) { for (size_t q = 0; q < f.c; q++) L(r0 + p, off[s - a] + q) = f(p, q); L(r0 + p, off[t - a] + p) = mk(-1); }
    for (size_t q = 0; q < f.c; q++) { C(off[s - a] + q, c0 + q) = mk(-1); for (size_t p = 0; p < f.r; p++) C(off[t - a] + p, c0 + q) = f(p, q); }
    r0 += f.r; c0 += f.c;
  }
  M K = rows ? kernel(L) : ident(N);
  // project the limit to node a, include in the sum, take modulo the colimit relations
  M I(N, K.c); for (size_t q = 0; q < z.dim[a]; q++) for (size_t j = 0; j < K.c; j++) I(q, j) = K(q, j);
  return rank(hcat(C, I)) - rank(C);
}
typedef std::map<std::pair<size_t, size_t>, long> Bars;
inline Bars zig_bars(const Zig& z) {
  size_t n = z.dim.size(); std::vector<std::vector<long>> r(n, std::vector<long>(n, 0));
  for (size_t a = 0; a < n; a++) for (size_t b = a; b < n; b++) { if (b > a && !r[a][b - 1]) break; r[a][b] = (long) seg_rank(z, a, b); }
  Bars out;
  for (size_t a = 0; a < n; a++) for (size_t b = a; b < n; b++) { long m = r[a][b] - (a ? r[a - 1][b] : 0) - (b + 1 < n ? r[a][b + 1] : 0) + (a && b + 1 < n ? r[a - 1][b + 1] : 0); if (m < 0) sim_fail("harness", "negative multiplicity in the reference decomposition"); if (m) out[{a, b}] = m; }
  return out;
}
inline std::string show(const Bars& b) { std::string s; for (auto& x : b) s += "[" + std::to_string(x.first.first) + "," + std::to_string(x.first.second) + "]x" + std::to_string(x.second) + " "; return s; }

// ---- persistence of an ordered, filtered complex by ranks
// cells of all dimensions in filtration order; bd[j] = boundary over earlier cells of one dimension less
struct FCell { int dim; double val; std::vector<std::pair<size_t, int>> bd; };
// pairs (birth cell, death cell or -1) by plain left-to-right elimination over the current field
inline std::vector<std::pair<long, long>> pairing(const std::vector<FCell>& c) {
  size_t n = c.size(); std::vector<std::map<size_t, S>> col(n); std::map<size_t, size_t> low; std::vector<long> mate(n, -1); std::vector<bool> neg_(n, false);
  for (size_t j = 0; j < n; j++) {
    for (auto& e : c[j].bd) { S v = add(col[j].count(e.first) ? col[j][e.first] : S{}, mk(e.second)); if (zero(v)) col[j].erase(e.first); else col[j][e.first] = v; }
    while (!col[j].empty()) {
      size_t p = col[j].rbegin()->first; auto it = low.find(p); if (it == low.end()) break;
      auto& o = col[it->second]; S f = mul(col[j].rbegin()->second, inv(o.rbegin()->second));
      for (auto& e : o) { S v = sub(col[j].count(e.first) ? col[j][e.first] : S{}, mul(f, e.second)); if (zero(v)) col[j].erase(e.first); else col[j][e.first] = v; }
    }
    if (!col[j].empty()) { size_t p = col[j].rbegin()->first; low[p] = j; mate[p] = (long) j; neg_[j] = true; }
  }
  std::vector<std::pair<long, long>> r; for (size_t j = 0; j < n; j++) if (!neg_[j]) r.push_back({(long) j, mate[j]});
  return r;
}
} // namespace orc
