#include <deque>
#include "common.hpp"
#include "kinds.hpp"
#include "exhaust.hpp"
#include <linalg/pid.hpp>
#include <linalg/rcf.hpp>
// Factorizations of sparse matrices, inverses and commutation identities against dense algebra.
using namespace kinds;
static const bool quiet_ = (std::cout.setstate(std::ios::failbit), true);
template <class Fn, class Dg, class In> static auto run(Fn op, Dg dgst, In in, const char* what) {
  sim_desc("| %s ", what); if (sim::chance(1, 6)) { sim_probe("exhausted"); exhaust([&]() -> uint64_t { sim::Sys s; auto R = op(); sim::Off o; return dgst(R); }, in, what); }
  sim::Sys s; return op();
}
template <class F> static F lib(const S& s) { if constexpr (std::is_same<F, FQ>::value) return FQ((int) s.n, (int) s.d); else return F((int) s.n); }
template <class F> static MT<F> lsparse(const M& D) { std::vector<VT<F>> c(D.c); for (size_t j = 0; j < D.c; j++) for (size_t i = 0; i < D.r; i++) if (!zero(D(i, j))) c[j].emplace_back(i, lib<F>(D(i, j))); return MT<F>(D.r, D.c, c); }
template <class F> static S some() { return PP() ? mk(rnd(0, PP() - 1)) : mkq(rnd(-2, 2), rnd(1, 2)); }
template <class F> static S unit() { S v = some<F>(); return zero(v) ? mk(1) : v; }
// matrices of every rank: plain random, products through a narrow middle, scaled partial permutations, equal or empty columns
template <class F> static M some_matrix(size_t r, size_t c) {
  M A(r, c); auto fill = [&](M& B, int k) { for (auto& v : B.a) if ((int) sim::pick(5) < k) v = some<F>(); };
  switch (sim::pick(5)) {
    case 0: fill(A, rnd(0, 5)); break;
    case 1: { size_t k = rnd(0, (int) std::min(r, c)); M B(r, k), C(k, c); fill(B, rnd(2, 4)); fill(C, rnd(2, 4)); A = B * C; break; }
    case 2: { std::vector<size_t> p; for (size_t i = 0; i < r; i++) p.push_back(i); for (size_t i = r; i > 1; i--) std::swap(p[i - 1], p[sim::pick(i)]); for (size_t j = 0; j < c && j < r; j++) if (sim::chance(2, 3)) A(p[j], j) = unit<F>(); for (int t = rnd(0, 2); t > 0; t--) if (r && c) A(sim::pick(r), sim::pick(c)) = some<F>(); break; }
    case 3: fill(A, rnd(1, 5)); for (size_t j = 1; j < c; j++) if (sim::chance(1, 3)) { size_t k = sim::pick(j); S s = some<F>(); for (size_t i = 0; i < r; i++) A(i, j) = mul(s, A(i, k)); } break;
    default: fill(A, rnd(2, 5)); for (size_t i = 0; i < r; i++) if (sim::chance(1, 3)) for (size_t j = 0; j < c; j++) A(i, j) = S{}; }
  return A;
}
template <class F> static M triangular(size_t n, bool upper) { M A = ident(n); int k = rnd(0, 4); for (size_t i = 0; i < n; i++) { if (sim::chance(1, 2)) A(i, i) = unit<F>(); for (size_t j = 0; j < n; j++) if ((upper ? i < j : j < i) && (int) sim::pick(4) < k) A(i, j) = some<F>(); } return A; }
static bool tri(const M& A, bool upper) { if (A.r != A.c) return false; for (size_t i = 0; i < A.r; i++) { if (zero(A(i, i))) return false; for (size_t j = 0; j < A.c; j++) if ((upper ? i > j : i < j) && !zero(A(i, j))) return false; } return true; }
static bool pivots(const M& A) { std::vector<int> r(A.r), c(A.c); for (size_t i = 0; i < A.r; i++) for (size_t j = 0; j < A.c; j++) if (!zero(A(i, j))) if (r[i]++ || c[j]++) return false; return true; }
static bool permutation(const M& A) { if (A.r != A.c || !pivots(A)) return false; size_t k = 0; for (auto& v : A.a) if (!zero(v)) { if (!eq(v, mk(1))) return false; k++; } return k == A.r; }
// pivots in the first columns, one below the other
static bool echelon_low(const M& A) { long last = -1; bool end = false; for (size_t j = 0; j < A.c; j++) { long at = -1, k = 0; for (size_t i = 0; i < A.r; i++) if (!zero(A(i, j))) { at = (long) i; k++; } if (k > 1) return false; if (!k) end = true; else { if (end || at <= last) return false; last = at; } } return true; }
static M J(const M& A) { M B(A.r, A.c); for (size_t i = 0; i < A.r; i++) for (size_t j = 0; j < A.c; j++) B(i, j) = A(A.r - 1 - i, A.c - 1 - j); return B; }
static size_t nnz(const M& A) { size_t k = 0; for (auto& v : A.a) k += !zero(v); return k; }
static bool huge(const M& A) { if (PP()) return false; for (auto& v : A.a) if (v.n > 100 || v.n < -100 || v.d > 12) return true; return false; }
template <class F> struct Fact { M L, E, U, P; };
enum Kind { K_LEUP, K_PLEU, K_UELP, K_PUEL, K_LQU, K_UQL };
static const char* kind_names[] = {"LEUP", "PLEU", "UELP", "PUEL", "LQU", "UQL"};
template <class F> static void check(const SparseFact<VT<F>>& f, const M& A, int k) {
  sim::Off o; const char* w = kind_names[k]; M L = dense<F>(f.L, "L"), U = dense<F>(f.U, "U"), E = dense<F>(f.E, "E"), P; bool p = k < K_LQU; if (p) P = dense<F>(f.P, "P");
  need(E.r == A.r && E.c == A.c, "wrong-shape", "%s: E is %zux%zu", w, E.r, E.c); bool lrow = k == K_LEUP || k == K_PLEU || k == K_LQU; size_t ln = lrow ? A.r : A.c, un = lrow ? A.c : A.r; need(L.r == ln && L.c == ln && U.r == un && U.c == un, "wrong-shape", "%s: L is %zux%zu and U %zux%zu", w, L.r, L.c, U.r, U.c);
  need(tri(L, false), "wrong-form", "%s: L is not an invertible lower triangle: %s", w, orc::show(L).c_str()); need(tri(U, true), "wrong-form", "%s: U is not an invertible upper triangle: %s", w, orc::show(U).c_str()); if (p) { size_t pn = k == K_LEUP || k == K_UELP ? A.c : A.r; need(P.r == pn && permutation(P), "wrong-form", "%s: P is not a permutation: %s", w, orc::show(P).c_str()); }
  need(pivots(E), "wrong-form", "%s: E is not a pivot matrix: %s", w, orc::show(E).c_str()); need(nnz(E) == rank(A), "wrong-rank", "%s: %zu pivots, the rank is %zu", w, nnz(E), rank(A));
  bool form = k == K_LEUP ? echelon_low(E) : k == K_PLEU ? echelon_low(tr(E)) : k == K_UELP ? echelon_low(J(E)) : k == K_PUEL ? echelon_low(tr(J(E))) : true; need(form, "wrong-form", "%s: E is %s", w, orc::show(E).c_str());
  M W = k == K_LEUP ? L * E * U * P : k == K_PLEU ? P * L * E * U : k == K_UELP ? U * E * L * P : k == K_PUEL ? P * U * E * L : k == K_LQU ? L * E * U : U * E * L; need(W == A, "wrong-product", "%s: the product of the factors is %s instead of %s", w, orc::show(W).c_str(), orc::show(A).c_str());
}
template <class F> static SparseFact<VT<F>> start(const MT<F>& A, int k) { // factors from which the in-place version starts
  SparseFact<VT<F>> f; size_t m = A.nrow(), n = A.ncol(); if (k == K_PLEU || k == K_PUEL) std::swap(m, n); typedef MT<F> T; f.E = A; f.L = T::identity(m); f.U = T::identity(n); f.P = T::identity(n); return f;
}
template <class F> static SparseFact<VT<F>> factor(const MT<F>& A, int k, bool in_place) {
  if (!in_place) switch (k) { case K_LEUP: return LEUP(A); case K_PLEU: return PLEU(A); case K_UELP: return UELP(A); case K_PUEL: return PUEL(A); case K_LQU: return LQU(A); default: return UQL(A); }
  auto f = start<F>(A, k); switch (k) { case K_LEUP: LEUP_inplace(f); break; case K_PLEU: PLEU_inplace(f); break; case K_UELP: UELP_inplace(f); break; case K_PUEL: PUEL_inplace(f); break; default: LQU_inplace(f); } return f;
}
template <class F> static void factors() {
  use_field<F>(); size_t cap = PP() ? zm(7, 10) : 4; std::deque<MT<F>> pool; std::vector<M> D; auto put = [&](const MT<F>& A, const M& d) { pool.push_back(A); D.push_back(d); };
  { M d = some_matrix<F>(rnd(0, (int) cap), rnd(0, (int) cap)); sim_desc("%s ", orc::show(d).c_str()); put(lsparse<F>(d), d); }
  for (int t = rnd(1, 3); t > 0; t--) {
    size_t i = sim::pick(pool.size()); M d = D[i]; MT<F>& A = pool[i]; auto in = [&] { return dm<F>(A); }; int k = rnd(0, 5); bool ip = k < K_UQL && sim::chance(1, 3);
    auto dg = [](const SparseFact<VT<F>>& f) { return H(H(dm<F>(f.L), dm<F>(f.U)), H(dm<F>(f.E), dm<F>(f.P))); };
    auto f = run([&] { return factor<F>(A, k, ip); }, dg, in, kind_names[k]); check<F>(f, d, k); { sim::Off o; M a = dense<F>(A, "input"); need(a == d, "changed", "%s changed its argument to %s", kind_names[k], orc::show(a).c_str()); }
    { MT<F> W; { sim::Sys s; switch (k) { case K_LEUP: W = f.LEUP_prod(); break; case K_PLEU: W = f.PLEU_prod(); break; case K_UELP: W = f.UELP_prod(); break; case K_PUEL: W = f.PUEL_prod(); break; case K_LQU: W = f.LQU_prod(); break; default: W = f.UQL_prod(); } } sim::Off o; M w = dense<F>(W, "product"); need(w == d, "wrong-product", "%s: the product method gives %s instead of %s", kind_names[k], orc::show(w).c_str(), orc::show(d).c_str()); put(W, w); }
    // factors are matrices with a history; later steps factor them and their products again
    sim::Off o; M l = dense<F>(f.L, "L"), u = dense<F>(f.U, "U"), e = dense<F>(f.E, "E"); if (huge(l) || huge(u) || huge(e)) return; switch (sim::pick(4)) { case 0: put(f.L, l); break; case 1: put(f.U, u); break; case 2: put(f.E, e); break; default: { MT<F> T; { sim::Sys s; T = A.T(); } put(T, tr(d)); } }
  }
}
#define FIELDS4(call) switch (sim::pick(4)) { case 0: { typedef F2 F_; call; break; } case 1: { typedef F3 F_; call; break; } case 2: { typedef F5 F_; call; break; } default: { typedef FQ F_; call; } }
SIM_SCENARIO(H11, factors, 4) { swarm_env(); FIELDS4(factors<F_>()) }
// ---- inverses and solves
template <class F> static void inverses() {
  use_field<F>(); size_t n = rnd(0, PP() ? zm(7, 10) : 4); int k = rnd(0, 4); auto dg = [](const MT<F>& f) { return dm<F>(f); };
  if (k == 0) { // any invertible matrix
    M d = triangular<F>(n, true) * triangular<F>(n, false); for (size_t i = n; i > 1; i--) { size_t j = sim::pick(i); for (size_t c = 0; c < n; c++) std::swap(d(i - 1, c), d(j, c)); } if (huge(d)) return; sim_desc("%s ", orc::show(d).c_str()); auto A = lsparse<F>(d); auto R = run([&] { return inv(A); }, dg, [&] { return dm<F>(A); }, "inverse"); sim::Off o; M r = dense<F>(R, "inverse"); need(r.r == n && r.c == n && d * r == ident(n), "wrong-inverse", "the inverse is %s", orc::show(r).c_str()); return;
  }
  bool up = k & 1; M d = triangular<F>(n, up); sim_desc("%s ", orc::show(d).c_str()); auto A = lsparse<F>(d); auto in = [&] { return dm<F>(A); };
  if (k < 3) { auto R = run([&] { return up ? u_inv(A) : l_inv(A); }, dg, in, "triangular inverse"); sim::Off o; M r = dense<F>(R, "inverse"); need(r.r == n && r.c == n && d * r == ident(n), "wrong-inverse", "the inverse is %s", orc::show(r).c_str()); need(tri(r, up), "wrong-form", "the inverse is not triangular: %s", orc::show(r).c_str()); }
  else { size_t c = rnd(0, 4); M b = some_matrix<F>(n, c); auto B = lsparse<F>(b); auto R = run([&] { return up ? u_solve(A, B) : l_solve(A, B); }, dg, in, "triangular solve"); sim::Off o; M r = dense<F>(R, "solution"); need(r.r == n && r.c == c && d * r == b, "wrong-solution", "the solution for %s is %s", orc::show(b).c_str(), orc::show(r).c_str()); }
}
SIM_SCENARIO(H11, inverses, 2) { swarm_env(); FIELDS4(inverses<F_>()) }
// ---- moving triangles past echelon pivots
template <class F> static void commute() {
  use_field<F>(); size_t m = rnd(0, PP() ? zm(7, 10) : 4), n = rnd(0, PP() ? zm(7, 10) : 4), r = rnd(0, (int) std::min(m, n)); M e(m, n); { std::vector<size_t> rows; for (size_t i = 0; i < m; i++) rows.push_back(i); while (rows.size() > r) rows.erase(rows.begin() + sim::pick(rows.size())); for (size_t k = 0; k < r; k++) e(rows[k], k) = unit<F>(); } int kind = rnd(0, 3); auto dg = [](const MT<F>& f) { return dm<F>(f); };
  // e has form EL; the other three forms are its transpose and reversals
  if (kind == 1) e = tr(J(e)); else if (kind == 2) e = tr(e); else if (kind == 3) e = J(e); bool right = kind == 0 || kind == 3; bool up = kind >= 2; M t = triangular<F>(right ? e.c : e.r, up); sim_desc("%s, %s ", orc::show(e).c_str(), orc::show(t).c_str()); auto E = lsparse<F>(e), T = lsparse<F>(t); { sim::Off o; bool form; { sim::Sys s; form = kind == 0 ? E.is_EL() : kind == 1 ? E.is_ELhat() : kind == 2 ? E.is_EU() : E.is_EUhat(); } need(form, "wrong-form", "%s is not recognised", orc::show(e).c_str()); }
  auto in = [&] { return H(dm<F>(E), dm<F>(T)); }; static const char* nm[] = {"EL_L_commute", "L_EL_commute", "U_EU_commute", "EU_U_commute"}; auto R = run([&] { switch (kind) { case 0: return EL_L_commute(E, T); case 1: return L_EL_commute(T, E); case 2: return U_EU_commute(T, E); default: return EU_U_commute(E, T); } }, dg, in, nm[kind]);
  sim::Off o; M x = dense<F>(R, nm[kind]); size_t want = right ? e.r : e.c; need(x.r == want && tri(x, up), "wrong-form", "%s returned %s", nm[kind], orc::show(x).c_str()); M a = right ? x * e : e * x, b = right ? e * t : t * e; need(a == b, "wrong-product", "%s returned %s, which gives %s instead of %s", nm[kind], orc::show(x).c_str(), orc::show(a).c_str(), orc::show(b).c_str());
}
SIM_SCENARIO(H11, commute, 2) { swarm_env(); FIELDS4(commute<F_>()) }
// ---- normal forms over integers and polynomials

typedef std::vector<ll> Pol; // over the integers: one entry; over F_p: coefficients
static void trim(Pol& a) { while (!a.empty() && a.back() == 0) a.pop_back(); }
static int RP = 0; // characteristic, 0 for the integers
static Pol padd(const Pol& a, const Pol& b, ll s = 1) { Pol c(std::max(a.size(), b.size())); for (size_t i = 0; i < a.size(); i++) c[i] += a[i]; for (size_t i = 0; i < b.size(); i++) c[i] += s * b[i]; if (RP) for (auto& v : c) v = ((v % RP) + RP) % RP; trim(c); return c; }
static Pol pmul(const Pol& a, const Pol& b) { if (a.empty() || b.empty()) return {}; Pol c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) { c[i + j] += a[i] * b[j]; if (RP) c[i + j] %= RP; } trim(c); return c; }
static ll pinv(ll a) { ll r = 1; for (int i = 0; i < RP - 2; i++) r = r * a % RP; return r; }
static Pol pmod(Pol a, const Pol& b, Pol* q = nullptr) { // b is not zero
  if (!RP) { if (q) { *q = {a.empty() ? 0 : a[0] / b[0]}; trim(*q); } Pol r{a.empty() ? 0 : a[0] % b[0]}; trim(r); return r; }
  if (q) q->assign(a.size(), 0); while (a.size() >= b.size()) { ll f = a.back() * pinv(b.back()) % RP; size_t s = a.size() - b.size(); if (q) (*q)[s] = f; Pol m(s + 1); m[s] = f; a = padd(a, pmul(m, b), -1); } if (q) trim(*q); return a;
}
static Pol pgcd(Pol a, Pol b) { while (!b.empty()) { Pol r = pmod(a, b); a = b; b = r; } if (RP && !a.empty()) { ll f = pinv(a.back()); for (auto& v : a) v = v * f % RP; } else if (!a.empty() && a[0] < 0) a[0] = -a[0]; return a; }
struct PM { size_t r, c; std::vector<Pol> a; PM(size_t r, size_t c) : r(r), c(c), a(r * c) {} Pol& operator()(size_t i, size_t j) { return a[i * c + j]; } const Pol& operator()(size_t i, size_t j) const { return a[i * c + j]; } };
static PM operator*(const PM& A, const PM& B) { PM C(A.r, B.c); for (size_t i = 0; i < A.r; i++) for (size_t j = 0; j < B.c; j++) for (size_t k = 0; k < A.c; k++) C(i, j) = padd(C(i, j), pmul(A(i, k), B(k, j))); return C; }
static Pol det(const PM& A, const std::vector<size_t>& r, const std::vector<size_t>& c) { if (r.empty()) return {1}; Pol d; std::vector<size_t> r2(r.begin() + 1, r.end()); for (size_t j = 0; j < c.size(); j++) { if (A(r[0], c[j]).empty()) continue; auto c2 = c; c2.erase(c2.begin() + j); d = padd(d, pmul(A(r[0], c[j]), det(A, r2, c2)), j & 1 ? -1 : 1); } return d; }
static bool unitp(const Pol& a) { return RP ? a.size() == 1 : a.size() == 1 && (a[0] == 1 || a[0] == -1); }
static std::string show(const Pol& a) { std::string s = "["; for (auto v : a) s += std::to_string(v) + " "; s += "]"; return s; }
static std::string show(const PM& A) { std::string s; for (size_t i = 0; i < A.r; i++) { for (size_t j = 0; j < A.c; j++) s += show(A(i, j)); s += ";"; } return s; }
// greatest common divisors of the k x k minors
static Pol minors(const PM& A, size_t k) { Pol g; std::vector<std::vector<size_t>> R, C; auto sub = [&](size_t n, std::vector<std::vector<size_t>>& o) { for (size_t m = 0; m < ((size_t) 1 << n); m++) if ((size_t) __builtin_popcountll(m) == k) { std::vector<size_t> v; for (size_t i = 0; i < n; i++) if (m >> i & 1) v.push_back(i); o.push_back(v); } }; sub(A.r, R); sub(A.c, C); for (auto& r : R) for (auto& c : C) g = pgcd(g, det(A, r, c)); return g; }
template <class F> using UP = UnivariatePolynomial<F>;
template <class T> struct Conv; template <> struct Conv<int> { static int to(const Pol& p) { return p.empty() ? 0 : (int) p[0]; } static Pol from(int v) { Pol p{v}; trim(p); return p; } };
template <class F> struct Conv<UP<F>> { static UP<F> to(const Pol& p) { std::vector<F> c; for (auto v : p) c.push_back(F((int) v)); return UP<F>(c); } static Pol from(const UP<F>& u) { Pol p; for (size_t i = 0; i < u.size(); i++) p.push_back((ll) toS(u[i]).n); need(p.empty() || p.back() != 0, "wrong-value", "a polynomial with leading coefficient 0"); return p; } };
template <class T> static ColumnMatrix<SparseVector<T>> plib(const PM& A) { std::vector<SparseVector<T>> c(A.c); for (size_t j = 0; j < A.c; j++) for (size_t i = 0; i < A.r; i++) if (!A(i, j).empty()) c[j].emplace_back(i, Conv<T>::to(A(i, j))); return ColumnMatrix<SparseVector<T>>(A.r, A.c, c); }
template <class T> static PM pdense(const ColumnMatrix<SparseVector<T>>& A, const char* w) { sim::Off o; PM D(A.nrow(), A.ncol()); for (size_t j = 0; j < D.c; j++) { long last = -1; for (auto p = A[j].nzbegin(); p != A[j].nzend(); ++p) { need(p->ind < D.r && (long) p->ind > last, "malformed", "%s: entry %zu after %ld of %zu rows", w, (size_t) p->ind, last, D.r); last = (long) p->ind; Pol v = Conv<T>::from(p->val); need(!v.empty(), "stored-zero", "%s: stored zero at (%zu,%zu)", w, (size_t) p->ind, j); D(p->ind, j) = v; } } return D; }
template <class T> static uint64_t pdig(const ColumnMatrix<SparseVector<T>>& A) { uint64_t h = A.nrow() * 31 + A.ncol(); for (size_t j = 0; j < A.ncol(); j++) for (auto p = A[j].nzbegin(); p != A[j].nzend(); ++p) { h = h * 1000003 + p->ind + j * 77; for (auto v : Conv<T>::from(p->val)) h = h * 1000003 + (uint64_t) v + 5; } return h; }
static void check_smith(const PM& S, const PM& A, const char* w) {
  sim::Off o; need(S.r == A.r && S.c == A.c, "wrong-shape", "%s: %zux%zu", w, S.r, S.c); for (size_t i = 0; i < S.r; i++) for (size_t j = 0; j < S.c; j++) need(i == j || S(i, j).empty(), "wrong-form", "%s: not diagonal: %s", w, show(S).c_str()); Pol prod{1};
  for (size_t k = 0; k < std::min(S.r, S.c); k++) { prod = pmul(prod, S(k, k)); Pol g = minors(A, k + 1), p = pgcd(prod, {}); need(p == g, "wrong-form", "%s: the diagonal %s has product %s up to entry %zu, the minors have the common divisor %s", w, show(S).c_str(), show(p).c_str(), k, show(g).c_str()); if (RP && !S(k, k).empty()) need(S(k, k).back() == 1, "wrong-form", "%s: entry %zu is not monic: %s", w, k, show(S).c_str()); }
}
static bool invertible(const PM& A) { if (A.r != A.c) return false; std::vector<size_t> v; for (size_t i = 0; i < A.r; i++) v.push_back(i); return unitp(det(A, v, v)); }
template <class T> static void smith(const PM& D) {
  auto A = plib<T>(D); sim_desc("%s ", show(D).c_str()); auto in = [&] { return pdig<T>(A); }; typedef ColumnMatrix<SparseVector<T>> MP;
  switch (rnd(0, 3)) {
    case 0: { auto S = run([&] { MP B(A); smith_normal_form(B); return B; }, pdig<T>, in, "Smith form"); check_smith(pdense<T>(S, "Smith form"), D, "Smith form"); break; }
    case 1: { auto R = run([&] { return smith_rows(A); }, [](const auto& r) { return H(pdig<T>(std::get<0>(r)), pdig<T>(std::get<1>(r))); }, in, "Smith form with rows"); PM S = pdense<T>(std::get<1>(R), "Smith form"), r = pdense<T>(std::get<0>(R), "row factor"); check_smith(S, D, "Smith form with rows"); need(r.r == D.r && invertible(r), "wrong-form", "the row factor %s is not invertible", show(r).c_str()); break; }
    default: { auto f = run([&] { return smith_factorization(A); }, [](const auto& f) { return H(H(pdig<T>(f.R), pdig<T>(f.S)), pdig<T>(f.C)); }, in, "Smith factorization"); PM R = pdense<T>(f.R, "R"), S = pdense<T>(f.S, "S"), C = pdense<T>(f.C, "C"); check_smith(S, D, "Smith factorization"); need(R.r == D.r && C.r == D.c && invertible(R) && invertible(C), "wrong-form", "the factors %s and %s are not invertible", show(R).c_str(), show(C).c_str()); PM P = R * S * C; need(P.a == D.a, "wrong-product", "the factors %s, %s, %s have another product: %s", show(R).c_str(), show(S).c_str(), show(C).c_str(), show(P).c_str()); }
  }
}
template <class F> static void smith_poly() { use_field<F>(); RP = PP(); PM D(rnd(0, 3), rnd(0, 3)); int deg = rnd(0, 2), k = rnd(1, 4); for (auto& p : D.a) if ((int) sim::pick(4) < k) { p.resize(rnd(1, deg + 1)); for (auto& v : p) v = rnd(0, RP - 1); trim(p); } smith<UP<F>>(D); }
static void smith_int() { use_field<int>(); PP() = 0; RP = 0; PM D(rnd(0, 3), rnd(0, 3)); int top = sim::chance(1, 2) ? 3 : 6, k = rnd(1, 4); for (auto& p : D.a) if ((int) sim::pick(4) < k) { p = {rnd(-top, top)}; trim(p); } smith<int>(D); }
SIM_SCENARIO(H11, smith, 2) { swarm_env(); switch (sim::pick(4)) { case 0: smith_poly<F2>(); break; case 1: smith_poly<F3>(); break; case 2: smith_poly<F5>(); break; default: smith_int(); } }
// ---- polynomials and canonical forms
template <class F> static void polynomials() {
  use_field<F>(); RP = PP(); typedef Conv<UP<F>> K; auto rp = [&](int d) { Pol p(rnd(0, d + 1)); for (auto& v : p) v = rnd(0, RP - 1); trim(p); return p; }; Pol a = rp(5), b = rp(4); sim_desc("%s, %s mod %d ", show(a).c_str(), show(b).c_str(), RP); UP<F> A = K::to(a), B = K::to(b);
  auto is = [&](const UP<F>& u, const Pol& w, const char* n) { sim::Off o; Pol g = K::from(u); need(g == w, "wrong-value", "%s is %s instead of %s", n, show(g).c_str(), show(w).c_str()); };
  UP<F> s, d, m, n; { sim::Sys y; s = A + B; d = A - B; m = A * B; n = -A; } is(s, padd(a, b), "the sum"); is(d, padd(a, b, -1), "the difference"); is(m, pmul(a, b), "the product"); is(n, padd({}, a, -1), "the negative"); { sim::Sys y; s = A; s += B; d = A; d -= B; } is(s, padd(a, b), "the sum in place"); is(d, padd(a, b, -1), "the difference in place");
  if (!b.empty()) { Pol q, r = pmod(a, b, &q); UP<F> Q, R, g; { sim::Sys y; auto t = A.divrem(B); Q = std::get<0>(t); R = std::get<1>(t); g = A.gcd(B); } is(Q, q, "the quotient"); is(R, r, "the remainder"); { sim::Off o; Pol gg = K::from(g); need(pgcd(gg, {}) == pgcd(a, b), "wrong-value", "the common divisor is %s", show(gg).c_str()); }
    std::vector<UP<F>> e; { sim::Sys y; auto [x, yy, g2, w, z] = extended_euclidean(A, B); e = {x, yy, g2, w, z}; } sim::Off o; Pol x = K::from(e[0]), y = K::from(e[1]), g2 = K::from(e[2]), w = K::from(e[3]), z = K::from(e[4]); need(pgcd(g2, {}) == pgcd(a, b), "wrong-value", "extended Euclid: the common divisor is %s", show(g2).c_str()); need(padd(pmul(x, a), pmul(y, b)) == g2, "wrong-value", "extended Euclid: %s and %s do not combine to %s", show(x).c_str(), show(y).c_str(), show(g2).c_str()); need(pmul(w, g2) == a && pmul(z, g2) == b, "wrong-value", "extended Euclid: cofactors %s and %s", show(w).c_str(), show(z).c_str()); }
  { int v = rnd(0, RP - 1); F r; { sim::Sys y; r = A(F(v)); } ll w = 0, vk = 1; for (auto c : a) { w = (w + c * vk) % RP; vk = vk * v % RP; } need((ll) toS(r).n == w, "wrong-value", "at %d the value is %d instead of %lld", v, (int) toS(r).n, w); }
  { size_t dg_ = sim::pick(5); int v = sim::pick(2) ? rnd(0, RP - 1) : a.empty() ? 0 : (int) a[0]; UP<F> mo, id, ze; bool e1, e2, n1, n2, e3, n3, z; { sim::Sys y; mo = UP<F>::monomial(dg_, F(v)); id = UP<F>::identity(); ze = UP<F>::zero(); e1 = A == F(v); e2 = A == B; n1 = A != F(v); n2 = A != B; UP<F> cp(A); e3 = A == cp; n3 = A != cp; z = A.is_zero(); }
    Pol wm(dg_ + 1, 0); wm[dg_] = v; trim(wm); Pol vp{v}; trim(vp); is(mo, wm, "the monomial"); is(id, Pol{1}, "the identity"); is(ze, Pol{}, "the zero polynomial"); need(e1 == (a == vp) && n1 == (a != vp), "wrong-comparison", "comparing %s with %d gives %d and %d", show(a).c_str(), v, e1, n1); need(e2 == (a == b) && n2 == (a != b) && e3 && !n3 && z == a.empty(), "wrong-comparison", "comparing %s with %s gives %d and %d", show(a).c_str(), show(b).c_str(), e2, n2);
    if (!a.empty()) { size_t dd; F lc; bool mon; { sim::Sys y; dd = A.degree(); lc = A.leading_coeff(); mon = A.is_monic(); } need(dd == a.size() - 1 && A.dim() == dd && A.size() == a.size() && (ll) toS(lc).n == a.back() && mon == (a.back() == 1), "wrong-value", "degree %zu, leading coefficient %d, monic %d", dd, (int) toS(lc).n, mon); }
    if (!b.empty()) { Pol q, r = pmod(a, b, &q); UP<F> Q, R; { sim::Sys y; Q = A / B; R = A.remainder(B); } is(Q, q, "the quotient by the operator"); is(R, r, "the remainder alone"); }
    { UP<F> t(A); { sim::Sys y; t += t; } is(t, padd(a, a), "a polynomial added to itself"); t = A; { sim::Sys y; t -= t; } is(t, Pol{}, "a polynomial subtracted from itself"); { sim::Sys y; t = A; t = t * t; } is(t, pmul(a, a), "the square"); } is(A, a, "the first operand"); is(B, b, "the second operand"); }
  { size_t n = rnd(1, 4); M d(n, n), v(n, 1); for (auto& x : d.a) if (sim::chance(1, 2)) x = some<F>(); for (auto& x : v.a) if (sim::chance(2, 3)) x = some<F>(); auto D = lsparse<F>(d); auto Vm = lsparse<F>(v); typename MT<F>::col_type r; { sim::Sys y; r = A(D, Vm[0]); } sim::Off o; M w(n, 1), pw = v; for (auto c : a) { for (size_t i = 0; i < n; i++) w(i, 0) = add(w(i, 0), mul(mk((int) c), pw(i, 0))); pw = d * pw; } MT<F> rm(n, 1); rm[0] = r; M g = dense<F>(rm, "polynomial of a matrix times a vector"); need(g == w, "wrong-value", "p(A) v is %s instead of %s", orc::show(g).c_str(), orc::show(w).c_str()); }
  if (!a.empty() && a.back() == 1) { size_t k = a.size() - 1; auto C = run([&] { return A.companion_matrix(); }, [](const MT<F>& m) { return dm<F>(m); }, [] { return (uint64_t) 0; }, "companion matrix"); sim::Off o; M c = dense<F>(C, "companion matrix"), w(k, k); for (size_t i = 0; i < k; i++) { if (i + 1 < k) w(i + 1, i) = mk(1); w(i, k - 1) = mk((RP - a[i]) % RP); } need(c == w, "wrong-matrix", "the companion matrix is %s instead of %s", orc::show(c).c_str(), orc::show(w).c_str()); }
  else if (!a.empty()) { bool threw = false; try { sim::Sys y; auto C = A.companion_matrix(); (void) C; } catch (const std::exception&) { threw = true; } need(threw, "not-rejected", "the companion matrix of a polynomial that is not monic"); }
}
template <class F> static void canonical() {
  use_field<F>(); RP = PP(); size_t n = rnd(1, 4); M d(n, n); { int k = rnd(0, 4); for (auto& v : d.a) if ((int) sim::pick(4) < k) v = some<F>(); if (sim::chance(1, 3)) { d = M(n, n); S s = some<F>(); for (size_t i = 0; i < n; i++) { d(i, i) = sim::chance(1, 4) ? some<F>() : s; if (i + 1 < n && sim::chance(1, 3)) d(i, i + 1) = mk(1); } } } sim_desc("%s mod %d ", orc::show(d).c_str(), RP); auto A = lsparse<F>(d); typedef UP<F> T; PM cm(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { Pol p{zero(d(i, j)) ? 0 : RP - (ll) d(i, j).n}; if (i == j) p.push_back(1); trim(p); cm(i, j) = p; }
  auto X = run([&] { return characteristic_matrix(A); }, pdig<T>, [&] { return dm<F>(A); }, "characteristic matrix"); PM x = pdense<T>(X, "characteristic matrix"); need(x.r == n && x.c == n && x.a == cm.a, "wrong-matrix", "the characteristic matrix is %s", show(x).c_str());
  auto R = [&] { sim::Sys s; return smith_rows(X); }(); PM S = pdense<T>(std::get<1>(R), "Smith form"); check_smith(S, cm, "Smith form of the characteristic matrix"); auto B = run([&] { return RCF_basis(std::get<1>(R), A, generating_basis(std::get<0>(R), A)); }, [](const MT<F>& m) { return dm<F>(m); }, [&] { return dm<F>(A); }, "canonical basis");
  sim::Off o; M b = dense<F>(B, "canonical basis"); need(b.r == n && b.c == n && rank(b) == n, "wrong-basis", "the canonical basis is %s", orc::show(b).c_str()); M w(n, n); size_t at = 0; for (size_t j = 0; j < n; j++) { size_t k = S(j, j).size() - 1; for (size_t i = 0; i < k; i++) { if (i + 1 < k) w(at + i + 1, at + i) = mk(1); w(at + i, at + k - 1) = mk((RP - S(j, j)[i]) % RP); } at += k; } need(at == n && d * b == b * w, "wrong-form", "in the basis %s the matrix is not %s", orc::show(b).c_str(), orc::show(w).c_str());
  MT<F> P; { sim::Sys s; P = inv(B) * A * B; } M p = dense<F>(P, "canonical form"); need(p == w, "wrong-form", "the canonical form is %s instead of %s", orc::show(p).c_str(), orc::show(w).c_str());
}
SIM_SCENARIO(H11, polynomials, 1) { swarm_env(); switch (sim::pick(3)) { case 0: polynomials<F2>(); break; case 1: polynomials<F3>(); break; default: polynomials<F5>(); } }
SIM_SCENARIO(H11, canonical, 1) { swarm_env(); switch (sim::pick(3)) { case 0: canonical<F2>(); break; case 1: canonical<F3>(); break; default: canonical<F5>(); } }
