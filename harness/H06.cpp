#include "common.hpp"
// Sparse vectors, column matrices and compressed matrices against dense models under arbitrary histories.
template <class F> using NZ = nzpair<size_t, F>;
template <class F> using Tmp = std::vector<NZ<F>>;
static const bool quiet_ = (std::cout.setstate(std::ios::failbit), true);
template <class F> S some() { return PP() ? mk(rnd(0, PP() - 1)) : mkq(rnd(-3, 3), rnd(1, 2)); }
template <class F> S unit() { S v = some<F>(); return zero(v) ? mk(1) : v; }
template <class F> F lib(const S& s) { if constexpr (std::is_same<F, FQ>::value) return FQ((int) s.n, (int) s.d); else return F((int) s.n); }
inline bool big(const S& s) { return !PP() && (s.n > 40 || s.n < -40 || s.d > 6); }
// ---- one vector with its dense model
template <class F> struct V { VT<F> v; std::vector<S> d; };
template <class F> VT<F> vec(const std::vector<S>& d) { VT<F> v; for (size_t i = 0; i < d.size(); i++) if (!zero(d[i])) v.emplace_back(i, lib<F>(d[i])); return v; }
inline std::string show(const std::vector<S>& d) { std::string s = "("; for (auto& x : d) s += str(x) + " "; return s + ")"; }
template <class F> std::vector<S> some_dense(int n) { std::vector<S> d(n); int k = rnd(0, 3); for (auto& x : d) if (k && (int) sim::pick(4) < k) x = some<F>(); return d; }
template <class F> void same(const VT<F>& v, const std::vector<S>& d, const char* what) {
  sim::Off o; std::vector<S> g(d.size()); long last = -1;
  for (auto it = v.nzbegin(); it != v.nzend(); ++it) { size_t i = it->ind; S x = toS(it->val); need(i < d.size(), "out-of-range", "%s: entry at %zu in a vector of length %zu", what, i, d.size()); need((long) i > last, "unsorted", "%s: entry %zu after %ld", what, i, last); need(!zero(x), "stored-zero", "%s: stored zero at %zu", what, i); g[i] = x; last = (long) i; }
  for (size_t i = 0; i < d.size(); i++) need(eq(g[i], d[i]), "wrong-value", "%s: vector is %s, expected %s", what, show(g).c_str(), show(d).c_str());
}
template <class F> void garbage(Tmp<F>& t) { switch (sim::pick(4)) { case 0: t.clear(); break; case 1: break; case 2: t.resize(rnd(0, 12)); break; default: t.clear(); for (int i = rnd(1, 12); i > 0; i--) t.emplace_back(NZ<F>((size_t) rnd(0, 1000), F(1))); } }
inline std::vector<size_t> subset(size_t n) { std::vector<size_t> r; int k = rnd(0, 4); for (size_t i = 0; i < n; i++) if ((int) sim::pick(4) < k) r.push_back(i); return r; }
inline std::vector<size_t> perm(size_t n) { std::vector<size_t> p(n); for (size_t i = 0; i < n; i++) p[i] = i; for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[sim::pick((unsigned) i)]); return p; }
inline std::vector<bool> mask(size_t n) { std::vector<bool> c(n); for (size_t i = 0; i < n; i++) c[i] = sim::pick(2); return c; }
// sorted positions at which k new rows appear in the enlarged list
inline std::vector<size_t> positions(size_t n, size_t k) { std::vector<size_t> all(n + k); for (size_t i = 0; i < n + k; i++) all[i] = i; while (all.size() > k) all.erase(all.begin() + sim::pick((unsigned) all.size())); return all; }

template <class F> void vectors() {
  use_field<F>(); std::vector<V<F>> P(3); Tmp<F> tmp; for (auto& x : P) { x.d = some_dense<F>(rnd(0, PP() ? zm(8) : 8)); x.v = vec<F>(x.d); sim_desc("%s ", show(x.d).c_str()); }
  int steps = rnd(1, 14);
  for (int t = 0; t < steps; t++) {
    V<F>& x = P[sim::pick(3)]; V<F>& y = P[sim::pick(3)]; size_t n = x.d.size(), i = n ? (size_t) rnd(0, (int) n - 1) : 0, j = n ? (size_t) rnd(0, (int) n - 1) : 0; S a = some<F>(), b = some<F>(), c = some<F>(), d = some<F>(); auto xd = x.d; std::string what = "?"; if (&x == &y) sim_probe("aliased");
    auto grow = [&](size_t m) { if (x.d.size() < m) x.d.resize(m); };
    auto run = [&](const char* w, auto f) { what = w; sim_desc("| %s(%ld,%ld) ", w, (long) (&x - &P[0]), (long) (&y - &P[0])); sim::Sys s; f(); };
    switch (sim::pick(35)) {
      case 0: case 1: { auto yd = y.d; garbage(tmp); int k = sim::pick(3); run("axpy", [&] { if (k == 0) x.v.axpy(lib<F>(a), y.v); else x.v.axpy(lib<F>(a), y.v, tmp); }); grow(yd.size()); for (size_t k = 0; k < yd.size(); k++) x.d[k] = add(x.d[k], mul(a, yd[k])); break; }
      case 2: { auto yd = y.d; size_t lo = rnd(0, 8), hi = rnd(0, 9); garbage(tmp); run("axpy range", [&] { x.v.axpy(lib<F>(a), y.v, lo, hi, tmp); }); grow(yd.size()); for (size_t k = lo; k < hi && k < yd.size(); k++) x.d[k] = add(x.d[k], mul(a, yd[k])); break; }
      case 3: { auto yd = y.d; VT<F> r; run("+", [&] { r = x.v + y.v; }); grow(yd.size()); for (size_t k = 0; k < yd.size(); k++) x.d[k] = add(x.d[k], yd[k]); x.v = r; break; }
      case 4: { VT<F> r; run("scalar product", [&] { r = x.v * lib<F>(a); }); x.v = r; for (auto& v : x.d) v = mul(v, a); break; }
      case 5: { F r; run("dot", [&] { r = x.v * y.v; }); S want{}; for (size_t k = 0; k < n && k < y.d.size(); k++) want = add(want, mul(x.d[k], y.d[k])); need(eq(toS(r), want), "wrong-value", "dot product is %s, expected %s", str(toS(r)).c_str(), str(want).c_str()); break; }
      case 6: { int k = sim::pick(2); if (k) { VT<F> r; run("scale", [&] { r = x.v.scale(lib<F>(a)); }); x.v = r; } else run("scale in place", [&] { x.v.scale_inplace(lib<F>(a)); }); for (auto& v : x.d) v = mul(v, a); break; }
      case 7: { if (!n) break; run("scale entry", [&] { x.v.scale_inplace(i, lib<F>(a)); }); x.d[i] = mul(a, x.d[i]); break; }
      case 8: { std::vector<F> cf; std::vector<S> cs; for (size_t k = 0; k < n; k++) { cs.push_back(unit<F>()); cf.push_back(lib<F>(cs[k])); } run("scale by coefficients", [&] { x.v.scale_inplace(cf); }); for (size_t k = 0; k < n; k++) x.d[k] = mul(x.d[k], cs[k]); break; }
      case 9: { if (!n) break; run("swap entries", [&] { x.v.swap_rows(i, j); }); std::swap(x.d[i], x.d[j]); break; }
      case 10: case 11: { if (n < 2) break; if (i == j) j = (i + 1) % n; run("mix entries", [&] { x.v.mix_rows(i, j, lib<F>(a), lib<F>(b), lib<F>(c), lib<F>(d)); }); x.d[i] = add(mul(a, xd[i]), mul(b, xd[j])); x.d[j] = add(mul(c, xd[i]), mul(d, xd[j])); break; }
      case 12: { auto p = perm(n); int inv_ = sim::pick(2); run(inv_ ? "inverse permute" : "permute", [&] { if (inv_) x.v.ipermute(p); else x.v.permute(p); }); for (size_t k = 0; k < n; k++) if (inv_) x.d[k] = xd[p[k]]; else x.d[p[k]] = xd[k]; break; }
      case 13: { size_t lo = rnd(0, (int) n), hi = rnd((int) lo, (int) n); VT<F> r; run("block", [&] { r = x.v.block(lo, hi); }); x.v = r; x.d.assign(xd.begin() + lo, xd.begin() + hi); break; }
      case 14: { size_t m = y.d.size(), lo = rnd(0, (int) n); if (lo + m > n || &x == &y) break; run("set block", [&] { x.v.set_block(lo, lo + m, y.v); }); for (size_t k = 0; k < m; k++) x.d[lo + k] = y.d[k]; break; }
      case 15: { auto s = subset(n); std::vector<size_t> pind(n, bats::NO_IND); auto p = perm(s.size()); for (size_t k = 0; k < s.size(); k++) pind[s[k]] = p[k]; VT<F> r; run("subvector", [&] { r = x.v.subvector(pind); }); x.v = r; x.d.assign(s.size(), S{}); for (size_t k = 0; k < s.size(); k++) x.d[p[k]] = xd[s[k]]; break; }
      case 16: { auto s = subset(n); VT<F> r; run("extract", [&] { r = x.v[s]; }); x.v = r; x.d.clear(); for (auto k : s) x.d.push_back(xd[k]); break; }
      case 17: { if (!n) break; int k = sim::pick(2); run("reverse", [&] { if (k) x.v.J(n); else x.v.reverse_inds(n - 1); }); std::reverse(x.d.begin(), x.d.end()); break; }
      case 18: { int k = rnd(0, 3); if (n > 12) break; VT<F> r; run("shift", [&] { r = x.v.shift_inds(k); }); x.v = r; x.d.insert(x.d.begin(), k, S{}); break; }
      case 19: { auto m = mask(n); garbage(tmp); int k = sim::pick(2); run("clear marked", [&] { if (k) x.v.clear_inds(m, tmp); else x.v.clear_inds(m); }); for (size_t k = 0; k < n; k++) if (m[k]) x.d[k] = S{}; break; }
      case 20: { if (!n) break; run("erase row", [&] { x.v.erase_for_matrix(i); }); x.d.erase(x.d.begin() + i); break; }
      case 21: { if (!n) break; run("erase last row", [&] { x.v.erase_last_row_of_matrix(n - 1); }); x.d.pop_back(); break; }
      case 22: { size_t k = rnd(0, (int) n); run("erase first rows", [&] { x.v.erase_initial_rows(k); }); x.d.erase(x.d.begin(), x.d.begin() + k); break; }
      case 23: { if (!n) break; size_t k = rnd(1, (int) n); if (sim::pick(2)) { run("erase rows after", [&] { x.v.erase_rows_after(k - 1); }); x.d.resize(k); } else { run("erase several last rows", [&] { x.v.erase_last_rows_of_matrix(n - 1, n - k); }); x.d.resize(k); } break; }
      case 24: { if (n > 9) break; auto p = positions(n, rnd(0, 3)); std::vector<F> vals; std::vector<S> vs; for (size_t k = 0; k < p.size(); k++) { vs.push_back(unit<F>()); vals.push_back(lib<F>(vs[k])); } run("insert entries", [&] { x.v.insert_rows(p, vals); }); for (size_t k = 0; k < p.size(); k++) x.d.insert(x.d.begin() + p[k], vs[k]); break; }
      case 25: { if (n > 9) break; auto p = positions(n, rnd(0, 3)); run("insert zero rows", [&] { x.v.insert_rows(p); }); for (size_t k = 0; k < p.size(); k++) x.d.insert(x.d.begin() + p[k], S{}); break; }
      case 26: { size_t m = y.d.size(); if (n * m > 24 || !m) break; VT<F> r; int k = sim::pick(2); run("Kronecker product", [&] { r = k ? x.v.kron(y.v, m) : x.v.tensor(y.v, m); }); std::vector<S> w; for (auto& p : xd) for (auto& q : y.d) w.push_back(mul(p, q)); same<F>(r, w, what.c_str()); break; }
      case 27: { size_t r = 0, want = 0; std::map<F, size_t> ct; run("intersection count", [&] { r = x.v.nnz_intersection(y.v); x.v.coeff_intersection(y.v, ct); }); std::vector<S> qs; size_t tot = 0; for (size_t k = 0; k < n && k < y.d.size(); k++) if (!zero(x.d[k]) && !zero(y.d[k])) { want++; qs.push_back(mul(x.d[k], inv(y.d[k]))); } need(r == want, "wrong-count", "%zu common nonzeros, expected %zu", r, want); for (auto& kv : ct) { S q = toS(kv.first); size_t w = 0; for (auto& z : qs) w += eq(z, q); tot += kv.second; need(kv.second == w, "wrong-count", "ratio %s counted %zu times, expected %zu", str(q).c_str(), kv.second, w); } need(tot == want, "wrong-count", "ratios cover %zu of %zu", tot, want); break; }
      case 28: { std::vector<size_t> ni; std::vector<F> nv; std::tuple<std::vector<size_t>, std::vector<F>> both; run("list nonzeros", [&] { ni = x.v.nzinds(); nv = x.v.nzvals(); both = x.v.nzs(); }); std::vector<size_t> want; for (size_t k = 0; k < n; k++) if (!zero(x.d[k])) want.push_back(k); need(ni == want && std::get<0>(both) == want && nv.size() == want.size() && std::get<1>(both) == nv, "wrong-value", "listed nonzeros differ"); for (size_t k = 0; k < want.size(); k++) need(eq(toS(nv[k]), x.d[want[k]]), "wrong-value", "listed value %zu differs", k); if (!want.empty()) need(x.v.firstnz().ind == want[0] && x.v.lastnz().ind == want.back(), "wrong-value", "first or last nonzero differs"); break; }
      case 29: { for (size_t k = 0; k < n + 2; k++) { S g; size_t lo, up; { sim::Sys s; F v = sim::pick(2) ? x.v.getval(k) : x.v[k]; auto l = x.v.lower_bound(k), u = x.v.upper_bound(k); lo = l - x.v.nzbegin(); up = u - x.v.nzbegin(); sim::Off o; g = toS(v); } S w = k < n ? x.d[k] : S{}; size_t cl = 0; for (size_t q = 0; q < k && q < n; q++) cl += !zero(x.d[q]); need(eq(g, w), "wrong-value", "entry %zu is %s, expected %s", k, str(g).c_str(), str(w).c_str()); need(lo == cl && up == cl + !zero(w), "wrong-value", "bounds of %zu", k); } what = "access"; break; }
      case 30: { VT<F> r = vec<F>(x.d); bool e1, e2, e3; run("compare", [&] { e1 = x.v == r; e2 = x.v == y.v; e3 = x.v != y.v; }); std::vector<S> p = x.d, q = y.d; p.resize(64); q.resize(64); bool w = true; for (int k = 0; k < 64; k++) w = w && eq(p[k], q[k]); need(e1 && e2 == w && e3 == !w, "wrong-comparison", "comparison of %s and %s", show(x.d).c_str(), show(y.d).c_str()); break; }
      case 31: { // fresh values through each constructor
        int m = rnd(0, 8); x.d = some_dense<F>(m); std::vector<size_t> in; std::vector<F> va; std::vector<int> iv; std::vector<std::tuple<size_t, int>> tu; for (int k = 0; k < m; k++) if (!zero(x.d[k])) { in.push_back(k); va.push_back(lib<F>(x.d[k])); }
        switch (sim::pick(6)) {
          case 0: run("from lists", [&] { x.v = VT<F>(in, va); }); break;
          case 1: { x.d.assign(m, S{}); std::vector<size_t> order; for (int k = 0; k < m; k++) { int z = rnd(-6, 6); iv.push_back(z); order.push_back(k); x.d[k] = mk(z); } if (sim::pick(2)) { VZ z; for (int k = 0; k < m; k++) if (iv[k]) z.emplace_back(k, iv[k]); run("from integers", [&] { x.v = VT<F>(z); }); } else { run("from iterators", [&] { x.v = VT<F>(order.begin(), iv.begin(), (size_t) m); }); } break; }
          case 2: { x.d.assign(m, S{}); for (auto k : perm(m)) { int z = rnd(-6, 6); tu.emplace_back(k, z); x.d[k] = mk(z); } run("from tuples", [&] { x.v = VT<F>(tu); }); break; }
          case 3: { S v = unit<F>(); size_t k = rnd(0, 6); x.d.assign(k + 1, S{}); bool one = sim::pick(2); x.d[k] = one ? mk(1) : v; run("indicator", [&] { x.v = one ? VT<F>(k) : VT<F>(k, lib<F>(v)); }); break; }
          case 4: { x.d.assign(m, a); run("constant", [&] { x.v = VT<F>::dense(lib<F>(a), m); }); break; }
          default: { std::vector<NZ<F>> nz; for (size_t k = 0; k < in.size(); k++) nz.emplace_back(in[k], va[k]); run("from pairs", [&] { x.v = VT<F>(nz); }); }
        } break; }
      case 33: { for (size_t k = 0; k < n + 2; k++) { long got, w = -1, pos = -1; { sim::Sys s; auto it = x.v.find_last_nz(k); got = it == x.v.nzend() ? -1 : (long) (it - x.v.nzbegin()); } for (size_t q = 0; q < n && q < k; q++) if (!zero(x.d[q])) w = ++pos; need(got == w, "wrong-value", "the last nonzero before %zu of %s is entry %ld, expected %ld", k, show(x.d).c_str(), got, w); } what = "last nonzero"; break; }
      case 32: { int k = sim::pick(3); run("clear", [&] { if (k == 0) x.v.clear(); else if (k == 1) x.v.clear_dealloc(); else x.v.erase_all(); }); x.d.assign(n, S{}); break; }
      default: { run("assign", [&] { x.v = y.v; }); x.d = y.d; }
    }
    for (auto& z : P) same<F>(z.v, z.d, what.c_str());
    for (auto& v : x.d) if (big(v)) { x.d.assign(x.d.size(), S{}); x.v.clear(); sim_desc("(reset) "); break; }
    if (x.d.size() > 14) { x.d.clear(); x.v.clear(); }
  }
}
// ---- matrices
template <class F> struct A_ { MT<F> a; M d; };
template <class F> MT<F> mat(const M& D) { std::vector<VT<F>> cs; for (size_t j = 0; j < D.c; j++) { VT<F> v; for (size_t i = 0; i < D.r; i++) if (!zero(D(i, j))) v.emplace_back(i, lib<F>(D(i, j))); cs.push_back(v); } return MT<F>(D.r, D.c, cs); }
template <class F> M some_mat(size_t r, size_t c) { M D(r, c); int k = rnd(0, 3); for (auto& x : D.a) if (k && (int) sim::pick(4) < k) x = some<F>(); return D; }
template <class F> void same(const MT<F>& a, const M& d, const char* what) { M g = dense<F>(a, what); need(a.nrow() == d.r && a.ncol() == d.c, "wrong-dimensions", "%s: %zux%zu, expected %zux%zu", what, a.nrow(), a.ncol(), d.r, d.c); need(g == d, "wrong-value", "%s: matrix is %s, expected %s", what, orc::show(g).c_str(), orc::show(d).c_str()); }
inline M rows(const M& A, const std::vector<size_t>& is) { M B(is.size(), A.c); for (size_t i = 0; i < is.size(); i++) for (size_t j = 0; j < A.c; j++) B(i, j) = A(is[i], j); return B; }
inline M scaled(const M& A, const S& s) { M B = A; for (auto& x : B.a) x = mul(x, s); return B; }
inline M put_rows(const M& A, const std::vector<size_t>& p, const M& R) { M B(A.r + p.size(), A.c); size_t o = 0, q = 0; for (size_t i = 0; i < B.r; i++) { bool nw = q < p.size() && p[q] == i; for (size_t j = 0; j < A.c; j++) B(i, j) = nw ? R(q, j) : A(o, j); nw ? q++ : o++; } return B; }
inline std::vector<size_t> iota(size_t a, size_t b) { std::vector<size_t> r; for (size_t i = a; i < b; i++) r.push_back(i); return r; }
inline std::vector<size_t> without(size_t n, size_t k) { auto r = iota(0, n); r.erase(r.begin() + k); return r; }
inline M flip(const M& A, bool r, bool c) { M B(A.r, A.c); for (size_t i = 0; i < A.r; i++) for (size_t j = 0; j < A.c; j++) B(r ? A.r - 1 - i : i, c ? A.c - 1 - j : j) = A(i, j); return B; }
// shape predicates of the dense model
inline bool mupper(const M& A) { for (size_t i = 0; i < A.r; i++) for (size_t j = 0; j < A.c; j++) if (i > j && !zero(A(i, j))) return false; return true; }
inline bool mreduced(const M& A) { std::set<size_t> s; for (size_t j = 0; j < A.c; j++) for (size_t i = A.r; i-- > 0;) if (!zero(A(i, j))) { if (!s.insert(i).second) return false; break; } return true; }
inline bool mpivot(const M& A) { for (size_t j = 0; j < A.c; j++) { int k = 0; for (size_t i = 0; i < A.r; i++) k += !zero(A(i, j)); if (k > 1) return false; } M T = tr(A); for (size_t j = 0; j < T.c; j++) { int k = 0; for (size_t i = 0; i < T.r; i++) k += !zero(T(i, j)); if (k > 1) return false; } return true; }
inline bool mEL(const M& A) { if (!mpivot(A)) return false; long last = -1; bool ended = false; for (size_t j = 0; j < A.c; j++) { long p = -1; for (size_t i = 0; i < A.r; i++) if (!zero(A(i, j))) p = (long) i; if (p < 0) ended = true; else if (ended || p <= last) return false; else last = p; } return true; }
template <class F> M triangular(size_t n, bool upper, bool tame) { M T(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { if (i == j) T(i, j) = PP() ? unit<F>() : mk(sim::pick(2) ? 1 : -1); else if ((i < j) == upper && sim::pick(2)) T(i, j) = tame ? mk(rnd(-1, 1)) : some<F>(); } return T; }

template <class F> void matrices() {
  use_field<F>(); std::vector<A_<F>> P(3); Tmp<F> tmp; const int N = PP() ? zm(6, 14) : 5, cap = zm(8, 16);
  for (auto& x : P) { x.d = some_mat<F>(rnd(0, N), rnd(0, N)); x.a = mat<F>(x.d); sim_desc("%s ", orc::show(x.d).c_str()); }
  int steps = rnd(1, 14);
  for (int t = 0; t < steps; t++) {
    A_<F>&x = P[sim::pick(3)], &y = P[sim::pick(3)], &z = P[sim::pick(3)]; M D = x.d; const size_t m = D.r, n = D.c; size_t i = m ? (size_t) rnd(0, (int) m - 1) : 0, i2 = m ? (size_t) rnd(0, (int) m - 1) : 0, j = n ? (size_t) rnd(0, (int) n - 1) : 0, j2 = n ? (size_t) rnd(0, (int) n - 1) : 0; S a = some<F>(), b = some<F>(), c = some<F>(), d = some<F>(); std::string what = "?"; if (&x == &y || &x == &z) sim_probe("aliased");
    auto run = [&](const char* w, auto f) { what = w; sim_desc("| %s(%ld,%ld,%ld) ", w, (long) (&x - &P[0]), (long) (&y - &P[0]), (long) (&z - &P[0])); sim::Sys s; f(); };
    switch (sim::pick(50)) {
      case 0: if (m) { run("swap rows", [&] { x.a.swap_rows(i, i2); }); for (size_t k = 0; k < n; k++) std::swap(x.d(i, k), x.d(i2, k)); } break;
      case 1: if (n) { run("swap columns", [&] { x.a.swap_cols(j, j2); }); for (size_t k = 0; k < m; k++) std::swap(x.d(k, j), x.d(k, j2)); } break;
      case 2: case 3: if (m > 1) { if (i == i2) i2 = (i + 1) % m; run("mix rows", [&] { x.a.mix_rows(i, i2, lib<F>(a), lib<F>(b), lib<F>(c), lib<F>(d)); }); for (size_t k = 0; k < n; k++) { x.d(i, k) = add(mul(a, D(i, k)), mul(b, D(i2, k))); x.d(i2, k) = add(mul(c, D(i, k)), mul(d, D(i2, k))); } } break;
      case 4: case 5: if (n > 1) { if (j == j2) j2 = (j + 1) % n; run("mix columns", [&] { x.a.mix_cols(j, j2, lib<F>(a), lib<F>(b), lib<F>(c), lib<F>(d)); }); for (size_t k = 0; k < m; k++) { x.d(k, j) = add(mul(a, D(k, j)), mul(c, D(k, j2))); x.d(k, j2) = add(mul(b, D(k, j)), mul(d, D(k, j2))); } } break;
      case 6: { auto p = perm(m); run("permute rows", [&] { x.a.permute_rows(p); }); for (size_t q = 0; q < m; q++) for (size_t k = 0; k < n; k++) x.d(p[q], k) = D(q, k); break; }
      case 7: { auto p = perm(m); run("inverse permute rows", [&] { x.a.ipermute_rows(p); }); for (size_t q = 0; q < m; q++) for (size_t k = 0; k < n; k++) x.d(q, k) = D(p[q], k); break; }
      case 8: { auto p = perm(n); run("permute columns", [&] { x.a.permute_cols(p); }); for (size_t q = 0; q < m; q++) for (size_t k = 0; k < n; k++) x.d(q, p[k]) = D(q, k); break; }
      case 9: { auto p = perm(n); run("inverse permute columns", [&] { x.a.ipermute_cols(p); }); x.d = cols(D, p); break; }
      case 10: { auto p = perm(m), q = perm(n); run("permute both", [&] { x.a.permute(p, q); }); for (size_t u = 0; u < m; u++) for (size_t k = 0; k < n; k++) x.d(p[u], q[k]) = D(u, k); break; }
      case 11: { int k = sim::pick(2); run("transpose", [&] { x.a = k ? x.a.transpose() : x.a.T(); }); x.d = tr(D); break; }
      case 12: case 13: if (y.d.c == z.d.r) { M r = y.d * z.d; run("product", [&] { x.a = y.a * z.a; }); x.d = r; } break;
      case 14: if (y.d.r == z.d.r && y.d.c == z.d.c) { M r = y.d + z.d; run("sum", [&] { x.a = y.a + z.a; }); x.d = r; } break;
      case 15: if (y.d.r == z.d.r && y.d.c == z.d.c) { M r = y.d - z.d; run("difference", [&] { x.a = y.a - z.a; }); x.d = r; } break;
      case 16: if (m == y.d.r && n == y.d.c) { M r = D + y.d; run("add in place", [&] { x.a += y.a; }); x.d = r; } break;
      case 17: { run("scalar multiple", [&] { x.a = x.a * lib<F>(a); }); x.d = scaled(D, a); break; }
      case 18: if (m <= (size_t) cap) { int k = sim::pick(3); M R(1, n); std::vector<F> row; if (k) { R = some_mat<F>(1, n); for (size_t q = 0; q < n; q++) row.push_back(lib<F>(R(0, q))); } VT<F> sv = vec<F>(std::vector<S>(R.a)); run(k == 0 ? "append empty row" : k == 1 ? "append row" : "append sparse row", [&] { if (k == 0) x.a.append_row(); else if (k == 1) x.a.append_row(row); else x.a.append_sparse_row(sv); }); x.d = put_rows(D, {m}, R); } break;
      case 19: case 20: if (m <= (size_t) cap) { size_t p = rnd(0, (int) m); int k = sim::pick(2); M R(1, n); std::vector<F> row; if (k) { R = some_mat<F>(1, n); for (size_t q = 0; q < n; q++) row.push_back(lib<F>(R(0, q))); } run(k ? "insert row" : "insert zero row", [&] { if (k) x.a.insert_row(p, row); else x.a.insert_row(p); }); x.d = put_rows(D, {p}, R); } break;
      case 21: case 22: if (m <= (size_t) cap) { auto p = positions(m, rnd(0, 3)); int k = sim::pick(4); M R(p.size(), n); if (k) R = some_mat<F>(p.size(), n); std::vector<VT<F>> rs; std::vector<std::vector<size_t>> ri; std::vector<std::vector<F>> rv; for (size_t q = 0; q < p.size(); q++) { std::vector<S> r; for (size_t u = 0; u < n; u++) r.push_back(R(q, u)); rs.push_back(vec<F>(r)); ri.push_back(rs.back().nzinds()); rv.push_back(rs.back().nzvals()); }
        run(k == 0 ? "insert zero rows" : k == 1 ? "insert rows" : k == 2 ? "insert sparse rows" : "insert listed rows", [&] { if (k == 0) x.a.insert_rows(p); else if (k == 1) x.a.insert_rows(p, rs); else if (k == 2) x.a.insert_sparse_rows(p, rs); else x.a.insert_rows(p, ri, rv); }); x.d = put_rows(D, p, R); } break;
      case 23: case 24: if (n <= (size_t) cap) { size_t p = rnd(0, (int) n); int k = sim::pick(4); M R(1, m); if (k & 1) R = some_mat<F>(1, m); VT<F> cv = vec<F>(std::vector<S>(R.a)); auto in = cv.nzinds(); auto va = cv.nzvals(); if (k < 2) p = n; run(k == 0 ? "append zero column" : k == 1 ? "append column" : k == 2 ? "insert zero column" : "insert column", [&] { if (k == 0) x.a.append_column(); else if (k == 1) x.a.append_column(in, va); else if (k == 2) x.a.insert_column(p); else x.a.insert_column(p, VT<F>(cv)); }); x.d = tr(put_rows(tr(D), {p}, R)); } break;
      case 25: if (n <= (size_t) cap) { auto p = positions(n, rnd(0, 3)); M R = some_mat<F>(p.size(), m); std::vector<VT<F>> cs; for (size_t q = 0; q < p.size(); q++) { std::vector<S> r; for (size_t u = 0; u < m; u++) r.push_back(R(q, u)); cs.push_back(vec<F>(r)); } run("insert columns", [&] { x.a.insert_columns(p, cs); }); x.d = tr(put_rows(tr(D), p, R)); } break;
      case 26: if (n) { int k = sim::pick(2); run(k ? "erase column" : "erase last column", [&] { if (k) x.a.erase_column(j); else x.a.erase_column(); }); x.d = cols(D, without(n, k ? j : n - 1)); } break;
      case 27: { size_t q = rnd(0, (int) n); int k = sim::pick(2); run(k ? "erase final columns" : "erase initial columns", [&] { if (k) x.a.erase_final_columns(q); else x.a.erase_initial_cols(q); }); x.d = cols(D, k ? iota(0, n - q) : iota(q, n)); break; }
      case 28: case 29: if (m) { int k = sim::pick(2); run(k ? "erase row" : "erase last row", [&] { if (k) x.a.erase_row(i); else x.a.erase_row(); }); x.d = rows(D, without(m, k ? i : m - 1)); } break;
      case 30: { size_t q = rnd(0, (int) m); int k = sim::pick(2); run(k ? "erase final rows" : "erase initial rows", [&] { if (k) x.a.erase_rows(q); else x.a.erase_initial_rows(q); }); x.d = rows(D, k ? iota(0, m - q) : iota(q, m)); break; }
      case 31: { auto r = subset(m), q = subset(n); auto pr = perm(r.size()), pc = perm(q.size()); std::vector<size_t> rr, cc; for (auto k : pr) rr.push_back(r[k]); for (auto k : pc) cc.push_back(q[k]); run("submatrix", [&] { x.a = x.a.submatrix(rr, cc); }); x.d = cols(rows(D, rr), cc); break; }
      case 32: { size_t r0 = rnd(0, (int) m), r1 = rnd((int) r0, (int) m), c0 = rnd(0, (int) n), c1 = rnd((int) c0, (int) n); run("block", [&] { x.a = x.a.block(r0, r1, c0, c1); }); x.d = cols(rows(D, iota(r0, r1)), iota(c0, c1)); break; }
      case 33: case 34: if (&x != &y && y.d.r <= m && y.d.c <= n) { size_t r0 = rnd(0, (int) (m - y.d.r)), c0 = rnd(0, (int) (n - y.d.c)); run("set block", [&] { x.a.set_block(r0, r0 + y.d.r, c0, c0 + y.d.c, y.a); }); for (size_t p = 0; p < y.d.r; p++) for (size_t q = 0; q < y.d.c; q++) x.d(r0 + p, c0 + q) = y.d(p, q); } break;
      case 35: { auto c_ = mask(m); run("clear rows", [&] { x.a.clear_rows(c_); }); for (size_t p = 0; p < m; p++) if (c_[p]) for (size_t q = 0; q < n; q++) x.d(p, q) = S{}; break; }
      case 36: { auto c_ = mask(n); run("clear columns", [&] { x.a.clear_cols(c_); }); for (size_t p = 0; p < m; p++) for (size_t q = 0; q < n; q++) if (c_[q]) x.d(p, q) = S{}; break; }
      case 37: { int k = sim::pick(6); run("reverse", [&] { switch (k) { case 0: x.a.J_left_inplace(); break; case 1: x.a.J_right_inplace(); break; case 2: x.a.J_conjugation_inplace(); break; case 3: x.a = x.a.J_left(); break; case 4: x.a = x.a.J_right(); break; default: x.a = x.a.J_conjugation(); } }); x.d = flip(D, k % 3 != 1, k % 3 != 0); break; }
      case 38: { std::vector<F> cf; std::vector<S> cs; int k = sim::pick(2); for (size_t q = 0; q < (k ? m : n); q++) { cs.push_back(unit<F>()); cf.push_back(lib<F>(cs[q])); } run(k ? "scale rows" : "unscale columns", [&] { if (k) x.a.row_scale(cf); else x.a.col_inv_scale(cf); }); for (size_t p = 0; p < m; p++) for (size_t q = 0; q < n; q++) x.d(p, q) = mul(D(p, q), k ? cs[p] : inv(cs[q])); break; }
      case 39: if (y.d.r + z.d.r <= (size_t) cap && y.d.c + z.d.c <= (size_t) cap) { M r(y.d.r + z.d.r, y.d.c + z.d.c); for (size_t p = 0; p < r.r; p++) for (size_t q = 0; q < r.c; q++) if (p < y.d.r && q < y.d.c) r(p, q) = y.d(p, q); else if (p >= y.d.r && q >= y.d.c) r(p, q) = z.d(p - y.d.r, q - y.d.c); run("direct sum", [&] { x.a = direct_sum(y.a, z.a); }); x.d = r; } break;
      case 40: if (y.d.r * z.d.r <= 24 && y.d.c * z.d.c <= 24) { M r(y.d.r * z.d.r, y.d.c * z.d.c); for (size_t p = 0; p < r.r; p++) for (size_t q = 0; q < r.c; q++) r(p, q) = mul(y.d(p / z.d.r, q / z.d.c), z.d(p % z.d.r, q % z.d.c)); MT<F> K; run("tensor product", [&] { K = tensor_product(y.a, z.a); }); same<F>(K, r, "tensor product"); } break;
      case 41: case 42: if (n && y.d.c && m >= y.d.r) { size_t k = (size_t) rnd(0, (int) y.d.c - 1); std::vector<S> src; for (size_t p = 0; p < y.d.r; p++) src.push_back(y.d(p, k)); garbage(tmp); size_t lo = 0, hi = m; int w = sim::pick(3); if (w == 2) { lo = rnd(0, (int) m); hi = rnd(0, (int) m); } run("column operation", [&] { if (w == 0) x.a[j].axpy(lib<F>(a), y.a[k]); else if (w == 1) x.a[j].axpy(lib<F>(a), y.a[k], tmp); else x.a[j].axpy(lib<F>(a), y.a[k], lo, hi, tmp); }); for (size_t p = lo; p < hi && p < src.size(); p++) x.d(p, j) = add(D(p, j), mul(a, src[p])); if (&x == &y && j == k) sim_probe("column-added-to-itself"); } break;
      case 43: { std::vector<S> v = some_dense<F>((int) n), u = some_dense<F>((int) m); VT<F> sv = vec<F>(v), su = vec<F>(u), r1, r2, r3; garbage(tmp); run("matrix vector", [&] { r1 = x.a * sv; r2 = x.a.gemv(sv, tmp); r3 = su * x.a; }); std::vector<S> w1(m), w3(n); for (size_t p = 0; p < m; p++) for (size_t q = 0; q < n; q++) { w1[p] = add(w1[p], mul(D(p, q), v[q])); w3[q] = add(w3[q], mul(u[p], D(p, q))); } same<F>(r1, w1, "matrix times vector"); same<F>(r2, w1, "matrix times vector with temporary"); same<F>(r3, w3, "vector times matrix"); break; }
      case 44: { size_t k = PP() ? rnd(1, 6) : rnd(1, 4), q = rnd(1, 3); bool up = sim::pick(2); M T = triangular<F>(k, up, !PP()), R = some_mat<F>(k, q); MT<F> t_ = mat<F>(T), r_ = mat<F>(R); sim_desc("T=%s R=%s ", orc::show(T).c_str(), orc::show(R).c_str()); run(up ? "upper solve" : "lower solve", [&] { x.a = up ? u_solve(t_, r_) : l_solve(t_, r_); }); x.d = orc::solve(T, R); same<F>(t_, T, "triangular operand"); break; }
      case 45: { size_t k = PP() ? rnd(0, 6) : rnd(0, 4); bool up = sim::pick(2); M T = triangular<F>(k, up, !PP()); MT<F> t_ = mat<F>(T); sim_desc("T=%s ", orc::show(T).c_str()); run(up ? "upper inverse" : "lower inverse", [&] { x.a = up ? u_inv(t_) : l_inv(t_); }); x.d = orc::solve(T, ident(k)); break; }
      case 46: case 47: { bool q[9]; size_t nz; run("shape queries", [&] { q[0] = x.a.is_upper(); q[1] = x.a.is_lower(); q[2] = x.a.is_reduced(); q[3] = x.a.is_pivot_matrix(); q[4] = x.a.is_EL(); q[5] = x.a.is_EU(); q[6] = x.a.is_zero(); q[7] = x.a.is_upper_invert(); nz = x.a.nnz(); q[8] = x.a == y.a; });
        bool inv_ = m == n && mupper(D); for (size_t k = 0; k < m && k < n; k++) inv_ = inv_ && !zero(D(k, k)); size_t wnz = 0; for (auto& v : D.a) wnz += !zero(v);
        bool w[9] = {mupper(D), mupper(tr(D)), mreduced(D), mpivot(D), mEL(D), mEL(tr(D)), orc::is_zero(D), inv_, D == y.d}; const char* nm[] = {"upper", "lower", "reduced", "pivot", "EL", "EU", "zero", "invertible upper", "equality"}; for (int k = 0; k < 9; k++) need(q[k] == w[k], "wrong-shape", "%s answers %d for %s", nm[k], q[k], orc::show(D).c_str()); need(nz == wnz, "wrong-count", "nnz is %zu expected %zu", nz, wnz); break; }
      case 48: { std::vector<std::vector<F>> ra; F* dd = nullptr; run("dump", [&] { ra = x.a.to_row_array(); dd = x.a.dump_dense(); }); need(ra.size() == m, "wrong-dimensions", "row array has %zu rows", ra.size()); for (size_t p = 0; p < m; p++) { need(ra[p].size() == n, "wrong-dimensions", "row %zu has %zu entries", p, ra[p].size()); for (size_t q = 0; q < n; q++) { need(eq(toS(ra[p][q]), D(p, q)), "wrong-value", "row array at (%zu,%zu)", p, q); need(eq(toS(dd[p + q * m]), D(p, q)), "wrong-value", "dense dump at (%zu,%zu)", p, q); F g, h; { sim::Sys s; g = x.a.getval(p, q); h = x.a(p, q); } need(eq(toS(g), D(p, q)) && eq(toS(h), D(p, q)), "wrong-value", "entry (%zu,%zu)", p, q); } } delete[] dd; break; }
      default: { int k = sim::pick(5); size_t r = rnd(0, N), q = rnd(0, N); if (k == 0) { run("identity", [&] { x.a = MT<F>::identity(r); }); x.d = ident(r); } else if (k == 1) { run("zero matrix", [&] { x.a = MT<F>(r, q); }); x.d = M(r, q); } else if (k == 2) { run("constant matrix", [&] { x.a = MT<F>(r, q, lib<F>(a)); }); x.d = M(r, q); for (auto& v : x.d.a) v = a; } else if (k == 3) { x.d = some_mat<F>(r, q); x.a = mat<F>(x.d); sim_desc("| fresh %s ", orc::show(x.d).c_str()); } else { M Z(r, q); MZ zz(r, q); for (size_t v = 0; v < q; v++) for (size_t u = 0; u < r; u++) { int e = sim::pick(2) ? rnd(-6, 6) : 0; Z(u, v) = mk(e); if (e) zz[v].emplace_back(u, e); } run("from integers", [&] { x.a = MT<F>(zz); }); x.d = Z; } }
    }
    for (auto& w : P) same<F>(w.a, w.d, what.c_str());
    bool over = x.d.r > (size_t) cap + 1 || x.d.c > (size_t) cap + 1; for (auto& v : x.d.a) over = over || big(v); if (over) { x.d = some_mat<F>(rnd(0, N), rnd(0, N)); x.a = mat<F>(x.d); sim_desc("| fresh %s ", orc::show(x.d).c_str()); }
  }
}
// ---- compressed matrices
template <class F> using CS = CSCMatrix<F, size_t>;
template <class F> CS<F> csc(const M& D, bool shuffle) { std::vector<size_t> cp(1, 0), ri; std::vector<F> v; for (size_t j = 0; j < D.c; j++) { std::vector<size_t> nz; for (size_t i = 0; i < D.r; i++) if (!zero(D(i, j))) nz.push_back(i); auto p = shuffle ? perm(nz.size()) : iota(0, nz.size()); for (auto k : p) { ri.push_back(nz[k]); v.push_back(lib<F>(D(nz[k], j))); } cp.push_back(ri.size()); } sim::Sys s; return CS<F>(D.r, D.c, cp, ri, v); }
template <class F> void same(const CS<F>& a, const M& d, const char* what) {
  sim::Off o; need(a.nrow() == d.r && a.ncol() == d.c, "wrong-dimensions", "%s: %zux%zu, expected %zux%zu", what, a.nrow(), a.ncol(), d.r, d.c); auto& cp = a.get_colptr(); auto& ri = a.get_rowind(); auto& v = a.get_val(); need(cp.size() == d.c + 1 || (d.c == 0 && cp.empty()), "malformed", "%s: %zu column pointers", what, cp.size()); M g(d.r, d.c);
  for (size_t j = 0; j < d.c; j++) { long last = -1; need(cp[j] <= cp[j + 1] && cp[j + 1] <= ri.size() && ri.size() == v.size(), "malformed", "%s: column pointers", what); for (size_t p = cp[j]; p < cp[j + 1]; p++) { need(ri[p] < d.r, "out-of-range", "%s: row %zu", what, ri[p]); need((long) ri[p] > last, "unsorted", "%s: column %zu is not sorted", what, j); S s = toS(v[p]); need(!zero(s), "stored-zero", "%s: stored zero at (%zu,%zu)", what, ri[p], j); g(ri[p], j) = s; last = (long) ri[p]; } }
  need(g == d, "wrong-value", "%s: matrix is %s, expected %s", what, orc::show(g).c_str(), orc::show(d).c_str()); if (d.c) need(cp[0] == 0 && cp[d.c] == ri.size(), "malformed", "%s: trailing entries", what);
}
template <class F> void compressed() {
  use_field<F>(); struct C_ { CS<F> a; M d; }; std::vector<C_> P(3); for (auto& x : P) { x.d = some_mat<F>(rnd(0, 5), rnd(0, 5)); x.a = csc<F>(x.d, true); sim_desc("%s ", orc::show(x.d).c_str()); same<F>(x.a, x.d, "constructor"); }
  int steps = rnd(1, 8);
  for (int t = 0; t < steps; t++) {
    auto &x = P[sim::pick(3)], &y = P[sim::pick(3)], &z = P[sim::pick(3)]; std::string what = "?"; S a = some<F>(); M D = x.d;
    auto run = [&](const char* w, auto f) { what = w; sim_desc("| %s(%ld,%ld,%ld) ", w, (long) (&x - &P[0]), (long) (&y - &P[0]), (long) (&z - &P[0])); sim::Sys s; f(); };
    switch (sim::pick(8)) {
      case 0: case 1: if (y.d.c == z.d.r) { M r = y.d * z.d; if (&x == &y || &x == &z || sim::pick(2)) run("product", [&] { x.a = y.a * z.a; }); else run("product into", [&] { gemm(y.a, z.a, x.a); }); x.d = r; } break;
      case 2: if (y.d.r == z.d.r && y.d.c == z.d.c && &x != &y && &x != &z) { run("sum", [&] { sum(y.a, z.a, x.a); }); x.d = y.d + z.d; } break;
      case 3: if (y.d.r == z.d.r && y.d.c == z.d.c && &x != &y && &x != &z) { if (zero(a)) a = mk(1); run("scaled sum", [&] { sum(lib<F>(a), y.a, z.a, x.a); }); x.d = scaled(y.d, a) + z.d; } break;
      case 4: { auto r = subset(D.r), q = subset(D.c); auto pr = perm(r.size()), pc = perm(q.size()); std::vector<size_t> rr, cc; for (auto k : pr) rr.push_back(r[k]); for (auto k : pc) cc.push_back(q[k]); run("submatrix", [&] { x.a = x.a.submatrix(rr, cc); }); x.d = cols(rows(D, rr), cc); break; }
      case 5: if (&x != &y) { auto r = subset(y.d.r), q = subset(y.d.c); auto pr = perm(r.size()), pc = perm(q.size()); std::vector<size_t> prow(y.d.r, bats::NO_IND), rr, cc; for (size_t k = 0; k < pr.size(); k++) { rr.push_back(r[pr[k]]); prow[r[pr[k]]] = k; } for (auto k : pc) cc.push_back(q[k]); run("block select", [&] { block_select(y.a, cc, prow, rr.size(), x.a); }); x.d = cols(rows(y.d, rr), cc); } break;
      case 6: for (size_t p = 0; p < D.r; p++) for (size_t q = 0; q < D.c; q++) { F g; { sim::Sys s; g = x.a.getval(p, q); } need(eq(toS(g), D(p, q)), "wrong-value", "entry (%zu,%zu)", p, q); } break;
      default: x.d = some_mat<F>(rnd(0, 5), rnd(0, 5)); x.a = csc<F>(x.d, true); what = "constructor"; sim_desc("| fresh %s ", orc::show(x.d).c_str());
    }
    for (auto& w : P) same<F>(w.a, w.d, what.c_str());
    bool over = false; for (auto& v : x.d.a) over = over || big(v); if (over) { x.d = some_mat<F>(rnd(0, 5), rnd(0, 5)); x.a = csc<F>(x.d, true); sim_desc("| fresh %s ", orc::show(x.d).c_str()); }
  }
}
#define FIELDS(f) swarm_env(); switch (sim::pick(4)) { case 0: f<F2>(); break; case 1: f<F3>(); break; case 2: f<F5>(); break; default: f<FQ>(); }
SIM_SCENARIO(H06, vectors, 3) { FIELDS(vectors) }
SIM_SCENARIO(H06, matrices, 4) { FIELDS(matrices) }
SIM_SCENARIO(H06, compressed, 2) { FIELDS(compressed) }
