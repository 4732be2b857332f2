// Filtered complexes with an independent description of cells, boundaries and values.
#pragma once
#include "common.hpp"
#include <cmath>
namespace flt {
typedef std::vector<size_t> Cube;
// bd[k][i]: boundary of the i-th k-cell over (k-1)-cells, in the order the cells were added
struct RF {
  std::vector<std::vector<std::vector<std::pair<size_t, int>>>> bd; std::vector<std::vector<double>> val;
  std::vector<std::vector<Spx>> spx;  // names, when the cells have some
  size_t maxdim() const { return bd.size() - 1; } size_t n(size_t k) const { return k < bd.size() ? bd[k].size() : 0; }
};
inline std::string show(const RF& f) { std::string s; for (size_t k = 0; k < f.bd.size(); k++) { s += "dim" + std::to_string(k) + ":"; for (size_t i = 0; i < f.bd[k].size() && i < 40; i++) { if (i < f.spx[k].size()) s += orc::show(f.spx[k][i]); else { s += "<"; for (auto& e : f.bd[k][i]) s += std::to_string(e.second) + "*" + std::to_string(e.first) + " "; s += ">"; } char b[40]; snprintf(b, sizeof b, "@%g ", f.val[k][i]); s += b; } } return s; }
// a value not below lo; few distinct ones, so that ties are common
inline double draw_val(double lo, int spread = 4) { double v = ((int) sim::pick(spread) - 1) * 0.5; return std::max(lo, v); }
inline RF from_cells(const std::vector<std::vector<Spx>>& c, const std::map<Spx, double>& v) {
  RF f; f.bd.resize(c.size()); f.val.resize(c.size()); f.spx = c;
  for (size_t k = 0; k < c.size(); k++) { std::map<Spx, size_t> ix; if (k) for (size_t i = 0; i < c[k - 1].size(); i++) ix[c[k - 1][i]] = i; for (auto& s : c[k]) { std::vector<std::pair<size_t, int>> b; for (size_t i = 0; k && i < s.size(); i++) { Spx t = s; t.erase(t.begin() + i); auto it = ix.find(t); if (it == ix.end()) sim_fail("harness", "missing face"); b.push_back({it->second, i % 2 ? -1 : 1}); } f.bd[k].push_back(b); f.val[k].push_back(v.at(s)); } }
  return f;
}
// random simplicial filtration: cells in a random order (faces first inside each addition), values monotone
inline RF gen_simplicial(int n, int facets, int dmax, int spread = 4) {
  n = zm(n); facets = zm(facets); if (ZOOM() > 1) dmax = std::min(dmax, 2);
  SpxSet X; for (int i = 0; i < facets; i++) { std::set<size_t> s; int d = std::min(rnd(1, dmax + 1), n); while ((int) s.size() < d) s.insert(sim::pick(n)); add_closed(X, Spx(s.begin(), s.end())); }
  std::vector<std::vector<Spx>> c(dmax + 1); for (auto& s : X) c[s.size() - 1].push_back(s); for (auto& k : c) for (size_t i = k.size(); i > 1; i--) std::swap(k[i - 1], k[sim::pick(i)]);
  std::map<Spx, double> v; for (auto& k : c) for (auto& s : k) { double lo = -1e9; for (size_t i = 0; s.size() > 1 && i < s.size(); i++) { Spx t = s; t.erase(t.begin() + i); lo = std::max(lo, v[t]); } v[s] = draw_val(lo, spread); }
  return from_cells(c, v);
}
inline void revalue(RF& f, int spread = 4) { for (size_t k = 0; k < f.bd.size(); k++) for (size_t i = 0; i < f.bd[k].size(); i++) { double lo = -1e9; for (auto& e : f.bd[k][i]) lo = std::max(lo, f.val[k - 1][e.first]); f.val[k][i] = draw_val(lo, spread); } }
inline void trim(RF& f) { while (f.bd.size() > 1 && f.bd.back().empty()) { f.bd.pop_back(); f.val.pop_back(); f.spx.pop_back(); } }
inline bats::SimplicialComplex simplicial(const RF& f) { bats::SimplicialComplex X(f.n(0), f.maxdim()); for (auto& k : f.spx) for (auto s : k) X.add(s); return X; }
inline bats::Filtration<double, bats::SimplicialComplex> filtration(const RF& f) { return bats::Filtration<double, bats::SimplicialComplex>(simplicial(f), f.val); }
// cubes as coordinate pairs; faces of a cube with signs
inline void cube_faces(const Cube& c, std::vector<std::pair<Cube, int>>& out) { int sg = 1; for (size_t i = 0; i < c.size(); i += 2) if (c[i] != c[i + 1]) { Cube a = c, b = c; a[i + 1] = c[i]; b[i] = c[i + 1]; out.push_back({a, -sg}); out.push_back({b, sg}); sg = -sg; } }
inline size_t cube_dim(const Cube& c) { size_t d = 0; for (size_t i = 0; i < c.size(); i += 2) d += c[i] != c[i + 1]; return d; }
inline void add_cube(std::set<Cube>& S, const Cube& c) { if (!S.insert(c).second) return; std::vector<std::pair<Cube, int>> f; cube_faces(c, f); for (auto& x : f) add_cube(S, x.first); }
inline RF from_cubes(const std::vector<std::vector<Cube>>& c, const std::map<Cube, double>& v) {
  RF f; f.bd.resize(c.size()); f.val.resize(c.size()); f.spx = c;
  for (size_t k = 0; k < c.size(); k++) { std::map<Cube, size_t> ix; if (k) for (size_t i = 0; i < c[k - 1].size(); i++) ix[c[k - 1][i]] = i; for (auto& s : c[k]) { std::vector<std::pair<size_t, int>> b; std::vector<std::pair<Cube, int>> fs; cube_faces(s, fs); for (auto& x : fs) b.push_back({ix.at(x.first), x.second}); f.bd[k].push_back(b); f.val[k].push_back(v.at(s)); } }
  return f;
}
inline RF gen_cubical(size_t d, int ncubes, int side) {
  ncubes = zm(ncubes); if (side > 2) side += ZOOM() - 1;
  std::set<Cube> S; for (int i = 0; i < ncubes; i++) { Cube c; for (size_t k = 0; k < d; k++) { size_t a = sim::pick(side); c.push_back(a); c.push_back(a + (sim::chance(3, 4) ? 1 : 0)); } add_cube(S, c); }
  std::vector<std::vector<Cube>> c(d + 1); for (auto& s : S) c[cube_dim(s)].push_back(s); for (auto& k : c) for (size_t i = k.size(); i > 1; i--) std::swap(k[i - 1], k[sim::pick(i)]);
  std::map<Cube, double> v; for (auto& k : c) for (auto& s : k) { double lo = -1e9; std::vector<std::pair<Cube, int>> fs; cube_faces(s, fs); for (auto& x : fs) lo = std::max(lo, v[x.first]); v[s] = draw_val(lo); }
  return from_cubes(c, v);
}
// random cell complex: each cell is attached along an integer cycle (possibly zero) of the earlier ones
inline RF gen_cells(int dmax, int per_dim) {
  per_dim = zm(per_dim);
  RF f; f.bd.resize(dmax + 1); f.val.resize(dmax + 1); f.spx.resize(dmax + 1); int n0 = rnd(1, per_dim); for (int i = 0; i < n0; i++) { f.bd[0].push_back({}); f.val[0].push_back(draw_val(-1e9)); }
  std::vector<std::vector<ll>> Z; // integer cycles in the dimension below
  for (int k = 1; k <= dmax; k++) {
    size_t lo = f.n(k - 1); if (k == 1) { Z.clear(); for (size_t i = 1; i < lo; i++) { std::vector<ll> z(lo, 0); z[0] = -1; z[i] = 1; Z.push_back(z); } }
    int m = rnd(0, per_dim); std::vector<std::vector<ll>> B;
    for (int i = 0; i < m; i++) { std::vector<ll> b(lo, 0); int t = sim::pick(3); while (t-- && !Z.empty()) { auto& z = Z[sim::pick(Z.size())]; ll c = (ll) sim::pick(4) - 1; if (c == 0) c = 2; for (size_t q = 0; q < lo; q++) b[q] += c * z[q]; } bool big = false; for (auto x : b) big |= x > 9 || x < -9; if (big) std::fill(b.begin(), b.end(), 0); B.push_back(b); std::vector<std::pair<size_t, int>> e; double l = -1e9; for (size_t q = 0; q < lo; q++) if (b[q]) { e.push_back({q, (int) b[q]}); l = std::max(l, f.val[k - 1][q]); } f.bd[k].push_back(e); f.val[k].push_back(draw_val(l)); }
    // integer cycles of the new cells: those with zero boundary, sums of pairs with equal or opposite ones
    Z.clear(); for (int i = 0; i < m; i++) { bool z = true; for (auto x : B[i]) z &= x == 0; if (z) { std::vector<ll> v(m, 0); v[i] = 1; Z.push_back(v); } for (int j = 0; j < i; j++) { if (B[i] == B[j]) { std::vector<ll> v(m, 0); v[i] = 1; v[j] = -1; Z.push_back(v); } else { bool opp = true; for (size_t q = 0; q < lo; q++) opp &= B[i][q] == -B[j][q]; if (opp) { std::vector<ll> v(m, 0); v[i] = 1; v[j] = 1; Z.push_back(v); } } } }
    for (int t = 0; t < 4 && k == 1; t++) { // a triangle of edges if there is one
      int a = m ? sim::pick(m) : 0, b = m ? sim::pick(m) : 0, c = m ? sim::pick(m) : 0; if (m) for (int s = 0; s < 4; s++) { ll x = s & 1 ? -1 : 1, y = s & 2 ? -1 : 1; bool z = true; for (size_t q = 0; q < lo; q++) z &= B[a][q] + x * B[b][q] + y * B[c][q] == 0; if (z) { std::vector<ll> v(m, 0); v[a] += 1; v[b] += x; v[c] += y; Z.push_back(v); } } }
  }
  return f;
}
inline bats::CellComplex cellcomplex(const RF& f) { bats::CellComplex X(f.maxdim()); X.add_vertices(f.n(0)); for (size_t k = 1; k <= f.maxdim(); k++) for (auto& b : f.bd[k]) { std::vector<size_t> i; std::vector<int> c; for (auto& e : b) { i.push_back(e.first); c.push_back(e.second); } X.add(i, c, k); } return X; }

struct Pr { size_t b; long d; double bv, dv; bool operator<(const Pr& o) const { return b != o.b ? b < o.b : d < o.d; } bool operator==(const Pr& o) const { return b == o.b && d == o.d && bv == o.bv && dv == o.dv; } };
inline std::string show(const std::vector<Pr>& v) { std::string s; for (auto& p : v) { char b[96]; snprintf(b, sizeof b, "%zu>%ld(%g,%g) ", p.b, p.d, p.bv, p.dv); s += b; } return s; }
// each order sorts the values upwards
inline void check_order(const RF& f, std::vector<std::vector<size_t>> perm, bool reversed, const char* what) {
  need(perm.size() == f.bd.size(), "wrong-order", "%s: orders for %zu dimensions instead of %zu", what, perm.size(), f.bd.size());
  for (size_t k = 0; k < perm.size(); k++) { auto p = perm[k]; if (reversed) std::reverse(p.begin(), p.end()); std::vector<bool> seen(f.n(k), false); need(p.size() == f.n(k), "wrong-order", "%s: order of dimension %zu has %zu entries for %zu cells", what, k, p.size(), f.n(k)); for (size_t i = 0; i < p.size(); i++) { need(p[i] < f.n(k) && !seen[p[i]], "wrong-order", "%s: order of dimension %zu is not a permutation", what, k); seen[p[i]] = true; need(!i || f.val[k][p[i - 1]] <= f.val[k][p[i]], "wrong-order", "%s: order of dimension %zu does not sort the values", what, k); } }
}
inline std::vector<std::vector<size_t>> stable_order(const RF& f) { std::vector<std::vector<size_t>> r; for (auto& v : f.val) { std::vector<size_t> p(v.size()); for (size_t i = 0; i < p.size(); i++) p[i] = i; std::stable_sort(p.begin(), p.end(), [&](size_t a, size_t b) { return v[a] < v[b]; }); r.push_back(p); } return r; }
// pairs in every dimension for the given (upward) orders, by elimination over the current field
inline std::vector<std::vector<Pr>> ref_pairs(const RF& f, const std::vector<std::vector<size_t>>& perm) {
  std::vector<std::vector<Pr>> r(f.bd.size()); for (size_t k = 0; k < f.bd.size(); k++) {
    // columns of dimension k+1 in order; rows by position of the k-cells
    std::vector<size_t> pos(f.n(k)); for (size_t i = 0; i < pos.size(); i++) pos[perm[k][i]] = i;
    std::vector<long> mate(f.n(k), -1); std::vector<std::map<size_t, S>> red; std::map<size_t, size_t> low;
    if (k + 1 < f.bd.size()) for (size_t j : perm[k + 1]) { std::map<size_t, S> c; for (auto& e : f.bd[k + 1][j]) { S v = add(c.count(pos[e.first]) ? c[pos[e.first]] : S{}, mk(e.second)); if (zero(v)) c.erase(pos[e.first]); else c[pos[e.first]] = v; } while (!c.empty()) { auto it = low.find(c.rbegin()->first); if (it == low.end()) break; auto& o = red[it->second]; S g = mul(c.rbegin()->second, inv(o.rbegin()->second)); for (auto& e : o) { S v = sub(c.count(e.first) ? c[e.first] : S{}, mul(g, e.second)); if (zero(v)) c.erase(e.first); else c[e.first] = v; } } if (!c.empty()) { low[c.rbegin()->first] = red.size(); mate[c.rbegin()->first] = (long) j; red.push_back(c); } }
    // positive k-cells: those whose own column vanishes, that is, not a death in dimension k-1
    std::set<size_t> dead; if (k) for (auto& p : r[k - 1]) if (p.d >= 0) dead.insert((size_t) p.d);
    for (size_t i = 0; i < f.n(k); i++) { size_t c = perm[k][i]; if (dead.count(c)) continue; Pr p; p.b = c; p.d = mate[i]; p.bv = f.val[k][c]; p.dv = p.d < 0 ? INFINITY : f.val[k + 1][p.d]; r[k].push_back(p); }
    std::sort(r[k].begin(), r[k].end());
  }
  return r;
}
template <class T> std::vector<Pr> to_pr(const std::vector<bats::PersistencePair<T>>& v, size_t k) { std::vector<Pr> r; for (auto& x : v) { need(x.dim == k, "wrong-pairs", "a pair of dimension %zu listed in dimension %zu", x.dim, k); r.push_back(Pr{x.birth_ind, x.death_ind == bats::NO_IND ? -1 : (long) x.death_ind, (double) x.birth, (double) x.death}); } std::sort(r.begin(), r.end()); return r; }
inline void same_pairs(const std::vector<Pr>& got, const std::vector<Pr>& want, size_t k, const char* what) { if (!(got == want)) sim_fail("wrong-pairs", "%s: pairs in dimension %zu are %s expected %s", what, k, show(got).c_str(), show(want).c_str()); }
inline std::vector<std::vector<size_t>> upward(std::vector<std::vector<size_t>> p, bool reversed) { if (reversed) for (auto& x : p) std::reverse(x.begin(), x.end()); return p; }
// boundary matrix in dimension k with rows and columns in the given orders
inline M bd_matrix(const RF& f, size_t k, const std::vector<size_t>& rows, const std::vector<size_t>& cs) { std::vector<size_t> pos(f.n(k - 1)); for (size_t i = 0; i < rows.size(); i++) pos[rows[i]] = i; M D(f.n(k - 1), f.n(k)); for (size_t j = 0; j < cs.size(); j++) for (auto& e : f.bd[k][cs[j]]) D(pos[e.first], j) = add(D(pos[e.first], j), mk(e.second)); return D; }
// a chain (in the order of addition) that should be a cycle born exactly at cell b
template <class F> void check_cycle(const RF& f, const VT<F>& v, size_t k, size_t b, const std::vector<size_t>& perm, const char* what) {
  std::vector<size_t> pos(f.n(k)); for (size_t i = 0; i < pos.size(); i++) pos[perm[i]] = i; M c(f.n(k), 1); bool has = false;
  for (auto it = v.nzbegin(); it != v.nzend(); ++it) { need(it->ind < f.n(k), "bad-representative", "%s: entry %zu outside %zu cells", what, (size_t) it->ind, f.n(k)); c(it->ind, 0) = add(c(it->ind, 0), toS(it->val)); }
  for (size_t i = 0; i < f.n(k); i++) if (!zero(c(i, 0))) { need(pos[i] <= pos[b], "bad-representative", "%s: the representative born at cell %zu of dimension %zu contains the later cell %zu", what, b, k, i); has |= i == b; }
  need(has, "bad-representative", "%s: the representative born at cell %zu of dimension %zu does not contain it", what, b, k);
  if (k) { std::map<size_t, S> d; for (size_t i = 0; i < f.n(k); i++) if (!zero(c(i, 0))) for (auto& e : f.bd[k][i]) d[e.first] = add(d.count(e.first) ? d[e.first] : S{}, mul(c(i, 0), mk(e.second))); for (auto& e : d) need(zero(e.second), "bad-representative", "%s: the representative born at cell %zu of dimension %zu is not a cycle", what, b, k); }
}
template <class F, class R> void check_pairs(const RF& f, const R& r, bool reversed, const char* what) {
  sim::Off o; use_field<F>(); check_order(f, r.perm, reversed, what); auto up = upward(r.perm, reversed); auto want = ref_pairs(f, up);
  for (size_t k = 0; k <= f.maxdim(); k++) {
    auto ps = r.persistence_pairs(k); same_pairs(to_pr(ps, k), want[k], k, what);
    size_t inf = 0; for (auto& p : want[k]) inf += p.d < 0; need(r.hdim(k) == inf, "wrong-betti", "%s: dimension %zu of homology is %zu, expected %zu", what, k, r.hdim(k), inf); need(r.dim(k) == f.n(k), "wrong-dim", "%s: dim(%zu) is %zu", what, k, r.dim(k));
    auto v = r.persistence_pairs_vec(k); auto& bd = std::get<0>(v); auto& in = std::get<1>(v); need(bd.size() == 2 * ps.size() && in.size() == 2 * ps.size(), "wrong-pairs", "%s: flattened pairs have another length", what); for (size_t i = 0; i < ps.size(); i++) need(bd[2 * i] == ps[i].birth && bd[2 * i + 1] == ps[i].death && in[2 * i] == ps[i].birth_ind && in[2 * i + 1] == ps[i].death_ind, "wrong-pairs", "%s: flattened pair %zu differs", what, i);
  }
}
template <class F> void check_chain(const RF& f, const bats::ReducedFilteredChainComplex<double, MT<F>>& r, bool basis, const char* what) {
  check_pairs<F>(f, r, false, what); sim::Off o;
  for (size_t k = 0; k <= f.maxdim(); k++) {
    auto ps = r.persistence_pairs(k), pp = r.persistence_pairs(k, true); need(ps.size() == pp.size(), "wrong-pairs", "%s: permuted pairs have another length", what);
    for (size_t i = 0; i < ps.size(); i++) { auto a = ps[i], b = pp[i]; need(b.birth_ind < f.n(k) && r.perm[k][b.birth_ind] == a.birth_ind && a.birth == b.birth && a.death == b.death && (a.death_ind == bats::NO_IND) == (b.death_ind == bats::NO_IND) && (b.death_ind == bats::NO_IND || r.perm[k + 1][b.death_ind] == a.death_ind), "wrong-pairs", "%s: permuted pair %zu of dimension %zu does not match", what, i, k);
      if (basis) { VT<F> v, w; { sim::Sys s; v = r.representative(a); w = r.representative(b, true); } std::string t = std::string(what) + " (original order)"; check_cycle<F>(f, v, k, a.birth_ind, r.perm[k], t.c_str()); w.permute(r.perm[k]); t = std::string(what) + " (permuted)"; check_cycle<F>(f, w, k, a.birth_ind, r.perm[k], t.c_str()); } }
  }
}
// R = D U in filtration order, U invertible upper triangular, R reduced, pivots recorded
template <class F, class RCx> void check_factor(const RF& f, const RCx& RC, const std::vector<std::vector<size_t>>& perm, const char* what) {
  sim::Off o; use_field<F>(); need(RC.R.size() == f.bd.size() && RC.U.size() == f.bd.size() && RC.p2c.size() == f.bd.size(), "bad-factorization", "%s: %zu reduced and %zu basis matrices for %zu dimensions", what, RC.R.size(), RC.U.size(), f.bd.size());
  for (size_t k = 0; k < f.bd.size(); k++) {
    M r = dense<F>(RC.R[k], what), u = dense<F>(RC.U[k], what); need(u.r == f.n(k) && u.c == f.n(k), "bad-factorization", "%s: basis of dimension %zu is %zux%zu for %zu cells", what, k, u.r, u.c, f.n(k)); need(r.c == f.n(k) && (k == 0 || r.r == f.n(k - 1)), "bad-factorization", "%s: reduced matrix of dimension %zu is %zux%zu", what, k, r.r, r.c);
    for (size_t j = 0; j < u.c; j++) for (size_t i = j; i < u.r; i++) need(i == j ? !zero(u(i, j)) : zero(u(i, j)), "bad-factorization", "%s: basis of dimension %zu is not invertible upper triangular: %s", what, k, orc::show(u).c_str());
    if (k == 0) { need(is_zero(r), "bad-factorization", "%s: reduced matrix of dimension 0 is not zero", what); continue; }
    M want = bd_matrix(f, k, perm[k - 1], perm[k]) * u; need(same_boundary(r, want, k), "bad-factorization", "%s: in dimension %zu the boundary times the basis is %s but the reduced matrix is %s", what, k, orc::show(want).c_str(), orc::show(r).c_str());
    std::map<size_t, size_t> low; for (size_t j = 0; j < r.c; j++) for (size_t i = r.r; i-- > 0;) if (!zero(r(i, j))) { auto q = low.emplace(i, j); need(q.second, "bad-factorization", "%s: columns %zu and %zu of dimension %zu share a pivot", what, q.first->second, j, k); break; }
    need(RC.p2c[k].size() == r.r, "bad-factorization", "%s: %zu recorded pivots in dimension %zu", what, RC.p2c[k].size(), k); for (size_t i = 0; i < r.r; i++) { auto it = low.find(i); need(RC.p2c[k][i] == (it == low.end() ? bats::NO_IND : it->second), "bad-factorization", "%s: recorded pivot of row %zu in dimension %zu is wrong", what, i, k); }
  }
}
// next filtration: some cells removed with their cofaces, some added with their faces, listed in a new order with new values
inline RF next_filtration(const RF& f, int nv, int spread) {
  size_t top = f.maxdim(); SpxSet X; for (auto& k : f.spx) X.insert(k.begin(), k.end()); int rem = sim::pick(4), ad = sim::pick(4); if (sim::chance(1, 12)) rem = 40;
  while (rem-- && !X.empty()) { auto it = X.begin(); std::advance(it, sim::pick((uint32_t) X.size())); Spx s = *it; for (auto j = X.begin(); j != X.end();) if (std::includes(j->begin(), j->end(), s.begin(), s.end())) j = X.erase(j); else ++j; }
  while (ad--) { std::set<size_t> s; size_t d = 1 + sim::pick((uint32_t) top + 1); while (s.size() < d && (int) s.size() < nv) s.insert(sim::pick(nv)); add_closed(X, Spx(s.begin(), s.end())); }
  std::vector<std::vector<Spx>> c(top + 1); bool keep = sim::chance(1, 2); if (keep) for (auto& k : f.spx) for (auto& s : k) if (X.count(s)) { c[s.size() - 1].push_back(s); X.erase(s); } std::vector<std::vector<Spx>> nw(top + 1); for (auto& s : X) nw[s.size() - 1].push_back(s);
  for (size_t k = 0; k <= top; k++) { for (size_t i = nw[k].size(); i > 1; i--) std::swap(nw[k][i - 1], nw[k][sim::pick(i)]); for (auto& s : nw[k]) c[k].push_back(s); if (keep && sim::chance(1, 2)) for (size_t i = c[k].size(); i > 1; i--) std::swap(c[k][i - 1], c[k][sim::pick(i)]); }
  std::map<Spx, double> old; for (size_t k = 0; k <= top; k++) for (size_t i = 0; i < f.n(k); i++) old[f.spx[k][i]] = f.val[k][i]; bool stay = sim::chance(1, 3);
  std::map<Spx, double> v; for (auto& k : c) for (auto& s : k) { double lo = -1e9; for (size_t i = 0; s.size() > 1 && i < s.size(); i++) { Spx t = s; t.erase(t.begin() + i); lo = std::max(lo, v[t]); } v[s] = stay && old.count(s) ? std::max(lo, old[s]) : draw_val(lo, spread); }
  return from_cells(c, v);
}
inline bats::SimplicialComplex mk_simplicial(const RF& f) { return simplicial(f); }
inline bats::CubicalComplex mk_cubical(const RF& f) { bats::CubicalComplex X(f.maxdim()); for (auto& k : f.spx) for (auto c : k) X.add(c); return X; }
inline bats::CellComplex mk_cells(const RF& f) { return cellcomplex(f); }
} // namespace flt
