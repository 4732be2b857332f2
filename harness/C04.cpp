#include "common.hpp"
struct Col { std::vector<std::pair<size_t, S>> e; };
// leftmost-column pairing of a matrix: low row -> column
static std::map<size_t, size_t> lows(const M& A) {
  std::map<size_t, size_t> low; std::vector<std::vector<S>> red(A.c);
  for (size_t j = 0; j < A.c; j++) { std::vector<S> v(A.r); for (size_t i = 0; i < A.r; i++) v[i] = A(i, j);
    for (size_t i = A.r; i-- > 0;) { if (zero(v[i])) continue; auto it = low.find(i); if (it == low.end()) { low[i] = j; red[j] = v; break; } auto& o = red[it->second]; S f = mul(v[i], inv(o[i])); for (size_t k = 0; k <= i; k++) if (!zero(o[k])) v[k] = sub(v[k], mul(f, o[k])); } }
  return low;
}
// every column of B is the same column of A plus earlier columns of A
static void check_ops(const M& A, const M& B, const char* what) {
  std::vector<std::vector<S>> ech; std::vector<size_t> lead;
  auto reduce = [&](std::vector<S>& v) { for (size_t q = 0; q < ech.size(); q++) { S f = v[lead[q]]; if (zero(f)) continue; for (size_t i = 0; i < v.size(); i++) if (!zero(ech[q][i])) v[i] = sub(v[i], mul(f, ech[q][i])); } };
  for (size_t j = 0; j < A.c; j++) {
    std::vector<S> d(A.r), a(A.r); bool any = false; for (size_t i = 0; i < A.r; i++) { a[i] = A(i, j); d[i] = sub(B(i, j), a[i]); any = any || !zero(d[i]); }
    if (any) { reduce(d); for (auto& x : d) need(zero(x), "not-column-operations", "%s: column %zu of the result is not the original column plus earlier columns", what, j); }
    reduce(a); size_t l = 0; while (l < a.size() && zero(a[l])) l++; if (l == a.size()) continue; S iv = inv(a[l]); for (auto& x : a) x = mul(x, iv); ech.push_back(a); lead.push_back(l);
  }
}
static void check_reduced(const M& A, const M& R, const std::vector<size_t>& p2c, const char* what) {
  check_ops(A, R, what); std::map<size_t, size_t> got;
  for (size_t j = 0; j < R.c; j++) for (size_t i = R.r; i-- > 0;) if (!zero(R(i, j))) { bool dup = got.count(i); need(!dup, "not-reduced", "%s: columns %zu and %zu both have lowest row %zu", what, got[i], j, i); got[i] = j; break; }
  auto want = lows(A); need(got == want, "wrong-pivots", "%s: %zu pivots, expected %zu, or paired differently", what, got.size(), want.size());
  need(p2c.size() >= R.r, "wrong-map", "%s: the pivot map has %zu entries for %zu rows", what, p2c.size(), R.r);
  for (size_t i = 0; i < R.r; i++) { size_t w = got.count(i) ? got[i] : (size_t) bats::NO_IND; need(p2c[i] == w, "wrong-map", "%s: the pivot map sends row %zu to %zd, expected %zd", what, i, (ssize_t) p2c[i], (ssize_t) w); }
}
template <class F> M gen(size_t r, size_t c) {
  M A(r, c); int kind = sim::pick(3); size_t w = kind == 2 ? 4 : 2;
  if (c > 60 || r > 60) { // few drawn patterns, repeated: large matrices from short decision lists
    size_t np = 4 + sim::pick(12); std::vector<std::vector<std::pair<size_t, int>>> pat(np); for (auto& p : pat) { size_t k = sim::pick(w + 1); for (size_t t = 0; t < k; t++) p.push_back({sim::pick(r ? r : 1), 1 + (int) sim::pick(4)}); }
    uint64_t h = sim::pick(1u << 20); for (size_t j = 0; j < c; j++) { h = sim_mix(h, j); auto& p = pat[h % np]; size_t sh = (h >> 20) % (r ? r : 1); for (auto& e : p) if (r) A((e.first + sh) % r, j) = mk(e.second); }
  } else for (size_t j = 0; j < c && r; j++) { size_t k = sim::pick(kind == 1 ? r + 1 : w + 1); for (size_t t = 0; t < k; t++) A(sim::pick(r), j) = mk(1 + (int) sim::pick(4)); }
  return A;
}
template <class F> MT<F> to_mat(const M& A) { sim::Off o; return sparse<F>(A); }
template <class F> void full(size_t r, size_t c, bool basis) {
  use_field<F>(); M A = gen<F>(r, c); sim_desc("field=%d %zux%zu basis=%d ", PP(), r, c, basis); if (c < 12) sim_desc("%s", show(A).c_str());
  MT<F> B = to_mat<F>(A); std::vector<size_t> p2c;
  if (basis) { MT<F> U = to_mat<F>(ident(c)); { sim::Sys s; p2c = bats::reduce_matrix(B, U, bats::divide_conquer_flag()); } M R = dense<F>(B, "reduced"); check_reduced(A, R, p2c, "divide and conquer with basis"); M D = dense<F>(U, "basis"); for (size_t j = 0; j < c; j++) { need(eq(D(j, j), mk(1)), "wrong-basis", "diagonal %zu", j); } need(A * D == R, "wrong-basis", "matrix times basis is not the reduced matrix"); for (size_t j = 0; j < c; j++) for (size_t i = j + 1; i < c; i++) need(zero(D(i, j)), "wrong-basis", "basis entry (%zu,%zu) below the diagonal", i, j); }
  else { { sim::Sys s; p2c = bats::reduce_matrix(B, bats::divide_conquer_flag()); } check_reduced(A, dense<F>(B, "reduced"), p2c, "divide and conquer"); if (c >= 256) sim_probe("parallel-blocks"); if (c >= 512) sim_probe("nested-parallel-blocks"); }
}
template <class F> void partial(size_t r, size_t c, size_t block, bool basis) {
  use_field<F>(); M A = gen<F>(r, c); sim_desc("field=%d %zux%zu block=%zu basis=%d ", PP(), r, c, block, basis); if (c < 12) sim_desc("%s", show(A).c_str());
  MT<F> B = to_mat<F>(A), U = to_mat<F>(ident(c));
  { sim::Sys s; if (basis) bats::partial_reduce_parallel(B, U, block); else bats::partial_reduce_parallel(B, block); }
  M R = dense<F>(B, "pre-reduced"); check_ops(A, R, "pre-reduction");
  if (basis) { M D = dense<F>(U, "basis"); need(A * D == R, "wrong-basis", "matrix times basis is not the pre-reduced matrix"); for (size_t j = 0; j < c; j++) { need(eq(D(j, j), mk(1)), "wrong-basis", "diagonal %zu", j); for (size_t i = j + 1; i < c; i++) need(zero(D(i, j)), "wrong-basis", "basis entry (%zu,%zu) below the diagonal", i, j); } }
  // finishing with any reduction gives the same pivots
  std::vector<size_t> p2c; { sim::Sys s; p2c = sim::chance(1, 2) ? bats::reduce_matrix(B, bats::divide_conquer_flag()) : bats::reduce_matrix(B); } check_reduced(A, dense<F>(B, "reduced"), p2c, "pre-reduction then reduction");
  if (c > block) sim_probe("several-blocks");
}
SIM_SCENARIO(C04, partial, 4) {
  swarm_env(); size_t r = rnd(0, 10), c = rnd(0, 24), b = rnd(1, 12); bool u = sim::chance(1, 2);
  switch (sim::pick(3)) { case 0: partial<F2>(r, c, b, u); break; case 1: partial<F3>(r, c, b, u); break; default: partial<F5>(r, c, b, u); }
}
SIM_SCENARIO(C04, small, 2) {
  swarm_env(); size_t r = rnd(0, 12), c = rnd(0, 20); bool u = sim::chance(1, 2);
  switch (sim::pick(4)) { case 0: full<F2>(r, c, u); break; case 1: full<F3>(r, c, u); break; case 2: full<F5>(r, c, u); break; default: full<FQ>(std::min(r, (size_t) 4), c, u); }
}
SIM_SCENARIO(C04, large, 3) {
  swarm_env(); static const size_t cs[] = {255, 256, 257, 300, 511, 512, 513, 600, 1000, 1030}; size_t c = cs[sim::pick(10)], r = rnd(1, 24);
  switch (sim::pick(3)) { case 0: full<F2>(r, c, false); break; case 1: full<F3>(r, c, false); break; default: full<F5>(r, c, false); }
}
SIM_SCENARIO(C04, large_basis, 1) { swarm_env(); static const size_t cs[] = {1023, 1024, 1025, 1300}; size_t c = cs[sim::pick(4)], r = rnd(1, 6); full<F2>(r, c, true); }
SIM_SCENARIO(C04, partial_large, 1) { swarm_env(); static const size_t cs[] = {64, 200, 256, 300}; size_t c = cs[sim::pick(4)], r = rnd(1, 12), b = rnd(1, 100); if (sim::chance(1, 2)) partial<F2>(r, c, b, false); else partial<F3>(r, c, b, true); }
