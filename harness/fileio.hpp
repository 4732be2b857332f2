// Objects that can be saved and loaded, with a canonical text of their contents.
#pragma once
#include "diagrams.hpp"
#include <memory>
static std::string canon(const bats::SimplicialComplex& X) { // cells by dimension in order; trailing empty dimensions are not part of the file
  auto c = cells_of(X); while (!c.empty() && c.back().empty()) c.pop_back(); std::string s;
  for (size_t k = 0; k < c.size(); k++) { s += "d" + std::to_string(k) + ":"; for (size_t i = 0; i < c[k].size(); i++) { s += show(c[k][i]); size_t q = X.find_idx(c[k][i]); if (q != i) s += "?idx"; } }
  return s;
}
template <class F> std::string canon(const MT<F>& A) { std::string s = std::to_string(A.nrow()) + "x" + std::to_string(A.ncol()) + ";"; if (A.cols().size() != A.ncol()) s += "?cols"; for (size_t j = 0; j < A.ncol() && j < A.cols().size(); j++) { for (auto it = A[j].nzbegin(); it != A[j].nzend(); ++it) s += std::to_string(it->ind) + ":" + std::to_string((ll) toS(it->val).n) + ","; s += ";"; } return s; }
static std::string canon(const bats::CellularMap& f) { size_t n = f.maxdim() + 1; std::string s = std::to_string(n) + "maps;"; for (size_t k = 0; k < n; k++) s += canon<int>(f[k]) + "|"; return s; }
// ---- generators
static bats::SimplicialComplex gen_saved_complex(bool big) {
  bats::SimplicialComplex X; int kind = big ? 4 : (int) sim::pick(4); if (kind == 3 && sim::chance(1, 2)) return X; // empty
  size_t n = kind == 4 ? 400 + sim::pick(1600) : rnd(1, 7); std::vector<size_t> lab; size_t base = 0; int lk = sim::pick(4); for (size_t i = 0; i < n; i++) { base += lk == 0 ? 1 : lk == 1 ? 1 + sim::pick(30) : lk == 2 ? 1 + sim::pick(5) : 100000000ull * (1 + sim::pick(9)); lab.push_back(lk == 0 ? i : base); }
  if (kind == 4) { for (size_t i = 0; i < n; i++) { std::vector<size_t> s{lab[i]}; X.add(s); } for (size_t i = 0; i < n; i += 3) { std::vector<size_t> s{lab[i], lab[(i + 7) % n]}; X.add(s); } sim_desc("complex with %zu vertices; ", n); return X; }
  int m = kind == 3 ? 0 : rnd(1, 5);
  if (kind == 3) for (size_t i = 0; i < n; i++) { std::vector<size_t> s{lab[n - 1 - i]}; X.add(s); }
  for (int i = 0; i < m; i++) { std::set<size_t> t; int q = rnd(1, 4); for (int j = 0; j < q; j++) t.insert(lab[sim::pick(n)]); std::vector<size_t> s(t.begin(), t.end()); sim_desc("%s", show(s).c_str()); if (kind == 1) std::reverse(s.begin(), s.end()); X.add_recursive(s); }
  sim_desc("; "); return X;
}
template <class F> MT<F> gen_saved_matrix(bool big) {
  size_t r = big ? 20 + sim::pick(60) : rnd(0, 5), c = big ? 300 + sim::pick(900) : rnd(0, 5); uint64_t h = sim::pick(1u << 20); int den = 1 + sim::pick(4); bool wide = sim::chance(1, 4); MT<F> A(r, c); std::vector<VT<F>> cs;
  for (size_t j = 0; j < c; j++) { VT<F> v; for (size_t i = 0; i < r; i++) { h = sim_mix(h, i); if ((int) (h % 4) >= den) continue; int x = (int) ((h >> 20) % (wide ? 2000000000u : 7u)) - (wide ? 1000000000 : 3); F y(x); if (y == F(0)) continue; v.emplace_back(i, y); } cs.push_back(v); }
  sim_desc("%zux%zu matrix; ", r, c); return MT<F>(r, c, cs);
}
static bats::CellularMap gen_saved_map(bool big) {
  int kind = big ? 1 : (int) sim::pick(4);
  if (kind == 0) return bats::CellularMap();
  if (kind == 2) { auto X = gen_saved_complex(false); return bats::CellularMap::identity(X); }
  size_t d = rnd(0, 3); bats::CellularMap f(d); for (size_t k = 0; k <= d; k++) f[k] = gen_saved_matrix<int>(big && k == 0); sim_desc("map with %zu matrices; ", d + 1); return f;
}
// ---- one object that can be saved
struct Saved {
  const char* type; std::string text; std::function<void(const std::string&)> save; std::function<std::string(const std::string&)> load; std::function<std::string()> now;
};
template <class T> Saved saved(const char* type, const T& x, std::function<T(std::string)> ld) {
  auto p = std::make_shared<T>(x); Saved s; s.type = type; s.text = canon(*p); s.now = [p] { return canon(*p); };
  s.save = [p](const std::string& f) { std::string n = f; sim::Sys y; p->save(n); };
  s.load = [ld](const std::string& f) { sim::Sys y; T z = ld(f); sim::Off o; return canon(z); };
  return s;
}
template <class F> Saved saved_matrix(const char* t, bool big) { return saved<MT<F>>(t, gen_saved_matrix<F>(big), [](std::string f) { return MT<F>(f); }); }
static Saved gen_saved() {
  bool big = sim::pick(12) == 11; int k = sim::pick(6); if (big) sim_probe("longer-than-a-buffer");
  switch (k) {
    case 0: return saved<bats::SimplicialComplex>("simplicial complex", gen_saved_complex(big), [](std::string f) { return bats::SimplicialComplex(std::move(f)); });
    case 1: return saved_matrix<int>("integer matrix", big); case 2: return saved_matrix<F2>("F2 matrix", big); case 3: return saved_matrix<F5>("F5 matrix", big);
    case 4: return saved_matrix<F3>("F3 matrix", big);
    default: return saved<bats::CellularMap>("cellular map", gen_saved_map(big), [](std::string f) { return bats::CellularMap(f); });
  }
}
static void legal_io() { // behaviours any file system may show
  sim_io_reset(); int k = sim_fpick(4); if (k & 1) { sim_io.p_short_read = sim_io.p_short_write = 40 + sim_fpick(216); sim_probe("short-transfers"); } if (k & 2) { sim_io.p_eintr = 20 + sim_fpick(160); sim_probe("interrupted-calls"); }
}
static void old_file(const char* path) { // what the path held before
  int k = sim_fpick(4); if (!k) return; std::string s; size_t n = k == 1 ? 1 + sim_fpick(40) : 200 + sim_fpick(3000); for (size_t i = 0; i < n; i++) s += "0123456789,:\nColumnMatrix\n0,1,2,\n"[sim_fpick(33)]; sim_fs_put(path, s.data(), s.size()); sim_probe("older-file-at-path");
}
