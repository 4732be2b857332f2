#include "diagrams.hpp"
typedef std::vector<size_t> Cube;
template <class C> struct Cells; 
template <> struct Cells<bats::CubicalComplex> { static std::vector<std::vector<Cube>> of(const bats::CubicalComplex& X) { std::vector<std::vector<Cube>> r; for (size_t k = 0; k <= X.maxdim(); k++) r.push_back(X.get_cubes(k)); return r; }
  static std::vector<std::pair<Cube, int>> bd(const Cube& c) { std::vector<std::pair<Cube, int>> r; int s = 1; for (size_t k = 0; k < c.size(); k += 2) if (c[k] != c[k + 1]) { Cube f = c; f[k] = c[k + 1]; r.push_back({f, s}); f[k] = f[k + 1] = c[k]; r.push_back({f, -s}); s = -s; } return r; } };
template <> struct Cells<bats::SimplicialComplex> { static std::vector<std::vector<Cube>> of(const bats::SimplicialComplex& X) { return cells_of(X); }
  static std::vector<std::pair<Cube, int>> bd(const Cube& c) { std::vector<std::pair<Cube, int>> r; if (c.size() > 1) for (size_t i = 0; i < c.size(); i++) { Cube f = c; f.erase(f.begin() + i); r.push_back({f, i % 2 ? -1 : 1}); } return r; } };
template <class T> struct Ivs { std::map<Cube, std::pair<T, T>> v; void cover(const Cube& c, T b, T d) { auto it = v.find(c); if (it == v.end()) v[c] = {b, d}; else { it->second.first = std::min(it->second.first, b); it->second.second = std::max(it->second.second, d); } } };
static void cube_faces(const Cube& c, std::vector<Cube>& out) { std::set<Cube> s; std::vector<Cube> st{c}; while (!st.empty()) { Cube x = st.back(); st.pop_back(); if (!s.insert(x).second) continue; for (auto& f : Cells<bats::CubicalComplex>::bd(x)) st.push_back(f.first); } out.assign(s.begin(), s.end()); }
static void spx_faces(const Cube& c, std::vector<Cube>& out) { out.clear(); for (size_t m = 1; m < (1u << c.size()); m++) { Cube f; for (size_t i = 0; i < c.size(); i++) if (m >> i & 1) f.push_back(c[i]); out.push_back(f); } }
template <class Cpx, class T> void windows(const bats::zigzag::ZigzagFiltration<Cpx, T>& Z, const Ivs<T>& iv, T eps, T t0, T t1, int thr) {
  sim_desc("eps=%g window %g..%g ", (double) eps, (double) t0, (double) t1);
  bats::Diagram<Cpx, bats::CellularMap> D; { sim::Sys s; D = bats::zigzag_levelsets(Z, eps, t0, t1); }
  if (thr > 1) sim_probe("parallel");
  std::vector<std::pair<T, T>> w; w.push_back({t0, (T) (t0 + eps)}); for (T s = t0; s < t1 - eps; s += eps) { w.push_back({s, (T) (s + 2 * eps)}); w.push_back({(T) (s + eps), (T) (s + 2 * eps)}); }
  need(D.nnode() == w.size() && D.nedge() + 1 == w.size(), "wrong-shape", "%zu nodes and %zu edges for %zu windows", D.nnode(), D.nedge(), w.size());
  std::vector<std::vector<std::vector<Cube>>> cs; if (w.size() > 1) sim_probe("several-windows");
  for (size_t i = 0; i < w.size(); i++) {
    cs.push_back(Cells<Cpx>::of(D.node[i])); std::set<Cube> got, want; for (size_t k = 0; k < cs[i].size(); k++) for (size_t q = 0; q < cs[i][k].size(); q++) { need(got.insert(cs[i][k][q]).second, "duplicate-cell", "window %zu lists %s twice", i, show(cs[i][k][q]).c_str()); size_t ix = D.node[i].find_idx(cs[i][k][q]); need(ix == q, "wrong-lookup", "window %zu: cell %s has index %zu, lookup gives %zu", i, show(cs[i][k][q]).c_str(), q, ix); }
    for (auto& e : iv.v) if (e.second.first <= w[i].second && w[i].first <= e.second.second) want.insert(e.first);
    if (got != want) { std::string a, b; for (auto& c : want) if (!got.count(c)) a += show(c); for (auto& c : got) if (!want.count(c)) b += show(c); sim_fail("wrong-cells", "window %zu [%g,%g]: missing %s extra %s", i, (double) w[i].first, (double) w[i].second, a.c_str(), b.c_str()); }
    if (!got.empty()) sim_probe("nonempty-window"); if (got.size() < iv.v.size()) sim_probe("proper-window");
    for (size_t k = 1; k < cs[i].size(); k++) { M want_b(cs[i][k - 1].size(), cs[i][k].size()); std::map<Cube, size_t> ix; for (size_t q = 0; q < cs[i][k - 1].size(); q++) ix[cs[i][k - 1][q]] = q;
      for (size_t q = 0; q < cs[i][k].size(); q++) for (auto& f : Cells<Cpx>::bd(cs[i][k][q])) { need(ix.count(f.first), "not-closed", "window %zu: face missing", i); want_b(ix[f.first], q) = mk(f.second); }
      MT<int> B(D.node[i].boundary_csc(k)); M gb = dense<int>(B, "boundary", false); need(same_boundary(gb, want_b, k), "wrong-boundary", "window %zu dimension %zu", i, k); }
  }
  for (size_t j = 0; j + 1 < w.size(); j++) {
    size_t s = j % 2 ? j + 1 : j, t = j % 2 ? j : j + 1; need(D.edge_source(j) == s && D.edge_target(j) == t, "wrong-edge", "edge %zu goes %zu>%zu expected %zu>%zu", j, D.edge_source(j), D.edge_target(j), s, t);
    for (size_t k = 0; k < cs[s].size(); k++) { if (k > D.edata[j].maxdim()) { need(cs[s][k].empty(), "wrong-map", "edge %zu has no map in dimension %zu", j, k); continue; } size_t nt = k < cs[t].size() ? cs[t][k].size() : 0; M want(nt, cs[s][k].size()); for (size_t q = 0; q < cs[s][k].size(); q++) { auto it = std::find(cs[t][k].begin(), cs[t][k].end(), cs[s][k][q]); want(it - cs[t][k].begin(), q) = mk(1); } M got = dense<int>(D.edata[j][k], "inclusion"); need(got == want, "wrong-map", "edge %zu dimension %zu is %s expected %s", j, k, show(got).c_str(), show(want).c_str()); }
  }
}
template <class T> void pick_windows(T& eps, T& t0, T& t1, int span, T unit) { eps = unit * (T) rnd(1, 4); t0 = unit * (T) (rnd(0, 2 * span) - 2); t1 = t0 + unit * (T) rnd(0, 2 * span + 4); }
template <class T> void image_case(T unit) {
  PP() = 0; int a = rnd(1, zm(3, 6)), b = rnd(1, zm(3, 5)), c = rnd(1, zm(3, 4)), span = rnd(1, zm(6)), off = rnd(0, 8) - 4; std::vector<std::vector<std::vector<T>>> img(a, std::vector<std::vector<T>>(b, std::vector<T>(c))); Ivs<T> iv; sim_desc("image %dx%dx%d:", a, b, c);
  for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < c; k++) { T v = unit * (T) (off + rnd(0, 2 * span)); img[i][j][k] = v; sim_desc("%g,", (double) v); std::vector<Cube> f; cube_faces({(size_t) i, (size_t) i + 1, (size_t) j, (size_t) j + 1, (size_t) k, (size_t) k + 1}, f); for (auto& x : f) iv.cover(x, v, v); }
  bats::zigzag::ZigzagFiltration<bats::CubicalComplex, T> Z; { sim::Sys s; Z = bats::zigzag_toplex(img); }
  size_t tot = 0; need(Z.maxdim() == 3 && Z.complex().maxdim() == 3, "wrong-shape", "maximum dimension %zu", Z.maxdim());
  for (size_t k = 0; k <= 3; k++) { auto cs = Z.complex().get_cubes(k); need(Z.vals(k).size() == cs.size(), "wrong-shape", "%zu values for %zu cubes", Z.vals(k).size(), cs.size()); for (size_t i = 0; i < cs.size(); i++) { auto it = iv.v.find(cs[i]); need(it != iv.v.end() && Z.vals(k)[i].size() == 1, "wrong-cells", "cube %s not expected or without a single interval", show(cs[i]).c_str()); auto v = Z.vals(k)[i][0]; need(v == it->second, "wrong-interval", "cube %s has [%g,%g] expected [%g,%g]", show(cs[i]).c_str(), (double) v.first, (double) v.second, (double) it->second.first, (double) it->second.second); tot++; } }
  need(tot == iv.v.size(), "wrong-cells", "%zu cubes, expected %zu", tot, iv.v.size());
  T eps, t0, t1; pick_windows(eps, t0, t1, span, unit); t0 += unit * (T) off; t1 += unit * (T) off; windows<bats::CubicalComplex, T>(Z, iv, eps, t0, t1, sim_max_threads());
}
// arbitrary complexes: top cells carry intervals, faces the hull
template <class Cpx> void complex_case(bool cubical) {
  PP() = 0; int n = rnd(1, zm(6)), span = rnd(1, zm(6)), dim = rnd(1, 3); Ivs<double> iv; std::vector<Cube> f;
  for (int t = 0; t < n; t++) { Cube c; if (cubical) { for (int k = 0; k < dim; k++) { size_t x = rnd(0, zm(2)); c.push_back(x); c.push_back(x + sim::pick(2)); } cube_faces(c, f); } else { std::set<size_t> s; int q = rnd(1, 4); for (int i = 0; i < q; i++) s.insert(rnd(0, zm(6))); c.assign(s.begin(), s.end()); spx_faces(c, f); } double b = rnd(0, 2 * span) * 0.5, d = b + rnd(0, 6) * 0.5; sim_desc("%s[%g,%g] ", show(c).c_str(), b, d); for (auto& x : f) iv.cover(x, b, d); }
  auto cd = [&](const Cube& c) { if (!cubical) return c.size() - 1; size_t q = 0; for (size_t k = 0; k < c.size(); k += 2) q += c[k + 1] - c[k]; return q; };
  std::vector<Cube> order; for (auto& e : iv.v) order.push_back(e.first); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[sim::pick(i)]); std::stable_sort(order.begin(), order.end(), [&](const Cube& x, const Cube& y) { return cd(x) < cd(y); });
  bats::zigzag::ZigzagFiltration<Cpx, double> Z = cubical ? bats::zigzag::ZigzagFiltration<Cpx, double>((size_t) dim) : bats::zigzag::ZigzagFiltration<Cpx, double>();
  { sim::Sys s; for (auto& c : order) { auto w = iv.v[c]; Cube x = c; Z.add(w.first, w.second, x); } }
  double eps, t0, t1; pick_windows(eps, t0, t1, span, 0.5);
  int th = sim_max_threads(); { std::vector<std::vector<Cube>> cs = Cells<Cpx>::of(Z.complex()); for (size_t k = 0; k < cs.size(); k++) if (cubical && k >= Z.vals().size()) { sim_probe("low-dim"); } }
  windows<Cpx, double>(Z, iv, eps, t0, t1, th);
}
SIM_SCENARIO(C06, image, 3) { swarm_env(); int t = sim::pick(3); if (t == 0) image_case<double>(0.5); else if (t == 1) image_case<float>(0.25f); else image_case<int>(1); }
SIM_SCENARIO(C06, simplicial, 2) { swarm_env(); complex_case<bats::SimplicialComplex>(false); }
SIM_SCENARIO(C06, cubical, 2) { swarm_env(); complex_case<bats::CubicalComplex>(true); }
