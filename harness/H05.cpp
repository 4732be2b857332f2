#include "filt.hpp"
// Histories of additions and queries on cubical and cell complexes against a set of cells.
using namespace flt;
static void quiet() { std::cout.setstate(std::ios::failbit); }
struct Model {
  size_t d; std::vector<std::vector<Cube>> c; std::map<Cube, size_t> ix; explicit Model(size_t d_ = 0) : d(d_), c(d_ + 1) {}
  bool has(const Cube& s) const { return ix.count(s); } size_t n(size_t k) const { return k < c.size() ? c[k].size() : 0; }
  size_t put(const Cube& s) { size_t k = cube_dim(s); c[k].push_back(s); return ix[s] = c[k].size() - 1; }
  bool faces(const Cube& s) const { std::vector<std::pair<Cube, int>> f; cube_faces(s, f); for (auto& x : f) if (!has(x.first)) return false; return true; }
};
static Spx key(const Cube& c) { return c; }
static M bd_of(const Model& m, size_t k) { M D(m.n(k - 1), m.n(k)); for (size_t i = 0; i < m.n(k); i++) { std::vector<std::pair<Cube, int>> f; cube_faces(m.c[k][i], f); for (auto& x : f) D(m.ix.at(x.first), i) = mk(x.second); } return D; }
static void check_model(const bats::CubicalComplex& X, const Model& m, const std::vector<Cube>& absent, const char* what) {
  sim::Off o; need(X.maxdim() == m.d, "wrong-maxdim", "%s: maxdim is %zu instead of %zu", what, X.maxdim(), m.d); int p = PP(); PP() = 0; std::vector<Cube> all; size_t tot = 0;
  for (size_t k = 0; k <= m.d; k++) {
    need(X.ncells(k) == m.n(k), "cell-count", "%s: ncells(%zu) is %zu instead of %zu", what, k, X.ncells(k), m.n(k)); tot += m.n(k); auto l = X.get_cubes(k); need(l == m.c[k], "wrong-order", "%s: the list of cubes of dimension %zu differs (%zu listed, %zu expected)", what, k, l.size(), m.n(k));
    for (size_t i = 0; i < m.n(k); i++) { const Cube& s = m.c[k][i]; all.push_back(s); auto t = X.get_cube(k, i); need(t == s, "wrong-cell", "%s: get_cube(%zu,%zu) is %s instead of %s", what, k, i, show(key(t)).c_str(), show(key(s)).c_str()); t.assign(3, 7); X.get_cell(k, i, t); need(t == s && X.get_cell(k, i) == s, "wrong-cell", "%s: get_cell(%zu,%zu) differs", what, k, i); size_t j = X.find_idx(s); need(j == i, "wrong-lookup", "%s: cube %s has index %zu but lookup gives %zu", what, show(key(s)).c_str(), i, j);
      if (k) { std::multiset<size_t> w, g(X.faces_begin(k, i), X.faces_end(k, i)); std::vector<std::pair<Cube, int>> f; cube_faces(s, f); for (auto& x : f) w.insert(m.ix.at(x.first)); need(w == g, "wrong-faces", "%s: faces of cube (%zu,%zu) are wrong", what, k, i); } }
    if (k) { M want = bd_of(m, k), got = dense<int>(MT<int>(X.boundary_csc(k)), what); need(same_boundary(got, want, k, 2), "wrong-boundary", "%s: boundary matrix of dimension %zu is %s, expected %s", what, k, orc::show(got).c_str(), orc::show(want).c_str()); }
  }
  need(X.ncells() == tot && X.ncells(m.d + 1) == 0, "cell-count", "%s: ncells() is %zu instead of %zu", what, X.ncells(), tot); need(X.get_cubes() == all, "wrong-order", "%s: the list of all cubes differs", what); PP() = p;
  for (auto& s : absent) if (!m.has(s)) { size_t j = X.find_idx(s); need(j == bats::NO_IND, "wrong-lookup", "%s: %s is absent but lookup gives %zu", what, show(key(s)).c_str(), j); }
}
static Cube draw(size_t d, int side, bool big) { Cube c; for (size_t k = 0; k < d; k++) { size_t a = sim::pick(side); if (big && a % 2) a += a % 3 ? 65534 : (1ull << 33); c.push_back(a); c.push_back(a + (sim::chance(1, 2) ? 1 : 0)); } return c; }
static std::set<Cube> closure(const Cube& s) { std::set<Cube> r; add_cube(r, s); return r; }
template <class Cx> void absorb(const Cx& X, Model& m, const std::set<Cube>& fresh, const char* what) {
  sim::Off o; std::set<Cube> got; for (size_t k = 0; k <= m.d; k++) for (size_t i = m.n(k); i < X.ncells(k); i++) { Cube s = X.get_cube(k, i); need(fresh.count(s) && cube_dim(s) == k && got.insert(s).second, "wrong-cell", "%s: cell %s was added", what, show(key(s)).c_str()); m.put(s); } need(got.size() == fresh.size(), "cell-count", "%s: %zu cells added instead of %zu", what, got.size(), fresh.size());
}
static void same_cells(const Model& m, const std::vector<cell_ind>& ci, const std::set<Cube>& fresh, const Cube& s, const char* what) {
  std::set<Cube> g; for (auto& c : ci) { need(c.dim < m.c.size() && c.ind < m.n(c.dim), "wrong-return", "%s: returned cell (%zu,%zu) does not exist", what, c.dim, c.ind); need(g.insert(m.c[c.dim][c.ind]).second, "wrong-return", "%s: a cell is returned twice", what); }
  if (fresh.empty()) { need(ci.size() == 1 && g.count(s), "wrong-return", "%s: the cube is present but %zu cells are returned", what, ci.size()); return; } need(g == fresh, "wrong-return", "%s: %zu cells are returned, %zu were added", what, g.size(), fresh.size());
}
template <class Fn> void refused(Fn fn, const char* what) { bool thrown = false; { sim::Sys y; try { fn(); } catch (std::runtime_error&) { thrown = true; } } need(thrown, "accepted-invalid", "%s was accepted", what); sim_probe("refused"); }
SIM_SCENARIO(H05, cubical, 4) {
  swarm_env(); quiet(); size_t d = rnd(1, 4); int side = rnd(1, d > 3 ? 2 : zm(4)); bool big = sim::chance(1, 5); Model m(d); bats::CubicalComplex X; std::vector<Cube> absent; int ctor = sim::pick(4); { sim::Sys s; switch (ctor) { case 0: X = bats::CubicalComplex(d); break; case 1: X = bats::CubicalComplex(5, d); break; case 2: X.set_dimension(d); break; default: X = bats::CubicalComplex((size_t) 1 + sim_pick(4)); X.set_dimension(d); } }
  { sim::Sys s; check_model(X, m, {}, "empty complex"); } int st = rnd(1, zm(12));
  for (int i = 0; i < st; i++) {
    Cube s = draw(d, side, big); if (sim::chance(1, 4)) { auto& k = m.c[sim::pick((uint32_t) d + 1)]; if (k.size()) s = k[sim::pick((uint32_t) k.size())]; } absent.push_back(s); { Cube t = s; std::reverse(t.begin(), t.end()); absent.push_back(t); t = s; t.pop_back(); t.pop_back(); if (!t.empty()) absent.push_back(t); t = s; t[0]++; t[1]++; absent.push_back(t); t.push_back(0); t.push_back(1); absent.push_back(t); }
    std::string what = "step " + std::to_string(i); bool had = m.has(s); std::set<Cube> all = closure(s), fresh; for (auto& x : all) if (!m.has(x)) fresh.insert(x); int op = sim::pick(10);
    if (op < 4) { bool ok = had || m.faces(s); what += " add " + show(key(s)); sim_desc("%s; ", what.c_str()); size_t want = had ? m.ix[s] : ok ? m.n(cube_dim(s)) : bats::NO_IND; cell_ind r; { Cube a = s; sim::Sys y; r = op & 1 ? X.add(a) : X.add(Cube(a)); } need(r.dim == cube_dim(s) && r.ind == want, "wrong-return", "%s returned (%zu,%zu) instead of (%zu,%zu)", what.c_str(), r.dim, r.ind, cube_dim(s), want); if (ok && !had) m.put(s); if (!ok) sim_probe("missing-face"); if (had) sim_probe("repeated"); }
    else if (op < 7) { what += " add_recursive " + show(key(s)); sim_desc("%s; ", what.c_str()); std::vector<cell_ind> r; { sim::Sys y; r = X.add_recursive(s); } absorb(X, m, fresh, what.c_str()); same_cells(m, r, fresh, s, what.c_str()); need(!r.empty() && m.c[r.back().dim][r.back().ind] == s, "wrong-return", "%s: the last returned cell is not the cube itself", what.c_str()); }
    else if (op == 7) { size_t k = sim::pick((uint32_t) d + 1); what += " skeleton " + std::to_string(k); sim_desc("%s; ", what.c_str()); bats::CubicalComplex Z; { sim::Sys y; Z = X.skeleton(k); } Model z(d); for (size_t q = 0; q <= k; q++) for (auto& c : m.c[q]) z.put(c); { sim::Sys y; check_model(Z, z, m.c[d], "skeleton"); } refused([&] { X.skeleton(d + 1); }, "a skeleton above the dimension"); if (sim::chance(1, 4)) { X = Z; m = z; } sim_probe("skeleton"); }
    else if (op == 8) { Cube t = s; switch (sim::pick(4)) { case 0: t.push_back(1); break; case 1: t.pop_back(); t.pop_back(); break; case 2: t[1] = t[0] + 2; break; default: t[0] = t[1] + 1; } what += " invalid " + show(key(t)); sim_desc("%s; ", what.c_str()); refused([&] { Cube a = t; X.add(a); }, what.c_str()); refused([&] { X.add_recursive(t); }, what.c_str()); if (X.ncells()) refused([&] { X.set_dimension(d + 1); }, "a change of dimension of a complex with cubes"); }
    else { sim::Sys q; bats::CubicalComplex Z(X); X = Z; }
    sim::Sys q; check_model(X, m, absent, what.c_str());
  }
  if (sim::chance(1, 3)) { // inclusion of a subcomplex
    Model y(d); for (auto& k : m.c) for (auto& c : k) if (y.faces(c) && sim::chance(2, 3)) y.put(c); bats::CubicalComplex Y(d); for (auto& k : y.c) for (auto c : k) Y.add(c); bats::CellularMap f; { sim::Sys q; f = sim::chance(1, 2) ? bats::CubicalMap(Y, X) : bats::CellularMap(Y, X); } PP() = 0; need(f.maxdim() == d, "wrong-map", "the inclusion has %zu dimensions", f.maxdim()); for (size_t k = 0; k <= d; k++) { M g = dense<int>(f[k], "inclusion"), w(m.n(k), y.n(k)); for (size_t i = 0; i < y.n(k); i++) w(m.ix[y.c[k][i]], i) = mk(1); need(g == w, "wrong-map", "the inclusion of dimension %zu is %s, expected %s", k, orc::show(g).c_str(), orc::show(w).c_str()); } sim_probe("inclusion");
    if (y.ix.size() < m.ix.size()) { bool thrown = false; { sim::Sys q; try { bats::CubicalMap(X, Y); } catch (std::out_of_range&) { thrown = true; } } need(thrown, "wrong-map", "an inclusion into a smaller complex was made"); }
  }
  if (sim::chance(1, 3)) { use_field<F3>(); M R; size_t b0 = 0; bats::ReducedChainComplex<MT<F3>> C; { sim::Sys q; C = bats::ReducedChainComplex<MT<F3>>(bats::ChainComplex<MT<F3>>(X)); } std::vector<size_t> rk(d + 2); for (size_t k = 1; k <= d; k++) rk[k] = orc::rank(bd_of(m, k)); for (size_t k = 0; k <= d; k++) { size_t w = m.n(k) - rk[k] - rk[k + 1]; need(C.hdim(k) == w, "wrong-homology", "dimension %zu of the homology is %zu instead of %zu", k, C.hdim(k), w); } sim_probe("homology"); }
}
// cells of one or two cubes added one at a time in random order: every refusal for a face missing somewhere is followed by further additions
template <class Add, class Check> void fill_cubes(Model& m, std::vector<Cube>& pool, int tries, Add add, Check check) {
  for (int i = 0; i < tries && !pool.empty(); i++) {
    size_t q = sim::pick((uint32_t) pool.size()); if (sim::chance(2, 3)) for (size_t r = 0; r < pool.size(); r++) { size_t z = (q + r) % pool.size(); if (m.faces(pool[z])) { q = z; break; } } Cube s = pool[q]; bool ok = m.faces(s); sim_desc("%s%s; ", show(key(s)).c_str(), ok ? "" : " refused"); cell_ind r = add(s); size_t want = ok ? m.n(cube_dim(s)) : bats::NO_IND; need(r.dim == cube_dim(s) && r.ind == want, "wrong-return", "add %s returned (%zu,%zu) instead of (%zu,%zu)", show(key(s)).c_str(), r.dim, r.ind, cube_dim(s), want);
    if (ok) { m.put(s); pool.erase(pool.begin() + q); } else sim_probe("missing-face"); check(s);
  }
}
SIM_SCENARIO(H05, fill, 3) {
  swarm_env(); quiet(); size_t d = rnd(2, 4), free_ = 0; std::set<Cube> all; int blocks = 1 + sim::pick(2); Cube base; for (size_t k = 0; k < d; k++) { size_t a = sim::pick(2); bool e = free_ < 2 || (free_ < 3 && sim::chance(1, 2)); free_ += e; base.push_back(a); base.push_back(a + e); } if (sim::chance(1, 2)) { size_t k = sim::pick((uint32_t) d); std::rotate(base.begin(), base.begin() + 2 * k, base.end()); } add_cube(all, base); if (blocks > 1) { size_t k = sim::pick((uint32_t) d); Cube t = base; t[2 * k]++; t[2 * k + 1]++; add_cube(all, t); }
  std::vector<Cube> pool(all.begin(), all.end()); Model m(d); int tries = rnd((int) pool.size() / 2, (int) pool.size() * 2);
  if (sim::chance(1, 2)) { bats::CubicalComplex X(d); fill_cubes(m, pool, tries, [&](Cube s) { sim::Sys y; return X.add(s); }, [&](const Cube&) { if (sim::chance(1, 3)) { sim::Sys y; check_model(X, m, pool, "filling"); } }); sim::Sys y; check_model(X, m, pool, "filled"); }
  else { bats::Filtration<double, bats::CubicalComplex> X; { sim::Sys y; X = bats::Filtration<double, bats::CubicalComplex>(d); } std::map<Cube, double> v; auto check = [&](const char* what) { { sim::Sys y; check_model(X.complex(), m, pool, what); } for (size_t k = 0; k <= d; k++) { auto& vs = X.vals(k); need(vs.size() == m.n(k), "wrong-values", "%s: %zu values in dimension %zu for %zu cells", what, vs.size(), k, m.n(k)); for (size_t j = 0; j < vs.size(); j++) need(vs[j] == v.at(m.c[k][j]), "wrong-values", "%s: value of %s is %g instead of %g", what, show(key(m.c[k][j])).c_str(), vs[j], v.at(m.c[k][j])); } };
    fill_cubes(m, pool, tries, [&](Cube s) { double t = (double) sim::pick(6); v[s] = t; sim::Sys y; return X.add(t, s); }, [&](const Cube&) { if (sim::chance(1, 3)) check("filling"); }); check("filled"); }
  if (pool.empty()) sim_probe("complete");
}
SIM_SCENARIO(H05, grid, 1) {
  swarm_env(); quiet(); size_t n = 2 + sim::pick(ZOOM() > 1 ? 5 : 3); bats::CubicalComplex X; { sim::Sys s; X = bats::CubicalComplex::generate_cube(n); } std::set<Cube> S; for (size_t i = 0; i + 1 < n; i++) for (size_t j = 0; j + 1 < n; j++) for (size_t k = 0; k + 1 < n; k++) add_cube(S, {i, i + 1, j, j + 1, k, k + 1}); Model m(3); absorb(X, m, S, "generate_cube"); { sim::Sys s; check_model(X, m, {{0, 0, 0, 0, n, n}, {n - 1, n, 0, 0, 0, 0}}, "generate_cube"); } for (size_t k = 0; k < 2; k++) refused([&] { bats::CubicalComplex::generate_cube(k); }, "a cube without edges");
  int st = rnd(0, 4); for (int i = 0; i < st; i++) { Cube s = draw(3, 4, false); std::set<Cube> fresh; for (auto& x : closure(s)) if (!m.has(x)) fresh.insert(x); sim_desc("add %s; ", show(key(s)).c_str()); { sim::Sys y; X.add_recursive(s); } absorb(X, m, fresh, "added to the grid"); sim::Sys y; check_model(X, m, {}, "extended grid"); }
}
// filtrations of cubical complexes
SIM_SCENARIO(H05, filtration, 3) {
  swarm_env(); quiet(); size_t d = rnd(1, 3); int side = rnd(1, zm(3)), st = rnd(1, zm(10)); Model m(d); std::map<Cube, double> v; std::vector<Cube> absent; typedef bats::Filtration<double, bats::CubicalComplex> FL; FL Fl; { sim::Sys s; Fl = FL(d); }
  auto val = [&]() { int x = (int) sim::pick(7) - 2; return x == 4 ? INFINITY : (double) x; };
  for (int i = 0; i < st; i++) {
    Cube s = draw(d, side, false); if (sim::chance(1, 4)) { auto& k = m.c[sim::pick((uint32_t) d + 1)]; if (k.size()) s = k[sim::pick((uint32_t) k.size())]; } absent.push_back(s); double t = val(); bool had = m.has(s); std::string what; int op = sim::pick(6);
    if (op < 2) { bool ok = had || m.faces(s); what = "add " + show(key(s)); sim_desc("%s@%g; ", what.c_str(), t); cell_ind r; { Cube a = s; sim::Sys y; r = Fl.add(t, a); } size_t want = had ? m.ix[s] : ok ? m.n(cube_dim(s)) : bats::NO_IND; need(r.dim == cube_dim(s) && r.ind == want, "wrong-return", "%s returned (%zu,%zu)", what.c_str(), r.dim, r.ind); if (ok) { if (!had) m.put(s); v[s] = t; } else sim_probe("missing-face"); }
    else if (op < 5) { what = "add_recursive " + show(key(s)); sim_desc("%s@%g; ", what.c_str(), t); std::set<Cube> fresh; for (auto& x : closure(s)) if (!m.has(x)) fresh.insert(x); std::vector<cell_ind> r; { sim::Sys y; r = Fl.add_recursive(t, s); } absorb(Fl.complex(), m, fresh, what.c_str()); same_cells(m, r, fresh, s, what.c_str()); for (auto& x : fresh) v[x] = t; if (had && Fl.vals()[cube_dim(s)][m.ix[s]] == t) v[s] = t; }
    else { what = "update"; sim_desc("update; "); std::vector<std::vector<double>> w(d + 1); for (size_t k = 0; k <= d; k++) for (auto& c : m.c[k]) w[k].push_back(v[c] = val()); w.resize(Fl.vals().size()); sim::Sys y; Fl.update_filtration(w); }
    { sim::Sys y; check_model(Fl.complex(), m, absent, what.c_str()); } auto sp = Fl.sortperm(); for (size_t k = 0; k <= Fl.maxdim(); k++) { auto& vs = Fl.vals(k); need(vs.size() == m.n(k) && Fl.ncells(k) == m.n(k), "wrong-values", "%s: %zu values in dimension %zu for %zu cells", what.c_str(), vs.size(), k, m.n(k)); for (size_t j = 0; j < vs.size(); j++) need(vs[j] == v.at(m.c[k][j]), "wrong-values", "%s: value of %s is %g instead of %g", what.c_str(), show(key(m.c[k][j])).c_str(), vs[j], v.at(m.c[k][j])); std::set<size_t> seen; need(sp[k].size() == vs.size(), "wrong-order", "%s: order of another length", what.c_str()); for (size_t j = 0; j < vs.size(); j++) need(sp[k][j] < vs.size() && seen.insert(sp[k][j]).second && (!j || vs[sp[k][j - 1]] <= vs[sp[k][j]]), "wrong-order", "%s: order of dimension %zu does not sort the values", what.c_str(), k); }
    if (sim::chance(1, 2) && m.n(0)) { double a = val(); Model z(d); bool closed = true; for (auto& k : m.c) for (auto& c : k) if (v[c] <= a) { closed &= z.faces(c); z.put(c); } if (closed) { sim_desc("sublevelset %g; ", a); bats::CubicalComplex Z; { sim::Sys q; Z = Fl.sublevelset(a); check_model(Z, z, absent, "sublevel set"); } sim_probe("sublevelset"); } }
  }
}
// ---- cell complexes: the cells and boundaries given, in any order of their entries, entries possibly repeated
SIM_SCENARIO(H05, cells, 3) {
  swarm_env(); quiet(); int dmax = rnd(0, 3); RF f = gen_cells(std::max(dmax, 1), rnd(1, 5)); dmax = f.maxdim(); bats::CellComplex X; std::vector<std::vector<std::map<size_t, int>>> w(dmax + 1); size_t nv = 0; { int c = sim::pick(2); sim::Sys s; if (c) X = bats::CellComplex((size_t) dmax); }
  auto check = [&](const bats::CellComplex& Z, const char* what) {
    sim::Off o; int p = PP(); PP() = 0; size_t tot = nv; for (size_t k = 1; k <= (size_t) dmax; k++) { tot += w[k].size(); need(Z.ncells(k) == w[k].size(), "cell-count", "%s: ncells(%zu) is %zu instead of %zu", what, k, Z.ncells(k), w[k].size()); if (k > Z.maxdim()) { need(w[k].empty(), "wrong-maxdim", "%s: maxdim is %zu", what, Z.maxdim()); continue; } size_t rows = k == 1 ? nv : w[k - 1].size(); M want(rows, w[k].size()); for (size_t i = 0; i < w[k].size(); i++) for (auto& e : w[k][i]) want(e.first, i) = mk(e.second); bats::CellComplex Y(Z); M a = dense<int>(MT<int>(Z.boundary_csc(k)), what), b = dense<int>(Y.boundary(k), what); need(a == want && b == want, "wrong-boundary", "%s: boundary matrix of dimension %zu is %s, expected %s", what, k, orc::show(a).c_str(), orc::show(want).c_str()); }
    need(Z.ncells(0) == nv && Z.ncells() == tot, "cell-count", "%s: %zu vertices and %zu cells instead of %zu and %zu", what, Z.ncells(0), Z.ncells(), nv, tot); PP() = p;
  };
  size_t n0 = f.n(0); while (nv < n0) { if (sim::chance(1, 3)) { size_t q = sim::pick((uint32_t) (n0 - nv) + 1), r; { sim::Sys s; r = X.add_vertices(q); } nv += q; need(r == nv, "wrong-return", "add_vertices returned %zu instead of %zu", r, nv); } else { size_t r; bool viaadd = sim::chance(1, 4); { sim::Sys s; r = viaadd ? X.add({}, {}, 0) : X.add_vertex(); } need(r == nv, "wrong-return", "add_vertex returned %zu instead of %zu", r, nv); nv++; } }
  std::vector<size_t> nxt(dmax + 1, 0); // dimensions may be filled alternately
  for (size_t k = 1; k <= (size_t) dmax; k++) for (auto& b : f.bd[k]) {
    std::vector<size_t> i; std::vector<int> c; std::map<size_t, int> want; for (auto& e : b) { want[e.first] = e.second; if (sim::chance(1, 4)) { int part = (int) sim::pick(5) - 2; i.push_back(e.first); c.push_back(part); i.push_back(e.first); c.push_back(e.second - part); sim_probe("repeated-entry"); } else { i.push_back(e.first); c.push_back(e.second); } } if (f.n(k - 1) && sim::chance(1, 5)) { size_t z = sim::pick((uint32_t) f.n(k - 1)); i.push_back(z); c.push_back(1); i.push_back(z); c.push_back(-1); sim_probe("cancelling-entry"); } for (size_t q = i.size(); q > 1; q--) { size_t r = sim::pick((uint32_t) q); std::swap(i[q - 1], i[r]); std::swap(c[q - 1], c[r]); }
    sim_desc("dim %zu:", k); for (size_t q = 0; q < i.size(); q++) sim_desc(" %d*%zu", c[q], i[q]); sim_desc("; "); size_t r; { sim::Sys s; r = X.add(i, c, k); } need(r == w[k].size(), "wrong-return", "add returned %zu instead of %zu", r, w[k].size()); w[k].push_back(want); sim::Sys s; check(X, "cell complex"); if (sim::chance(1, 6)) { bats::CellComplex Z(X); X = Z; }
  }
  { use_field<F5>(); bats::ReducedChainComplex<MT<F5>> C; { sim::Sys q; C = bats::ReducedChainComplex<MT<F5>>(bats::ChainComplex<MT<F5>>(X)); } std::vector<size_t> rk(dmax + 2); for (size_t k = 1; k <= (size_t) dmax; k++) { M D(f.n(k - 1), f.n(k)); for (size_t i = 0; i < w[k].size(); i++) for (auto& e : w[k][i]) D(e.first, i) = mk(e.second); rk[k] = orc::rank(D); } for (size_t k = 0; k <= X.maxdim(); k++) { size_t h = f.n(k) - rk[k] - rk[k + 1]; need(C.hdim(k) == h, "wrong-homology", "dimension %zu of the homology is %zu instead of %zu", k, C.hdim(k), h); } }
}
// ---- maps of complexes: inclusions, identities, and maps assembled dimension by dimension
SIM_SCENARIO(H05, maps, 2) {
  swarm_env(); quiet(); int nv = rnd(1, 6), kind = sim::pick(3); PP() = 0;
  if (kind == 0) { bats::CellularMap f; size_t top = sim::pick(4); std::vector<M> want(top + 1); std::vector<int> order; for (size_t k = 0; k <= top; k++) order.push_back((int) k); if (sim::chance(1, 2)) std::reverse(order.begin(), order.end()); if (sim::chance(1, 3)) f = bats::CellularMap(top); for (int k : order) { M D(rnd(0, 4), rnd(0, 4)); for (auto& x : D.a) x = mk((ll) sim::pick(3) - 1); want[k] = D; auto A = sparse<int>(D); sim::Sys s; f[k] = A; } const bats::CellularMap& g = f; need(g.maxdim() == top, "wrong-map", "the map has %zu dimensions instead of %zu", g.maxdim() + 1, top + 1); for (size_t k = 0; k <= top; k++) need(dense<int>(g[k], "map") == want[k], "wrong-map", "dimension %zu of the map is %s, expected %s", k, orc::show(dense<int>(g[k], "map")).c_str(), orc::show(want[k]).c_str()); sim_desc("assembled up to %zu", top); return; }
  auto gen = [&](int facets, int dm) { RF f = gen_simplicial(nv, facets, dm); return f; }; RF y = gen(rnd(1, 5), rnd(0, 3)); SpxSet sub; std::vector<std::vector<Spx>> c(y.spx.size() + sim::pick(2)); for (auto& k : y.spx) for (auto& s : k) { bool ok = sim::chance(3, 4); for (size_t i = 0; s.size() > 1 && i < s.size(); i++) { Spx t = s; t.erase(t.begin() + i); ok &= sub.count(t) > 0; } if (ok) { sub.insert(s); c[s.size() - 1].push_back(s); } }
  for (auto& k : c) for (size_t i = k.size(); i > 1; i--) std::swap(k[i - 1], k[sim::pick((uint32_t) i)]); auto Y = simplicial(y); bats::SimplicialComplex X((size_t) zm(nv), c.size() - 1); for (auto& k : c) for (auto s : k) X.add(s); sim_desc("%zu cells into %s", sub.size(), show(y).c_str());
  bats::CellularMap f; if (kind == 1) { sim::Sys s; f = sim::chance(1, 2) ? bats::SimplicialMap(X, Y) : bats::CellularMap(X, Y); } else { std::vector<size_t> v; for (int i = 0; i < zm(nv); i++) v.push_back(i); sim::Sys s; f = bats::SimplicialMap(X, Y, v); } need(f.maxdim() == X.maxdim(), "wrong-map", "the inclusion has %zu dimensions", f.maxdim() + 1);
  for (size_t k = 0; k < c.size(); k++) { M g = dense<int>(f[k], "inclusion"), w(y.n(k), c[k].size()); for (size_t i = 0; i < c[k].size(); i++) w(std::find(y.spx[k].begin(), y.spx[k].end(), c[k][i]) - y.spx[k].begin(), i) = mk(1); need(g == w, "wrong-map", "the inclusion of dimension %zu is %s, expected %s", k, orc::show(g).c_str(), orc::show(w).c_str()); }
  { bats::CellularMap I; { sim::Sys s; I = bats::CellularMap::identity(Y); } for (size_t k = 0; k <= Y.maxdim(); k++) need(dense<int>(I[k], "identity") == ident(y.n(k)), "wrong-map", "the identity of dimension %zu is wrong", k); }
  if (sub.size() < set_of(y.spx).size()) { bool thrown = false; { sim::Sys q; try { bats::SimplicialMap(Y, X); } catch (std::out_of_range&) { thrown = true; } } need(thrown, "wrong-map", "an inclusion into a smaller complex was made"); }
}
