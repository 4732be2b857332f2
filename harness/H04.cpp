#include "filt.hpp"
// Histories of additions, unions and queries on simplicial complexes and filtrations against a set of cells.
using namespace flt;
static void quiet() { std::cout.setstate(std::ios::failbit); }
struct Model {
  std::vector<std::vector<Spx>> c; std::map<Spx, size_t> ix;
  bool has(const Spx& s) const { return ix.count(s); }
  size_t n(size_t k) const { return k < c.size() ? c[k].size() : 0; }
  size_t put(const Spx& s) { size_t k = s.size() - 1; if (c.size() <= k) c.resize(k + 1); c[k].push_back(s); return ix[s] = c[k].size() - 1; }
  bool faces(const Spx& s) const { for (size_t i = 0; s.size() > 1 && i < s.size(); i++) { Spx t = s; t.erase(t.begin() + i); if (!has(t)) return false; } return true; }
  SpxSet set() const { SpxSet r; for (auto& x : ix) r.insert(x.first); return r; }
};
static void closure(const Spx& s, SpxSet& out) { if (!out.insert(s).second) return; for (size_t i = 0; s.size() > 1 && i < s.size(); i++) { Spx t = s; t.erase(t.begin() + i); closure(t, out); } }
// signed sum of faces over the indices of the model
static std::map<size_t, int> bd_of(const Model& m, const Spx& s) { std::map<size_t, int> b; for (size_t i = 0; s.size() > 1 && i < s.size(); i++) { Spx t = s; t.erase(t.begin() + i); b[m.ix.at(t)] += i % 2 ? -1 : 1; } for (auto it = b.begin(); it != b.end();) if (!it->second) it = b.erase(it); else ++it; return b; }
template <class V> Spx wide(const V& v) { return Spx(v.begin(), v.end()); }
template <class Cx, class = void> struct Faces { static void go(const Cx&, size_t, size_t, std::vector<size_t>, const char*) {} };
template <class Cx> struct Faces<Cx, decltype((void) std::declval<const Cx&>().faces_begin(1, 0))> { static void go(const Cx& X, size_t k, size_t i, std::vector<size_t> in, const char* what) { size_t n = 0; std::vector<size_t> a, b; for (auto f = X.faces_begin(k, i); f != X.faces_end(k, i) && n <= in.size(); ++f, ++n) a.push_back(*f); for (auto f = X.faces_begin(cell_ind(k, i)); f != X.faces_end(cell_ind(k, i)) && b.size() <= in.size(); ++f) b.push_back(*f); need(a == b, "wrong-faces", "%s: the faces of (%zu,%zu) depend on how they are asked for", what, k, i); std::sort(a.begin(), a.end()); std::sort(in.begin(), in.end()); need(a == in, "wrong-faces", "%s: iterating over the faces of (%zu,%zu) gives %s instead of %s", what, k, i, show(a).c_str(), show(in).c_str()); } };
template <class Cx> void check_model(const Cx& X, const Model& m, const std::vector<Spx>& absent, int family, const char* what) {
  sim::Off o; size_t top = X.maxdim(), tot = 0; need(top + 1 >= m.c.size(), "wrong-maxdim", "%s: maxdim is %zu but there are %zu-simplices", what, top, m.c.size() - 1); int p = PP(); PP() = 0; std::vector<Spx> all, got_all;
  for (size_t k = 0; k <= top; k++) {
    need(X.ncells(k) == m.n(k), "cell-count", "%s: ncells(%zu) is %zu instead of %zu", what, k, X.ncells(k), m.n(k)); tot += m.n(k); auto l = X.get_simplices(k); need(l.size() == m.n(k), "cell-count", "%s: %zu simplices listed in dimension %zu instead of %zu", what, l.size(), k, m.n(k));
    for (size_t i = 0; i < m.n(k); i++) { const Spx& s = m.c[k][i]; all.push_back(s); need(wide(l[i]) == s, "wrong-order", "%s: simplex %zu of dimension %zu is listed as %s instead of %s", what, i, k, show(wide(l[i])).c_str(), show(s).c_str()); auto t = X.get_simplex(k, i); need(wide(t) == s, "wrong-cell", "%s: get_simplex(%zu,%zu) is %s instead of %s", what, k, i, show(wide(t)).c_str(), show(s).c_str()); t.assign(5, 1); X.get_cell(k, i, t); need(wide(t) == s, "wrong-cell", "%s: get_cell(%zu,%zu) is %s instead of %s", what, k, i, show(wide(t)).c_str(), show(s).c_str());
      Spx it; for (auto a = X.simplex_begin(k, i); a != X.simplex_end(k, i); ++a) { it.push_back(*a); if (it.size() > k + 1) break; } need(it == s, "wrong-cell", "%s: iterating over simplex (%zu,%zu) gives %s instead of %s", what, k, i, show(it).c_str(), show(s).c_str());
      size_t j = X.find_idx(t); need(j == i, "wrong-lookup", "%s: simplex %s has index %zu but lookup gives %zu", what, show(s).c_str(), i, j); }
    if (!k) continue; M want(m.n(k - 1), m.n(k)), one = want; for (size_t i = 0; i < m.n(k); i++) { for (auto& e : bd_of(m, m.c[k][i])) want(e.first, i) = mk(e.second); auto b = X.boundary(k, i); auto& in = std::get<0>(b); auto& co = std::get<1>(b); need(in.size() == co.size() && in.size() <= k + 1, "wrong-boundary", "%s: boundary(%zu,%zu) has %zu indices and %zu values", what, k, i, in.size(), co.size()); for (size_t q = 0; q < in.size(); q++) { need(in[q] < m.n(k - 1) && (q == 0 || in[q] >= in[q - 1]), "wrong-boundary", "%s: boundary(%zu,%zu) lists face %zu at place %zu", what, k, i, (size_t) in[q], q); one(in[q], i) = add(one(in[q], i), mk(co[q])); } Faces<Cx>::go(X, k, i, std::vector<size_t>(in.begin(), in.end()), what); }
    need(same_boundary(one, want, k, family), "wrong-boundary", "%s: boundaries of dimension %zu are %s, expected %s", what, k, orc::show(one).c_str(), orc::show(want).c_str()); bool degen = false; if (k < m.c.size()) for (auto& s : m.c[k]) degen |= std::set<size_t>(s.begin(), s.end()).size() < s.size(); M gb = dense<int>(MT<int>(X.boundary_csc(k)), what, !degen); need(same_boundary(gb, want, k, family), "wrong-boundary", "%s: boundary matrix of dimension %zu is %s, expected %s", what, k, orc::show(gb).c_str(), orc::show(want).c_str());
  }
  need(X.ncells(top + 1) == 0 && X.ncells(top + 7) == 0, "cell-count", "%s: cells above the top dimension %zu are counted", what, top);
  need(X.ncells() == tot, "cell-count", "%s: ncells() is %zu instead of %zu", what, X.ncells(), tot); for (auto& s : X.get_simplices()) got_all.push_back(wide(s)); need(got_all == all, "wrong-order", "%s: the list of all simplices differs", what); PP() = p;
  for (auto& s : absent) if (!m.has(s)) { typename std::decay<decltype(X.get_simplex(0, 0))>::type t(s.begin(), s.end()); size_t j = X.find_idx(t); need(j == bats::NO_IND, "wrong-lookup", "%s: %s is absent but lookup gives %zu", what, show(s).c_str(), j); }
}
static size_t label(int nv, bool big) { size_t v = sim::pick(nv); static const size_t far[] = {1000, 65535, 65536, 4294967295ull, 4294967296ull, 1ull << 40}; return big && v % 3 == 1 ? far[v % 6] + v : v; }
static Spx draw(int nv, int dmax, bool big) { std::set<size_t> s; size_t d = 1 + sim::pick(dmax + 1); for (int t = 0; t < 12 && s.size() < d; t++) s.insert(label(nv, big)); Spx v(s.begin(), s.end()); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[sim::pick(i)]); return v; }
// cells that an operation added: the new ones of each dimension come after the old ones and are exactly those expected
template <class Cx> void absorb(const Cx& X, Model& m, const SpxSet& fresh, const char* what) {
  sim::Off o; std::vector<size_t> want(20); for (auto& s : fresh) want[s.size() - 1]++; SpxSet got;
  for (size_t k = 0; k <= X.maxdim(); k++) { size_t old = m.n(k); need(X.ncells(k) == old + want[k], "cell-count", "%s: %zu cells of dimension %zu instead of %zu", what, X.ncells(k), k, old + want[k]); for (size_t i = old; i < X.ncells(k); i++) { Spx s = wide(X.get_simplex(k, i)); need(fresh.count(s) && got.insert(s).second, "wrong-cell", "%s: cell %s was added", what, show(s).c_str()); m.put(s); } }
  need(got.size() == fresh.size(), "cell-count", "%s: %zu cells added instead of %zu", what, got.size(), fresh.size());
}
static void same_cells(const Model& m, const std::vector<cell_ind>& ci, const SpxSet& fresh, const Spx& s, bool last, const char* what) {
  SpxSet g; for (auto& c : ci) { need(c.dim < m.c.size() && c.ind < m.n(c.dim), "wrong-return", "%s: returned cell (%zu,%zu) does not exist", what, c.dim, c.ind); need(g.insert(m.c[c.dim][c.ind]).second, "wrong-return", "%s: a cell is returned twice", what); }
  if (fresh.empty()) { need(ci.empty() || (ci.size() == 1 && g.count(s)), "wrong-return", "%s: the simplex is present but %zu cells are returned", what, ci.size()); return; }
  need(g == fresh, "wrong-return", "%s: %zu cells are returned, %zu were added", what, g.size(), fresh.size()); if (last) { auto c = ci.back(); need(m.c[c.dim][c.ind] == s, "wrong-return", "%s: the last returned cell is not the simplex itself", what); }
}
static bats::SimplicialComplex build(const Model& m) { bats::SimplicialComplex X; for (auto& k : m.c) for (auto s : k) X.add(s); return X; }
static Model random_closed(int nv, int facets, int dmax, bool big) { Model m; SpxSet all; for (int i = 0; i < facets; i++) { Spx s = draw(nv, dmax, big); std::sort(s.begin(), s.end()); closure(s, all); } std::vector<Spx> v(all.begin(), all.end()); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[sim::pick(i)]); std::stable_sort(v.begin(), v.end(), [](const Spx& a, const Spx& b) { return a.size() < b.size(); }); for (auto& s : v) m.put(s); return m; }

typedef bats::LightSimplicialComplex<size_t> LU; typedef bats::LightSimplicialComplex<size_t, std::map<size_t, size_t>> LM;
static void empties() {
  quiet(); std::vector<Spx> absent = {{0}, {3}, {0, 1}, {0, 1, 2, 3}}; Model m; sim::Sys s;
  switch (sim::pick(4)) { case 0: { bats::SimplicialComplex X; check_model(X, m, absent, 0, "default complex"); break; } case 1: { LU X; check_model(X, m, absent, 1, "default light complex"); break; } case 2: { LU X(0, 2); check_model(X, m, absent, 1, "light complex without vertices"); break; }
    default: { bats::Filtration<double, bats::SimplicialComplex> F; bats::Filtration<double, LU> G; sim::Off o; need(F.sortperm().empty() || F.sortperm()[0].empty(), "wrong-order", "empty filtration has cells"); need(G.vals().size() <= 1, "wrong-values", "empty filtration has values"); check_model(F.complex(), m, absent, 0, "complex of an empty filtration"); check_model(G.complex(), m, absent, 1, "light complex of an empty filtration"); } }
}
SIM_SCENARIO(H04, simplicial, 4) {
  swarm_env(); quiet(); if (sim::chance(1, 16)) empties(); int nv = rnd(1, zm(7)), dmax = rnd(0, 4); bool big = sim::chance(1, 4), dir = sim::chance(1, 4); Model m; std::vector<Spx> absent; bats::SimplicialComplex X;
  { int c = sim::pick(4); sim::Sys s; switch (c) { case 0: break; case 1: X = bats::SimplicialComplex((size_t) dmax); break; case 2: X = bats::SimplicialComplex((size_t) nv, (size_t) dmax); break; default: X = bats::SimplicialComplex(std::vector<size_t>(dmax + 1, 3)); } }
  int n = rnd(1, zm(14));
  for (int i = 0; i < n; i++) {
    Spx s = draw(nv, dmax, big); if (dir && sim::chance(1, 3)) s.push_back(s[sim::pick(s.size())]); if (sim::chance(1, 3) && m.c.size() && m.n(0)) { auto& k = m.c[sim::pick(m.c.size())]; if (k.size()) s = k[sim::pick(k.size())]; } if (i % 2 && sim::chance(1, 3)) s = Spx(s.rbegin(), s.rend());
    Spx srt = s; std::sort(srt.begin(), srt.end()); absent.push_back(s); { Spx t = s; t.push_back(label(nv, big)); absent.push_back(t); std::sort(t.begin(), t.end()); absent.push_back(t); t = srt; t.erase(t.begin()); if (!t.empty()) absent.push_back(t); absent.push_back(Spx{srt.back() + 1}); }
    int op = sim::pick(dir ? 8 : 12); std::string what = "step " + std::to_string(i); bool directed = op >= 4 && op < 8 && dir; if (op >= 4 && op < 8 && !dir) op -= 4; const Spx& t = directed ? s : srt;
    if (op == 0 || op == 1 || op == 4 || op == 5) {
      what += " add " + show(t); sim_desc("%s; ", what.c_str()); bool had = m.has(t), ok = had || m.faces(t); size_t want = had ? m.ix[t] : ok ? m.n(t.size() - 1) : bats::NO_IND; cell_ind r; { Spx a = s; sim::Sys y; r = directed ? X.add_directed(a) : op ? X.add(a) : X.add(Spx(a)); }
      need(r.dim == t.size() - 1 && r.ind == want, "wrong-return", "%s returned (%zu,%zu) instead of (%zu,%zu)", what.c_str(), r.dim, r.ind, t.size() - 1, want); if (ok && !had) m.put(t); if (!ok) sim_probe("missing-face"); if (had) sim_probe("repeated");
    } else if (op < 8) {
      what += " add_recursive " + show(t); sim_desc("%s; ", what.c_str()); SpxSet fresh, all; closure(t, all); for (auto& x : all) if (!m.has(x)) fresh.insert(x); std::vector<cell_ind> r; { Spx a = s; sim::Sys y; r = directed ? X.add_directed_recursive(a) : op == 2 ? X.add_recursive(a) : X.add_recursive(Spx(a)); }
      absorb(X, m, fresh, what.c_str()); same_cells(m, r, fresh, t, true, what.c_str()); need(!fresh.empty() || r.size() == 1, "wrong-return", "%s: no index returned for a present simplex", what.c_str()); if (directed) sim_probe("directed");
    } else {
      Model y = random_closed(nv, rnd(0, 3), dmax, big); auto Y = build(y); SpxSet fresh; for (auto& x : y.ix) if (!m.has(x.first)) fresh.insert(x.first); what += " with"; for (auto& x : y.ix) what += show(x.first); sim_desc("op %d %s; ", op, what.c_str());
      if (op == 8) { { sim::Sys q; X.union_add(Y); } absorb(X, m, fresh, "union_add"); }
      else if (op == 9) { bats::SimplicialComplex Z; { sim::Sys q; Z = simplicial_union(X, Y); } absorb(Z, m, fresh, "simplicial_union"); X = Z; }
      else if (op == 10) { bats::SimplicialComplex Z; { sim::Sys q; Z = intersection(X, Y); } Model z; for (auto& k : m.c) for (auto& x : k) if (y.has(x)) z.put(x); check_model(Z, z, absent, 0, "intersection"); }
      else { std::vector<std::vector<size_t>> g; { sim::Sys q; g = X.get_indices(Y); } need(g.size() == X.maxdim() + 1, "wrong-indices", "get_indices covers %zu dimensions", g.size()); for (size_t k = 0; k < g.size(); k++) { std::vector<size_t> w; if (k < y.c.size()) for (auto& x : y.c[k]) w.push_back(m.has(x) ? m.ix[x] : bats::NO_IND); need(g[k] == w, "wrong-indices", "get_indices of dimension %zu is wrong", k); } }
      sim_probe("set-operation");
    }
    if (sim::chance(1, 6)) { sim::Sys q; bats::SimplicialComplex Z(X); X = Z; }
    sim::Sys q; check_model(X, m, absent, 0, what.c_str());
  }
  sim_note(m.ix.size());
}
template <class L> void light() {
  quiet(); int nv = rnd(1, zm(7)), dmax = rnd(0, 4); size_t n = nv + sim::pick(3) * 50; if (sim::chance(1, 8)) { dmax = std::min(dmax, 3); n = nv + 10000 + sim::pick(50000); } Model m, ref; std::vector<Spx> absent; L X; { sim::Sys s; X = L(n, dmax); } bats::SimplicialComplex R; int st = rnd(1, zm(14));
  for (int i = 0; i < st; i++) {
    Spx s = draw(nv, dmax, false); std::sort(s.begin(), s.end()); if (n > (size_t) nv && sim::chance(1, 4)) { s.back() = n - 1; } if (sim::chance(1, 3) && m.c.size() && m.n(0)) { auto& k = m.c[sim::pick(m.c.size())]; if (k.size()) s = k[sim::pick(k.size())]; } absent.push_back(s); { Spx t = s; t.push_back(t.back() + 1); absent.push_back(t); t.erase(t.begin()); absent.push_back(t); t = Spx(s.rbegin(), s.rend()); absent.push_back(t); for (size_t q = 0; q < (size_t) dmax + 2; q++) { t = s; t.push_back(n); s.size() > 1 ? (void) 0 : (void) absent.push_back(t); } }
    typename std::decay<decltype(X.get_simplex(0, 0))>::type a(s.begin(), s.end()); std::string what; bool had = m.has(s);
    if (sim::pick(2) && m.faces(s)) { what = "add " + show(s); sim_desc("%s; ", what.c_str()); size_t want = had ? m.ix[s] : m.n(s.size() - 1); cell_ind r; bool un = !had && sim::chance(1, 3); { sim::Sys y; r = un ? X.add_unsafe(a) : X.add(a); } need(r.dim == s.size() - 1 && r.ind == want, "wrong-return", "%s returned (%zu,%zu) instead of (%zu,%zu)", what.c_str(), r.dim, r.ind, s.size() - 1, want); if (!had) m.put(s); if (had) sim_probe("repeated"); R.add(s); }
    else { what = "add_recursive " + show(s); sim_desc("%s; ", what.c_str()); SpxSet fresh, all; closure(s, all); for (auto& x : all) if (!m.has(x)) fresh.insert(x); std::vector<cell_ind> r; { sim::Sys y; r = X.add_recursive(a); } absorb(X, m, fresh, what.c_str()); same_cells(m, r, fresh, s, true, what.c_str()); R.add_recursive(s); }
    { sim::Off o; size_t k = s.size() - 1; auto key = X.simplex_key(a); need(X.find_idx(k, key) == m.ix.at(s) && wide(X.key_to_simplex(k, key)) == s && X.max_vertex(key, k) == s.back(), "wrong-key", "key of %s does not lead back to it", show(s).c_str()); }
    if (sim::chance(1, 6)) { sim::Sys q; L Z(X); X = Z; }
    sim::Sys q; check_model(X, m, absent, 1, what.c_str());
  }
  need(set_of(cells_of(R)) == m.set(), "types-disagree", "both complex types hold different cells");
}
SIM_SCENARIO(H04, light, 3) { swarm_env(); if (sim::chance(1, 2)) light<LM>(); else light<LU>(); }
// ---- filtrations
template <class C> C fresh(size_t n, size_t k) { return C(n, k); }
template <class T, class C> void check_filtration(const bats::Filtration<T, C>& Fl, const Model& m, std::map<Spx, T>& v, const std::vector<Spx>& absent, int family, const char* what) {
  check_model(Fl.complex(), m, absent, family, what); sim::Off o; auto& vs = Fl.vals(); std::vector<std::vector<size_t>> sp; { sim::Sys s; sp = Fl.sortperm(); } need(sp.size() == vs.size() && vs.size() >= m.c.size(), "wrong-values", "%s: values in %zu dimensions, orders in %zu", what, vs.size(), sp.size());
  for (size_t k = 0; k < vs.size(); k++) { need(vs[k].size() == m.n(k) && Fl.ncells(k) == m.n(k) && Fl.vals(k) == vs[k], "wrong-values", "%s: %zu values in dimension %zu for %zu cells", what, vs[k].size(), k, m.n(k)); for (size_t i = 0; i < m.n(k); i++) need(vs[k][i] == v.at(m.c[k][i]), "wrong-values", "%s: value of %s is %g instead of %g", what, show(m.c[k][i]).c_str(), (double) vs[k][i], (double) v.at(m.c[k][i]));
    auto p = Fl.sortperm(k); need(p == sp[k] && p.size() == m.n(k), "wrong-order", "%s: order of dimension %zu has %zu places", what, k, p.size()); std::set<size_t> seen; for (size_t i = 0; i < p.size(); i++) { need(p[i] < m.n(k) && seen.insert(p[i]).second, "wrong-order", "%s: order of dimension %zu is not a permutation", what, k); need(!i || vs[k][p[i - 1]] <= vs[k][p[i]], "wrong-order", "%s: order of dimension %zu does not sort the values", what, k); } auto ip = bats::filtration_iperm(sp); for (size_t i = 0; i < p.size(); i++) need(ip[k][p[i]] == i, "wrong-order", "%s: inverse order of dimension %zu is wrong", what, k); }
}
template <class T, class C> void filtration_history(bool light_) {
  quiet(); int nv = rnd(1, zm(6)), dmax = rnd(0, 3), st = rnd(1, zm(12)), fam = light_ ? 1 : 0; size_t n = light_ ? nv + sim::pick(3) * 7 : nv; bool big = !light_ && sim::chance(1, 4); Model m; std::map<Spx, T> v; std::vector<Spx> absent; typedef bats::Filtration<T, C> FL; FL Fl;
  { int c = light_ ? 1 : sim::pick(3); size_t d = dmax; sim::Sys s; if (c == 1) Fl = FL(n, d); else if (c == 2) { C X(n, d); Fl = FL(X); } }
  auto val = [&]() { int x = (int) sim::pick(7) - 2; return (T) (std::is_floating_point<T>::value && x == 4 ? INFINITY : x); };
  for (int i = 0; i < st; i++) {
    Spx s = draw(nv, dmax, big); std::sort(s.begin(), s.end()); if (light_ && sim::chance(1, 4)) s.back() = n - 1; if (sim::chance(1, 4) && m.c.size() && m.n(0)) { auto& k = m.c[sim::pick(m.c.size())]; if (k.size()) s = k[sim::pick(k.size())]; } absent.push_back(s); bool had = m.has(s); std::string what; T t = val(); int op = sim::pick(8);
    if (op < 3) { bool ok = had || m.faces(s); if (light_ && !ok) continue; what = "add " + show(s) + "@" + std::to_string((double) t); sim_desc("%s; ", what.c_str()); size_t want = had ? m.ix[s] : ok ? m.n(s.size() - 1) : bats::NO_IND; cell_ind r; { Spx a = s; sim::Sys y; r = Fl.add(t, a); } need(r.ind == want && r.dim == s.size() - 1, "wrong-return", "%s returned (%zu,%zu)", what.c_str(), r.dim, r.ind); if (ok) { if (!had) m.put(s); v[s] = t; } else sim_probe("missing-face"); }
    else if (op < 6) { what = "add_recursive " + show(s) + "@" + std::to_string((double) t); sim_desc("%s; ", what.c_str()); SpxSet fr, all; closure(s, all); for (auto& x : all) if (!m.has(x)) fr.insert(x); std::vector<cell_ind> r; { Spx a = s; sim::Sys y; r = Fl.add_recursive(t, a); } absorb(Fl.complex(), m, fr, what.c_str()); same_cells(m, r, fr, s, true, what.c_str()); for (auto& x : fr) v[x] = t; if (had) { auto& x = Fl.vals()[s.size() - 1][m.ix[s]]; if (x == t) v[s] = t; } }
    else if (op == 6) { Model y = random_closed(nv, rnd(1, 3), dmax, big); C Y(n, (size_t) dmax); std::vector<std::vector<T>> w(dmax + 1); std::map<Spx, T> yv; for (auto& k : y.c) for (auto a : k) { Y.add(a); yv[a] = val(); w[a.size() - 1].push_back(yv[a]); } FL G(Y, w); what = "union_add"; sim_desc("union_add"); for (auto& x : yv) sim_desc(" %s@%g", show(x.first).c_str(), (double) x.second); sim_desc("; "); SpxSet fr; for (auto& x : y.ix) if (!m.has(x.first)) fr.insert(x.first); { sim::Sys q; Fl.union_add(G); } absorb(Fl.complex(), m, fr, "union_add"); for (auto& x : yv) { auto& g = Fl.vals()[x.first.size() - 1][m.ix[x.first]]; if (fr.count(x.first) || g == x.second) v[x.first] = x.second; } sim_probe("union"); }
    else { std::vector<std::vector<T>> w(Fl.vals().size()); for (size_t k = 0; k < w.size(); k++) for (size_t j = 0; j < m.n(k); j++) w[k].push_back(v[m.c[k][j]] = val()); what = "update_filtration"; sim_desc("update; "); sim::Sys q; Fl.update_filtration(w); }
    { sim::Sys q; check_filtration(Fl, m, v, absent, fam, what.c_str()); }
    if (sim::chance(1, 2) && m.n(0)) { T a = val(); Model z; bool closed = true; for (auto& k : m.c) for (auto& x : k) if (v[x] <= a) { closed &= z.faces(x); z.put(x); } if (closed) { sim_desc("sublevelset %g; ", (double) a); C Z(n, (size_t) dmax); { sim::Sys q; Z = Fl.sublevelset(a); check_model(Z, z, absent, fam, "sublevel set"); } sim_probe("sublevelset"); } }
  }
}
SIM_SCENARIO(H04, filtration, 4) { swarm_env(); switch (sim::pick(4)) { case 0: filtration_history<double, bats::SimplicialComplex>(false); break; case 1: filtration_history<int, bats::SimplicialComplex>(false); break; case 2: filtration_history<double, LU>(true); break; default: filtration_history<float, LM>(true); } }
// simplices of one or two closures added one at a time in random order: every refusal for a face missing somewhere is followed by further additions
template <class Add, class Check> void fill_simplices(Model& m, std::vector<Spx>& pool, int tries, Add add, Check check) {
  for (int i = 0; i < tries && !pool.empty(); i++) {
    size_t q = sim::pick((uint32_t) pool.size()); if (sim::chance(2, 3)) for (size_t r = 0; r < pool.size(); r++) { size_t z = (q + r) % pool.size(); if (m.faces(pool[z])) { q = z; break; } } Spx s = pool[q]; bool ok = m.faces(s); sim_desc("%s%s; ", show(s).c_str(), ok ? "" : " refused"); cell_ind r = add(s); size_t want = ok ? m.n(s.size() - 1) : bats::NO_IND; need(r.dim == s.size() - 1 && r.ind == want, "wrong-return", "add %s returned (%zu,%zu) instead of (%zu,%zu)", show(s).c_str(), r.dim, r.ind, s.size() - 1, want);
    if (ok) { m.put(s); pool.erase(pool.begin() + q); } else sim_probe("missing-face"); check();
  }
}
SIM_SCENARIO(H04, fill, 2) {
  swarm_env(); quiet(); int nv = rnd(3, 5); SpxSet all; for (int b = 1 + sim::pick(2); b; b--) { std::set<size_t> s; while (s.size() < (size_t) std::min(nv, 3 + (int) sim::pick(2))) { size_t x = label(nv, false); while (s.count(x)) x = (x + 1) % nv; s.insert(x); } closure(Spx(s.begin(), s.end()), all); } std::vector<Spx> pool(all.begin(), all.end()); Model m; int tries = rnd((int) pool.size() / 2, (int) pool.size() * 2); int how = sim::pick(3);
  if (how == 0) { bats::SimplicialComplex X; { size_t c = sim::pick(2); sim::Sys y; if (c) X = bats::SimplicialComplex((size_t) nv, 3); } fill_simplices(m, pool, tries, [&](Spx s) { if (sim::chance(1, 3)) std::reverse(s.begin(), s.end()); sim::Sys y; return X.add(s); }, [&] { if (sim::chance(1, 3)) { sim::Sys y; check_model(X, m, pool, 0, "filling"); } }); sim::Sys y; check_model(X, m, pool, 0, "filled"); }
  else if (how == 1) { bats::SimplicialComplex X; fill_simplices(m, pool, tries, [&](Spx s) { sim::Sys y; return X.add_directed(s); }, [&] { if (sim::chance(1, 3)) { sim::Sys y; check_model(X, m, pool, 0, "filling in order"); } }); sim::Sys y; check_model(X, m, pool, 0, "filled in order"); }
  else { bats::Filtration<double, bats::SimplicialComplex> X; std::map<Spx, double> v; fill_simplices(m, pool, tries, [&](Spx s) { double t = (double) sim::pick(6); v[s] = t; sim::Sys y; return X.add(t, s); }, [&] { if (sim::chance(1, 3)) { sim::Sys y; check_filtration(X, m, v, pool, 0, "filling"); } }); sim::Sys y; check_filtration(X, m, v, pool, 0, "filled"); }
  if (pool.empty()) sim_probe("complete");
}
// ---- triangulated products: chains of the product order that project onto simplices
template <class C> void product() {
  quiet(); int a = rnd(1, 4), b = rnd(1, 4); auto gen = [](int n, int f, int d) { Model m = random_closed(n, f, d, false); for (int i = 0; i < n; i++) if (!m.has({(size_t) i})) m.put({(size_t) i}); return m; }; Model x = gen(a, rnd(0, 3), 2), y = gen(b, rnd(0, 3), 2); C X((size_t) a, 2), Y((size_t) b, 2); for (auto& k : x.c) for (auto s : k) X.add(s); for (auto& k : y.c) for (auto s : k) Y.add(s); size_t top = rnd(0, 4); int form = sim::pick(3); size_t n = a; if (form == 2) n += sim::pick(3); if (form == 0) top = 4;
  for (auto& s : x.ix) sim_desc("%s", show(s.first).c_str()); sim_desc(" times "); for (auto& s : y.ix) sim_desc("%s", show(s.first).c_str()); sim_desc(" up to %zu, n=%zu", top, n); C Z((size_t) 1, 0); { sim::Sys q; Z = form == 0 ? bats::TriangulatedProduct(X, Y) : form == 1 ? bats::TriangulatedProduct(X, Y, top) : bats::TriangulatedProduct(X, Y, top, n); }
  SpxSet want; std::function<void(Spx, Spx, Spx)> go = [&](Spx s, Spx p, Spx q) { if (!s.empty()) { if (p.size() + q.size() - 2 > top) return; want.insert(s); } size_t i0 = p.empty() ? 0 : p.back(), j0 = q.empty() ? 0 : q.back(); for (size_t i = i0; i < (size_t) a; i++) for (size_t j = j0; j < (size_t) b; j++) { if (!s.empty() && i == i0 && j == j0) continue; Spx s2 = s, p2 = p, q2 = q; s2.push_back(i + n * j); if (p2.empty() || p2.back() != i) p2.push_back(i); if (q2.empty() || q2.back() != j) q2.push_back(j); if (x.has(p2) && y.has(q2)) go(s2, p2, q2); } }; go({}, {}, {});
  Model z; SpxSet got; sim::Off o; for (size_t k = 0; k <= Z.maxdim(); k++) for (auto& s : Z.get_simplices(k)) { Spx t = wide(s); need(got.insert(t).second, "duplicate-cell", "%s is listed twice", show(t).c_str()); z.put(t); } std::string miss, extra; for (auto& s : want) if (!got.count(s)) miss += show(s); for (auto& s : got) if (!want.count(s)) extra += show(s); need(got == want, "wrong-product", "missing %s extra %s", miss.c_str(), extra.c_str()); check_model(Z, z, {}, std::is_same<C, bats::SimplicialComplex>::value ? 0 : 1, "product");
}
SIM_SCENARIO(H04, products, 2) { swarm_env(); if (sim::chance(1, 2)) product<LU>(); else product<bats::SimplicialComplex>(); }

// pairings of cells one dimension apart: no cell in two pairs, an edge pairs with the younger of the components it joins
struct PairModel {
  std::vector<std::vector<char>> on; std::vector<std::vector<std::array<size_t, 2>>> pr; std::vector<std::set<size_t>> comp; std::vector<size_t> rank;
  void init(const std::vector<size_t>& n) { on.clear(); pr.assign(n.size(), {}); for (auto k : n) on.push_back(std::vector<char>(k, 0)); parts(); }
  void parts() { comp.clear(); for (size_t i = 0; i < on[0].size(); i++) comp.push_back({i}); }
  bool pair(size_t d, size_t i, size_t j) { if (on[d][i] || on[d + 1][j]) return false; on[d][i] = on[d + 1][j] = 1; pr[d].push_back({i, j}); return true; }
  size_t oldest(const std::set<size_t>& c) const { size_t b = *c.begin(); for (auto v : c) if (rank.empty() ? v < b : rank[v] < rank[b] || (rank[v] == rank[b] && v < b)) b = v; return b; }
  bool edge(size_t i, size_t j, size_t e) {
    size_t a = 0, b = 0; for (size_t t = 0; t < comp.size(); t++) { if (comp[t].count(i)) a = t; if (comp[t].count(j)) b = t; } if (a == b) return false;
    size_t x = oldest(comp[a]), y = oldest(comp[b]); comp[a].insert(comp[b].begin(), comp[b].end()); comp.erase(comp.begin() + b); return pair(0, oldest({x, y}) == x ? y : x, e); }
};
static void check_pairs(const MorsePairing<bats::SimplicialComplex>& P, const PairModel& m, const char* what) {
  sim::Off o; size_t top = m.on.size() - 1; need(P.maxdim() == top, "wrong-maxdim", "%s: maxdim is %zu instead of %zu", what, P.maxdim(), top);
  for (size_t d = 0; d <= top; d++) {
    need(P.ncells(d) == m.on[d].size() && P.size(d) == m.on[d].size(), "cell-count", "%s: %zu cells in dimension %zu instead of %zu", what, P.ncells(d), d, m.on[d].size()); std::vector<size_t> un; for (size_t i = 0; i < m.on[d].size(); i++) { need(P.is_paired(d, i) == (bool) m.on[d][i], "wrong-pairing", "%s: cell %zu of dimension %zu is%s paired", what, i, d, P.is_paired(d, i) ? "" : " not"); if (!m.on[d][i]) un.push_back(i); }
    need(P.unpaired(d) == un, "wrong-pairing", "%s: the unpaired cells of dimension %zu are %s instead of %s", what, d, show(P.unpaired(d)).c_str(), show(un).c_str()); if (d == top) continue;
    auto& u = P.up_paired(d); auto& w = P.down_paired(d + 1); need(u.size() == w.size() && u.size() == m.pr[d].size(), "wrong-pairing", "%s: %zu and %zu cells paired between dimensions %zu and %zu instead of %zu", what, u.size(), w.size(), d, d + 1, m.pr[d].size());
    for (size_t t = 0; t < u.size(); t++) need(u[t] == m.pr[d][t][0] && w[t] == m.pr[d][t][1], "wrong-pairing", "%s: pair %zu of dimension %zu is %zu-%zu instead of %zu-%zu", what, t, d, u[t], w[t], m.pr[d][t][0], m.pr[d][t][1]); }
}
SIM_SCENARIO(H04, pairing, 1) {
  swarm_env(); using MP = MorsePairing<bats::SimplicialComplex>; PairModel m; int nops = rnd(1, 30);
  if (sim::chance(2, 3)) {
    std::vector<size_t> n; for (int d = rnd(2, 4); d > 0; d--) n.push_back(rnd(1, 8)); m.init(n); bool edges = sim::chance(2, 3), ranked = edges && sim::chance(1, 2); if (ranked) for (size_t i = 0; i < n[0]; i++) m.rank.push_back(rnd(0, 4)); sim_desc("pairing of %zu dimensions, ranks %s ", n.size(), show(m.rank).c_str()); MP P = [&] { sim::Sys s; return MP(n); }(); check_pairs(P, m, "new pairing");
    for (int t = 0; t < nops; t++) {
      int op = sim::pick(12); size_t d = sim::pick(n.size() - 1); if (edges && sim::chance(1, 2)) d = 0;
      if (op == 0) { sim_desc("copy; "); sim::Sys s; MP Q(P); P.clear(); P = Q; }
      else if (op == 1) { sim_desc("clear; "); { sim::Sys s; P.clear(); } m.init(n); }
      else if (d == 0 && edges) { size_t i = sim::pick(n[0]), j = sim::pick(n[0]), e = sim::pick(n[1]); if (m.on[1][e]) continue; sim_desc("edge %zu=(%zu,%zu); ", e, i, j); bool r; { sim::Sys s; r = ranked ? P.set_pair_edge(i, j, e, m.rank) : P.set_pair_edge(i, j, e); } bool w = m.edge(i, j, e); need(r == w, "wrong-answer", "set_pair_edge answered %d instead of %d", r, w); }
      else { size_t i = sim::pick(n[d]), j = sim::pick(n[d + 1]); sim_desc("pair %zu-%zu in %zu; ", i, j, d); bool r; { sim::Sys s; r = P.set_pair(d, i, j); } bool w = m.pair(d, i, j); need(r == w, "wrong-answer", "set_pair answered %d instead of %d", r, w); }
      check_pairs(P, m, "pairing"); }
    sim_probe("pairing-history"); return; }
  bats::SimplicialComplex X; MP P = [&] { sim::Sys s; return MP(X); }(); Model c; int nv = rnd(1, 6); m.init({0}); m.on.resize(1); bool ever = false;
  for (int v = 0; v < nv; v++) { Spx s{(size_t) v}; bool ap = sim::chance(1, 2); cell_ind r{0, 0}; { sim::Sys y; r = ap ? P.add_pair(s) : P.add(s); } need(r.dim == 0 && r.ind == (size_t) v, "wrong-index", "vertex %d got (%zu,%zu)", v, r.dim, r.ind); c.put(s); m.on[0].push_back(0); } m.parts(); check_pairs(P, m, "vertices");
  for (int t = 0; t < nops; t++) {
    if (nv < 7 && sim::chance(1, 6)) { Spx s{(size_t) nv}; sim_desc("vertex %d; ", nv); { sim::Sys y; P.add(s); } c.put(s); m.on[0].push_back(0); m.comp.push_back({(size_t) nv++}); check_pairs(P, m, "pairing with a new vertex"); }
    Spx s; for (int v = 0; v < nv; v++) if (sim::chance(1, 2)) s.push_back(v); if (s.size() < 2 || s.size() > 4 || c.has(s) || !c.faces(s)) { if (nv < 2) continue; s = {(size_t) rnd(0, nv - 2), 0}; s[1] = rnd((int) s[0] + 1, nv - 1); if (c.has(s)) continue; }
    size_t d = s.size() - 1; bool ap = sim::chance(3, 4); sim_desc("%s %s; ", ap ? "add_pair" : "add", show(s).c_str()); cell_ind r{0, 0}; { sim::Sys y; r = ap ? P.add_pair(s) : P.add(s); } size_t j = c.put(s); need(r.dim == d && r.ind == j, "wrong-index", "simplex got (%zu,%zu) instead of (%zu,%zu)", r.dim, r.ind, d, j);
    while (m.on.size() <= d) m.on.push_back({}); m.pr.resize(m.on.size()); m.on[d].push_back(0); ever |= ap;
    if (ap && d == 1) m.edge(s[0], s[1], j);
    else if (ap) { std::set<size_t> f; for (size_t q = 0; q < s.size(); q++) { Spx w = s; w.erase(w.begin() + q); size_t i = c.ix[w]; if (!m.on[d - 1][i]) f.insert(i); }
      if (!f.empty()) { sim::Off o; need(P.is_paired(d, j) && !P.up_paired(d - 1).empty() && P.down_paired(d).back() == j && f.count(P.up_paired(d - 1).back()), "wrong-pairing", "simplex %zu of dimension %zu is not paired with an unpaired face", j, d); m.pair(d - 1, P.up_paired(d - 1).back(), j); } }
    check_pairs(P, m, "pairing of a growing complex"); }
  for (size_t k = 1; k < c.c.size(); k++) { auto B = [&] { sim::Sys s; return P.boundary_csc(k); }(); need(B.ncol() == c.n(k), "wrong-boundary", "the boundary of dimension %zu has %zu columns", k, B.ncol()); } if (ever) sim_probe("pairing-grows");
}
