#include "filt.hpp"
// Zigzag filtrations: histories of cells entering and leaving against the interval decomposition of the sequence of complexes.
using namespace flt;
namespace zz = bats::zigzag;
// cells with boundaries and names; when[k][i] lists the closed intervals during which cell i of dimension k is present
struct H { std::vector<std::vector<std::vector<std::pair<size_t, int>>>> bd; std::vector<std::vector<Spx>> nm; std::vector<std::vector<std::vector<std::pair<int, int>>>> when; };
inline std::string show(const H& h) { std::string s; for (size_t k = 0; k < h.bd.size(); k++) { s += "dim" + std::to_string(k) + ":"; for (size_t i = 0; i < h.bd[k].size(); i++) { if (i < h.nm[k].size()) s += orc::show(h.nm[k][i]); else { s += "<"; for (auto& e : h.bd[k][i]) s += std::to_string(e.second) + "*" + std::to_string(e.first) + " "; s += ">"; } for (auto& w : h.when[k][i]) s += "[" + std::to_string(w.first) + "," + std::to_string(w.second) + "]"; s += " "; } } return s; }
// up to three disjoint closed intervals inside [lo, hi], in time order
inline void intervals(int lo, int hi, int n, std::vector<std::pair<int, int>>& out) { int t = lo; while (n-- > 0 && t <= hi) { int a = rnd(t, hi), b = rnd(a, hi); if (sim::chance(1, 3)) { a = t; } if (sim::chance(1, 3)) b = hi; if (b < a) b = a; out.push_back({a, b}); t = b + 1; } }
inline H history(const RF& f, int lo, int hi, int reentry) {
  H h; h.bd = f.bd; h.nm = f.spx; h.when.resize(f.bd.size());
  for (size_t k = 0; k < f.bd.size(); k++) for (size_t i = 0; i < f.bd[k].size(); i++) {
    std::vector<std::pair<int, int>> room{{lo, hi}};
    for (auto& e : f.bd[k][i]) { std::vector<std::pair<int, int>> r; for (auto& a : room) for (auto& b : h.when[k - 1][e.first]) { int x = std::max(a.first, b.first), y = std::min(a.second, b.second); if (x <= y) r.push_back({x, y}); } room = r; }
    std::sort(room.begin(), room.end()); std::vector<std::pair<int, int>> w; for (auto& a : room) if (w.empty() || sim::chance(3, 4)) intervals(a.first, a.second, 1 + (reentry ? (int) sim::pick(reentry) : 0), w); h.when[k].push_back(w);
  }
  // cells that could never be present are dropped together with what they bound (their cofaces had no room either)
  H g; g.bd.resize(h.bd.size()); g.nm.resize(h.bd.size()); g.when.resize(h.bd.size()); std::vector<std::vector<size_t>> nw(h.bd.size());
  for (size_t k = 0; k < h.bd.size(); k++) for (size_t i = 0; i < h.bd[k].size(); i++) { nw[k].push_back(bats::NO_IND); if (h.when[k][i].empty()) continue; auto b = h.bd[k][i]; for (auto& e : b) e.first = nw[k - 1][e.first]; nw[k][i] = g.bd[k].size(); g.bd[k].push_back(b); if (i < h.nm[k].size()) g.nm[k].push_back(h.nm[k][i]); g.when[k].push_back(h.when[k][i]); }
  return g;
}
// interval decomposition of one dimension: nodes 2i and 2i+1 are the complexes after the entries and after the removals at the i-th value
inline Bars ref_bars(const H& h, size_t k, const std::vector<int>& vals) {
  size_t N = 2 * vals.size(); auto here = [&](size_t d, size_t node) { std::vector<size_t> r; if (d < h.bd.size()) for (size_t i = 0; i < h.bd[d].size(); i++) for (auto& w : h.when[d][i]) { int t = vals[node / 2]; if (w.first <= t && (node % 2 ? t < w.second : t <= w.second)) { r.push_back(i); break; } } return r; };
  auto mat = [&](size_t d, const std::vector<size_t>& lo, const std::vector<size_t>& hi) { std::map<size_t, size_t> ix; for (size_t i = 0; i < lo.size(); i++) ix[lo[i]] = i; M B(lo.size(), hi.size()); for (size_t j = 0; j < hi.size(); j++) for (auto& e : h.bd[d][hi[j]]) { auto it = ix.find(e.first); if (it == ix.end()) sim_fail("harness", "a face is absent"); B(it->second, j) = add(B(it->second, j), mk(e.second)); } return B; };
  Zig z; std::vector<Hom> hm; std::vector<std::vector<size_t>> c;
  for (size_t n = 0; n < N; n++) { auto lo = k ? here(k - 1, n) : std::vector<size_t>(), mid = here(k, n), hi = here(k + 1, n); M a = k ? mat(k, lo, mid) : M(0, mid.size()), b = hi.empty() ? M(mid.size(), 0) : mat(k + 1, mid, hi); hm.push_back(orc::homology(a, b)); c.push_back(mid); z.dim.push_back(hm[n].dim()); }
  for (size_t n = 0; n + 1 < N; n++) { bool fwd = n % 2 == 1; size_t s = fwd ? n : n + 1, t = fwd ? n + 1 : n; M C(c[t].size(), z.dim[s]); for (size_t i = 0; i < c[s].size(); i++) { size_t p = std::find(c[t].begin(), c[t].end(), c[s][i]) - c[t].begin(); for (size_t j = 0; j < z.dim[s]; j++) C(p, j) = hm[s].H(i, j); } z.f.push_back(z.dim[s] ? coords(hm[t], C) : M(z.dim[t], 0)); z.fwd.push_back(fwd); }
  return zig_bars(z);
}
struct Bar { int b, be, d, de; bool operator<(const Bar& o) const { return std::tie(b, be, d, de) < std::tie(o.b, o.be, o.d, o.de); } bool operator==(const Bar& o) const { return std::tie(b, be, d, de) == std::tie(o.b, o.be, o.d, o.de); } };
inline std::string show(const std::vector<Bar>& v) { std::string s; for (auto& x : v) s += (x.be ? "+" : "-") + std::to_string(x.b) + ".." + (x.de ? "+" : "-") + std::to_string(x.d) + " "; return s; }
template <class T> T real(int v) { return std::is_integral<T>::value ? (T) v : (T) (v * 0.5); }
template <class F, class T, class Cx> void check(const H& h, const zz::ZigzagFiltration<Cx, T>& Z, const std::vector<std::vector<std::vector<int>>>* = nullptr) {
  std::set<int> vs; for (auto& k : h.when) for (auto& c : k) for (auto& w : c) { vs.insert(w.first); vs.insert(w.second); } std::vector<int> vals(vs.begin(), vs.end());
  size_t top = h.bd.size() - 1, cmax = Z.complex().maxdim(); std::vector<std::vector<Bar>> want;
  for (size_t k = 0; k <= top; k++) { std::vector<Bar> w; for (auto& x : ref_bars(h, k, vals)) { size_t a = x.first.first, b = x.first.second + 1; if (b >= 2 * vals.size()) sim_fail("harness", "a bar outlives the history"); Bar q{vals[a / 2], a % 2 == 0, vals[b / 2], b % 2 == 0}; if (q.b != q.d) for (long i = 0; i < x.second; i++) w.push_back(q); } std::sort(w.begin(), w.end()); want.push_back(w); if (w.size() > 1) sim_probe("several-bars"); for (auto& q : w) { if (!q.be) sim_probe("born-at-removal"); if (q.de) sim_probe("dies-at-entry"); } }
  zz::ZigzagChainComplex<MT<F>, T> ZC; { sim::Sys s; ZC = zz::ZigzagChainComplex<MT<F>, T>(Z); }
  { sim::Off o; for (size_t k = 1; k <= ZC.maxdim(); k++) { M B = dense<F>(ZC.C[k], "duplicated boundary", true); for (size_t j = 0; j < B.c; j++) for (size_t i = 0; i < B.r; i++) if (!zero(B(i, j))) need(ZC.val[k - 1][i].first <= ZC.val[k][j].first && ZC.val[k][j].second <= ZC.val[k - 1][i].second, "wrong-copy", "copy %zu of dimension %zu is bounded by copy %zu, which is not present with it", j, k, i); } need(ZC.C.is_valid_complex(), "not-a-complex", "duplicated chain complex has a nonzero composite"); }
  int runs = rnd(1, 3);
  for (int r = 0; r < runs; r++) {
    int md = sim::chance(1, 3) ? -1 : rnd(0, (int) cmax), fl = sim::pick(4); std::vector<std::vector<zz::ZigzagPair<T>>> ps; sim_desc("(maxdim %d flags %d) ", md, fl);
    { sim::Sys s; switch (fl) { case 0: ps = zz::barcode(Z, md, F(), bats::no_optimization_flag(), bats::standard_reduction_flag()); break; case 1: ps = zz::barcode(Z, md, F(), bats::no_optimization_flag(), bats::extra_reduction_flag()); break; case 2: ps = zz::barcode(Z, md, F(), bats::clearing_flag(), bats::standard_reduction_flag()); break; default: ps = zz::barcode(Z, md, F(), bats::compression_flag(), bats::extra_reduction_flag()); } }
    sim::Off o; size_t nd = md < 0 ? cmax : (size_t) md + 1; need(ps.size() == nd, "wrong-shape", "bars for %zu dimensions, expected %zu", ps.size(), nd);
    for (size_t k = 0; k < ps.size(); k++) {
      std::vector<Bar> got; for (auto& p : ps[k]) {
        need(p.get_dim() == k, "wrong-dimension", "a bar of dimension %zu is listed under %zu", p.get_dim(), k); auto iv = [&](T x) { for (int v : vals) if (real<T>(v) == x) return v; sim_fail("wrong-value", "a bar of dimension %zu ends at %g, where nothing happens", k, (double) x); return 0; };
        Bar q{iv(p.get_birth()), p.birth_is_entry, iv(p.get_death()), p.death_is_entry}; need(q.b <= q.d, "wrong-barcode", "bar ends before it begins"); 
        size_t bk = p.birth_is_entry ? k : k + 1, dk = p.death_is_entry ? k + 1 : k; need(bk < ZC.val.size() && p.get_birth_ind() < ZC.val[bk].size() && dk < ZC.val.size() && p.get_death_ind() < ZC.val[dk].size(), "wrong-index", "a bar of dimension %zu refers to absent cells", k); auto& bi = ZC.val[bk][p.get_birth_ind()]; auto& di = ZC.val[dk][p.get_death_ind()];
        need((p.birth_is_entry ? bi.first : bi.second) == p.get_birth() && (p.death_is_entry ? di.first : di.second) == p.get_death(), "wrong-index", "a bar of dimension %zu names a cell that does not enter or leave at its end", k); if (q.b != q.d) got.push_back(q);
      }
      std::sort(got.begin(), got.end()); std::vector<Bar> none; auto& w = k < want.size() ? want[k] : none; need(got == w, "wrong-barcode", "dimension %zu: bars %s expected %s", k, show(got).c_str(), show(w).c_str());
    }
  }
}
template <class T> std::vector<std::vector<std::vector<std::pair<T, T>>>> values(const H& h, bool shuffle) { std::vector<std::vector<std::vector<std::pair<T, T>>>> v(h.when.size()); for (size_t k = 0; k < v.size(); k++) for (auto& c : h.when[k]) { std::vector<std::pair<T, T>> w; for (auto& x : c) w.push_back({real<T>(x.first), real<T>(x.second)}); if (shuffle) for (size_t i = w.size(); i > 1; i--) std::swap(w[i - 1], w[sim::pick((unsigned) i)]); v[k].push_back(w); } return v; }
template <class T> std::set<int> probe_h(const H& h) { std::set<int> s; for (auto& k : h.when) for (auto& c : k) { if (c.size() > 1) sim_probe("re-entry"); for (auto& w : c) if (w.first == w.second) sim_probe("momentary"); } return s; }
inline RF trimmed(RF f) { trim(f); return f; }
template <class F, class T> void simplicial_h() {
  use_field<F>(); H h = history(trimmed(gen_simplicial(rnd(1, 6), rnd(1, 5), rnd(0, 3))), rnd(-3, 0), rnd(0, 4), rnd(0, 2)); while (h.bd.size() > 1 && h.bd.back().empty()) { h.bd.pop_back(); h.nm.pop_back(); h.when.pop_back(); } sim_desc("%s ", show(h).c_str()); probe_h<T>(h); auto v = values<T>(h, sim::chance(1, 4));
  size_t nv = 0; for (auto& s : h.nm[0]) nv = std::max(nv, s[0] + 1);
  if (sim::pick(2)) { RF f; f.bd = h.bd; f.spx = h.nm; bats::SimplicialComplex X(nv, h.bd.size() - 1); { sim::Off o; for (auto& k : h.nm) for (auto s : k) X.add(s); } zz::ZigzagFiltration<bats::SimplicialComplex, T> Z; { sim::Sys s; Z = zz::ZigzagFiltration<bats::SimplicialComplex, T>(X, v); } check<F, T>(h, Z); }
  else { // one interval at a time, in an order in which a cell's faces are already known
    zz::ZigzagFiltration<bats::SimplicialComplex, T> Z; struct E { size_t k, i, w; }; std::vector<E> todo; size_t rounds = 0; for (auto& k : v) for (auto& c : k) rounds = std::max(rounds, c.size()); for (size_t w = 0; w < rounds; w++) for (size_t k = 0; k < v.size(); k++) for (size_t i = 0; i < v[k].size(); i++) if (w < v[k][i].size()) todo.push_back({k, i, w});
    for (auto& e : todo) { auto s = h.nm[e.k][e.i]; sim::Sys q; cell_ind c = Z.add(v[e.k][e.i][e.w].first, v[e.k][e.i][e.w].second, s); sim::Off o; need(c.dim == e.k && c.ind == e.i, "wrong-index", "adding %s returns cell %zu of dimension %zu, expected %zu", show(s).c_str(), (size_t) c.ind, (size_t) c.dim, e.i); }
    sim::Off o; need(Z.vals() == v, "wrong-value", "stored intervals differ from those added"); for (size_t k = 0; k < v.size(); k++) need(Z.ncells(k) == v[k].size() && Z.vals(k) == v[k], "wrong-value", "stored intervals of dimension %zu differ", k); check<F, T>(h, Z); }
}
template <class F, class T> void cubical_h() {
  use_field<F>(); size_t d = rnd(1, 3); RF f = gen_cubical(d, rnd(1, 3), 3); H h = history(f, rnd(-3, 0), rnd(0, 4), rnd(0, 2)); sim_desc("%s ", show(h).c_str()); probe_h<T>(h); auto v = values<T>(h, false); bats::CubicalComplex X(d); { sim::Off o; for (auto& k : h.nm) for (auto s : k) X.add(s); }
  zz::ZigzagFiltration<bats::CubicalComplex, T> Z; { sim::Sys s; Z = zz::ZigzagFiltration<bats::CubicalComplex, T>(X, v); } check<F, T>(h, Z);
}
template <class F, class T> void cell_h() {
  use_field<F>(); H h = history(gen_cells(rnd(1, 3), rnd(1, 5)), rnd(-3, 0), rnd(0, 4), rnd(0, 2)); sim_desc("%s ", show(h).c_str()); probe_h<T>(h); auto v = values<T>(h, sim::chance(1, 4)); bats::CellComplex X; { sim::Off o; RF f; f.bd = h.bd; f.val.resize(h.bd.size()); X = cellcomplex(f); }
  zz::ZigzagFiltration<bats::CellComplex, T> Z; { sim::Sys s; Z = zz::ZigzagFiltration<bats::CellComplex, T>(X, v); } check<F, T>(h, Z);
}
#define FT_(f) swarm_env(); switch (pick_field(6, 3)) { case 0: f<F2, double>(); break; case 1: f<F3, double>(); break; case 2: f<F5, int>(); break; case 3: f<FQ, double>(); break; case 4: f<F2, int>(); break; default: f<F3, float>(); }
SIM_SCENARIO(H03, simplicial, 4) { FT_(simplicial_h) }
SIM_SCENARIO(H03, cubical, 2) { FT_(cubical_h) }
SIM_SCENARIO(H03, cells, 2) { FT_(cell_h) }
// cells given together with all their missing faces: each new cell takes the interval, a cell that is known gets one more
static std::vector<std::pair<Spx, int>> sides(const Spx& s, bool cubes) { std::vector<std::pair<Spx, int>> r; if (cubes) { cube_faces(s, r); return r; } for (size_t i = 0; s.size() > 1 && i < s.size(); i++) { Spx t = s; t.erase(t.begin() + i); r.push_back({t, i % 2 ? -1 : 1}); } return r; }
static void with_sides(const Spx& s, bool cubes, SpxSet& out) { if (!out.insert(s).second) return; for (auto& x : sides(s, cubes)) with_sides(x.first, cubes, out); }
template <class F, class T, class Cx> void recursive_h(bool cubes) {
  use_field<F>(); size_t d = rnd(1, 3); int nv = rnd(1, 5), steps = rnd(1, 8), lo = rnd(-3, 0), hi = rnd(0, 5); typedef zz::ZigzagFiltration<Cx, T> ZF; ZF Z; if (cubes) { sim::Sys q; Z = ZF(d); }
  std::map<Spx, std::vector<std::pair<int, int>>> w; std::vector<std::vector<Spx>> nm; auto dim = [&](const Spx& s) { if (!cubes) return s.size() - 1; return cube_dim(s); };
  for (int i = 0; i < steps; i++) {
    Spx s; if (!w.empty() && sim::chance(1, 4)) { auto it = w.begin(); std::advance(it, sim::pick((unsigned) w.size())); s = it->first; } else if (cubes) for (size_t k = 0; k < d; k++) { size_t a = sim::pick(2); s.push_back(a); s.push_back(a + sim::pick(2)); } else { std::set<size_t> t; size_t n = 1 + sim::pick(4); for (size_t q = 0; q < n; q++) t.insert(sim::pick((unsigned) nv)); s = Spx(t.begin(), t.end()); }
    SpxSet all, fresh; with_sides(s, cubes, all); for (auto& x : all) if (!w.count(x)) fresh.insert(x); if (fresh.empty()) fresh.insert(s); bool known = w.count(s);
    std::vector<std::pair<int, int>> room{{lo, hi}}; for (auto& x : fresh) for (auto& y : sides(x, cubes)) if (w.count(y.first) && !fresh.count(y.first)) { std::vector<std::pair<int, int>> r; for (auto& a : room) for (auto& b : w[y.first]) { int l = std::max(a.first, b.first), u = std::min(a.second, b.second); if (l <= u) r.push_back({l, u}); } room = r; }
    std::vector<std::pair<int, int>> t; for (auto& a : room) { std::vector<std::pair<int, int>> o; intervals(a.first, a.second, 1, o); for (auto& x : o) { bool clash = false; if (known) for (auto& y : w[s]) clash |= x.first <= y.second && y.first <= x.second; if (!clash) t.push_back(x); } } if (t.empty()) continue; auto iv = t[sim::pick((unsigned) t.size())];
    sim_desc("%s[%d,%d]; ", show(s).c_str(), iv.first, iv.second); std::vector<cell_ind> r; bool rv = sim::chance(1, 2); { Spx a = s; sim::Sys q; r = rv ? Z.add_recursive(real<T>(iv.first), real<T>(iv.second), Spx(a)) : Z.add_recursive(real<T>(iv.first), real<T>(iv.second), a); }
    sim::Off o; SpxSet got; for (auto& c : r) { Spx g; for (auto x : Z.complex().get_cell(c.dim, c.ind)) g.push_back(x); need(got.insert(g).second, "wrong-return", "%s is returned twice", show(g).c_str()); } need(got == fresh, "wrong-return", "%zu cells are returned, expected %zu", got.size(), fresh.size()); for (auto& x : fresh) { w[x].push_back(iv); if (known) sim_probe("again"); }
    for (auto& c : r) { if (nm.size() <= c.dim) nm.resize(c.dim + 1); if (nm[c.dim].size() <= c.ind) nm[c.dim].resize(c.ind + 1); Spx g; for (auto x : Z.complex().get_cell(c.dim, c.ind)) g.push_back(x); need(dim(g) == c.dim && (nm[c.dim][c.ind].empty() || nm[c.dim][c.ind] == g), "wrong-return", "%s is returned in place of another cell", show(g).c_str()); nm[c.dim][c.ind] = g; }
  }
  H h; h.nm = nm; h.bd.resize(nm.size()); h.when.resize(nm.size()); std::map<Spx, size_t> ix; for (size_t k = 0; k < nm.size(); k++) for (size_t i = 0; i < nm[k].size(); i++) { need(!nm[k][i].empty(), "wrong-return", "cell %zu of dimension %zu was never returned", i, k); ix[nm[k][i]] = i; std::vector<std::pair<size_t, int>> b; for (auto& x : sides(nm[k][i], cubes)) b.push_back({ix.at(x.first), x.second}); h.bd[k].push_back(b); h.when[k].push_back(w.at(nm[k][i])); }
  if (h.bd.empty()) return; auto v = values<T>(h, false); need(Z.vals() == v, "wrong-value", "stored intervals differ from those given");
  probe_h<T>(h); check<F, T>(h, Z);
}
SIM_SCENARIO(H03, recursive, 2) { swarm_env(); switch (sim::pick(5)) { case 0: recursive_h<F2, double, bats::SimplicialComplex>(false); break; case 1: recursive_h<F3, int, bats::SimplicialComplex>(false); break; case 2: recursive_h<F5, float, bats::SimplicialComplex>(false); break; case 3: recursive_h<F2, int, bats::CubicalComplex>(true); break; default: recursive_h<F3, double, bats::CubicalComplex>(true); } }
// preimages of intervals: the cells whose (single) interval meets the given one
template <class T> void levels() {
  bool cubes = sim::pick(2); size_t d = rnd(1, 3); RF f = cubes ? gen_cubical(d, rnd(1, 3), 3) : trimmed(gen_simplicial(rnd(1, 6), rnd(1, 5), rnd(0, 3))); H h = history(f, rnd(-3, 0), rnd(0, 4), 0); while (!cubes && h.bd.size() > 1 && h.bd.back().empty()) { h.bd.pop_back(); h.nm.pop_back(); h.when.pop_back(); } for (auto& k : h.when) for (auto& c : k) c.resize(1);
  for (size_t k = 1; k < h.when.size(); k++) for (size_t i = 0; i < h.when[k].size(); i++) for (auto& e : h.bd[k][i]) { auto& u = h.when[k][i][0]; auto& b = h.when[k - 1][e.first][0]; b.first = std::min(b.first, u.first); b.second = std::max(b.second, u.second); } for (size_t k = h.when.size(); k-- > 1;) for (size_t i = 0; i < h.when[k].size(); i++) for (auto& e : h.bd[k][i]) { auto& u = h.when[k][i][0]; auto& b = h.when[k - 1][e.first][0]; b.first = std::min(b.first, u.first); b.second = std::max(b.second, u.second); }
  auto v = values<T>(h, false); int n = rnd(1, 4); sim_desc("%s ", show(h).c_str());
  auto go = [&](auto& Z) { for (int q = 0; q < n; q++) { int a = rnd(-4, 5), b = rnd(-4, 5); sim_desc("[%d,%d] ", a, b); typename std::decay<decltype(Z.complex())>::type Y(Z.complex()); { sim::Sys s; Y = Z.levelset(real<T>(a), real<T>(b)); } std::vector<std::vector<Spx>> want(h.nm.size()); for (size_t k = 0; k < h.nm.size(); k++) for (size_t i = 0; i < h.nm[k].size(); i++) if (h.when[k][i][0].first <= b && a <= h.when[k][i][0].second) want[k].push_back(h.nm[k][i]);
    sim::Off o; bool some = false; for (size_t k = 0; k < want.size(); k++) { size_t c = k <= Y.maxdim() ? Y.ncells(k) : 0; need(c == want[k].size(), "wrong-levelset", "%zu cells of dimension %zu, expected %zu", c, k, want[k].size()); some |= c < h.nm[k].size() && c; for (size_t i = 0; i < c; i++) { Spx g; for (auto x : Y.get_cell(k, i)) g.push_back(x); need(g == want[k][i], "wrong-levelset", "cell %zu of dimension %zu is %s instead of %s", i, k, show(g).c_str(), show(want[k][i]).c_str()); } } if (some) sim_probe("proper-part"); } };
  if (cubes) { bats::CubicalComplex X(d); { sim::Off o; for (auto& k : h.nm) for (auto s : k) X.add(s); } zz::ZigzagFiltration<bats::CubicalComplex, T> Z(X, v); go(Z); }
  else { size_t nv = 0; for (auto& s : h.nm[0]) nv = std::max(nv, s[0] + 1); bats::SimplicialComplex X(nv, h.bd.size() - 1); { sim::Off o; for (auto& k : h.nm) for (auto s : k) X.add(s); } zz::ZigzagFiltration<bats::SimplicialComplex, T> Z(X, v); go(Z); }
}
SIM_SCENARIO(H03, levelset, 1) { swarm_env(); switch (sim::pick(3)) { case 0: levels<double>(); break; case 1: levels<int>(); break; default: levels<float>(); } }
// level-set extension of a function on vertices: a cell is present while all its vertices are
template <class F, class T> void extended_simplicial() {
  use_field<F>(); RF f = trimmed(gen_simplicial(rnd(1, 6), rnd(1, 5), rnd(0, 3))); size_t nv = 0; for (auto& s : f.spx[0]) nv = std::max(nv, s[0] + 1); for (size_t i = 0; i < nv; i++) if (std::find(f.spx[0].begin(), f.spx[0].end(), Spx{i}) == f.spx[0].end()) { f.spx[0].push_back({i}); f.bd[0].push_back({}); f.val[0].push_back(0); }
  int off = rnd(-6, 3), spread = rnd(1, 5), eps = rnd(0, 3); std::vector<int> g(nv); std::vector<T> f0; for (auto& x : g) { x = off + (int) sim::pick(spread); f0.push_back(real<T>(x)); }
  H h; h.bd = f.bd; h.nm = f.spx; h.when.resize(f.bd.size()); bool never = false; for (size_t k = 0; k < h.nm.size(); k++) for (auto& s : h.nm[k]) { int lo = g[s[0]], hi = g[s[0]]; for (auto q : s) { lo = std::min(lo, g[q]); hi = std::max(hi, g[q]); } h.when[k].push_back({{hi - eps, lo + eps}}); never = never || hi - eps > lo + eps; } sim_desc("%s eps=%d ", show(h).c_str(), eps);
  bats::SimplicialComplex X(nv, h.bd.size() - 1); { sim::Off o; for (auto& k : h.nm) for (auto s : k) X.add(s); } zz::ZigzagFiltration<bats::SimplicialComplex, T> Z; bool threw = false; { sim::Sys s; try { Z = zz::extend_zigzag_filtration(f0, X, real<T>(eps)); } catch (std::runtime_error&) { threw = true; } } if (never) sim_probe("radius-too-small"); need(threw == never, "wrong-refusal", "extension %s", threw ? "refused although every cell has a time" : "accepted although a cell is never present"); if (threw) return;
  sim::Off o; need(Z.vals() == values<T>(h, false), "wrong-value", "extension assigns the wrong intervals"); check<F, T>(h, Z);
}
template <class F, class T> void extended_cubical() {
  use_field<F>(); size_t n = rnd(2, 3); RF f = gen_cubical(3, rnd(1, 3), (int) n - 1); int off = rnd(-6, 3), spread = rnd(1, 5), eps = rnd(0, 3); std::vector<int> g(n * n * n); std::vector<T> f0; for (auto& x : g) { x = off + (int) sim::pick(spread); f0.push_back(real<T>(x)); }
  bats::CubicalComplex X(3); { sim::Off o; for (auto& k : f.spx) for (auto s : k) X.add(s); } H h; h.bd.resize(4); h.nm.resize(4); h.when.resize(4); bool never = false; std::vector<std::vector<std::vector<std::pair<T, T>>>> full(4); std::map<Cube, std::pair<size_t, size_t>> ix; 
  for (size_t k = 0; k < 4; k++) for (auto& c : f.spx[k]) { int lo = 1000, hi = -1000; for (size_t a = 0; a < 2; a++) for (size_t b = 2; b < 4; b++) for (size_t e = 4; e < 6; e++) { int v = g[c[e] + (c[b] + c[a] * n) * n]; lo = std::min(lo, v); hi = std::max(hi, v); } if (hi - eps > lo + eps) { never = true; continue; } full[k].push_back({{real<T>(hi - eps), real<T>(lo + eps)}}); std::vector<std::pair<Cube, int>> fs; cube_faces(c, fs); std::vector<std::pair<size_t, int>> b; for (auto& x : fs) b.push_back({ix.at(x.first).second, x.second}); ix[c] = {k, h.bd[k].size()}; h.bd[k].push_back(b); h.nm[k].push_back(c); h.when[k].push_back({{hi - eps, lo + eps}}); }
  sim_desc("%s eps=%d ", show(h).c_str(), eps); if (never) sim_probe("radius-too-small"); bool threw = false; std::vector<std::vector<std::vector<std::pair<T, T>>>> lv; { sim::Sys s; try { lv = zz::extend_levelset(f0, X, real<T>(eps), n); } catch (std::runtime_error&) { threw = true; } } need(threw == never, "wrong-refusal", "level-set extension %s", threw ? "refused although every cell has a time" : "accepted although a cell is never present"); if (!threw) need(lv == full, "wrong-value", "level-set extension assigns the wrong intervals");
  zz::ZigzagFiltration<bats::CubicalComplex, T> Z; { sim::Sys s; Z = zz::extend_zigzag_filtration(f0, X, real<T>(eps), n); } sim::Off o; while (full.size() > 1 && full.back().empty()) full.pop_back(); need(Z.vals() == full, "wrong-value", "extension assigns the wrong intervals"); check<F, T>(h, Z);
}
SIM_SCENARIO(H03, extension, 2) { swarm_env(); switch (pick_field(6, 2)) { case 0: extended_simplicial<F2, double>(); break; case 1: extended_simplicial<F3, int>(); break; case 2: extended_simplicial<FQ, float>(); break; case 3: extended_cubical<F2, double>(); break; case 4: extended_cubical<F3, int>(); break; default: extended_cubical<F5, float>(); } }
