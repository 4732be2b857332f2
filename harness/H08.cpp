#include "filt.hpp"
#include "diagrams.hpp"
#include "hom.hpp"
// Histories of operations on chain complexes, graded vector spaces and chain maps against dense matrices.
using namespace flt;
typedef std::vector<M> Mod; // d[0] is the 1 x n zero matrix
typedef std::vector<std::vector<size_t>> Inds;
static size_t mdim(const Mod& d, size_t k) { return k < d.size() ? d[k].c : 0; }
static Mod model(const RF& f) { Mod d; auto id = [](size_t n) { std::vector<size_t> p(n); for (size_t i = 0; i < n; i++) p[i] = i; return p; }; for (size_t k = 0; k < f.bd.size(); k++) d.push_back(k ? bd_matrix(f, k, id(f.n(k - 1)), id(f.n(k))) : M(1, f.n(0))); return d; }
// the sign of a boundary is the library's choice, but the same for every complex of a family in one dimension
template <class F> void adopt(const bats::ChainComplex<MT<F>>& C, Mod& d, const char* what, int family = 0) {
  sim::Off o; need(C.boundary.size() == d.size() && C.maxdim() + 1 == d.size(), "wrong-shape", "%s: %zu dimensions instead of %zu", what, C.boundary.size(), d.size());
  for (size_t k = 0; k < d.size(); k++) { M g = dense<F>(C[k], what); need(g.r == d[k].r && g.c == d[k].c, "wrong-shape", "%s: boundary in dimension %zu is %zux%zu instead of %zux%zu", what, k, g.r, g.c, d[k].r, d[k].c); need(same_boundary(g, d[k], k, family), "wrong-boundary", "%s: boundary in dimension %zu is %s instead of %s", what, k, orc::show(g).c_str(), orc::show(d[k]).c_str()); d[k] = g; }
}
template <class F> void same(const bats::ChainComplex<MT<F>>& C, const Mod& d, const char* what) {
  sim::Off o; need(C.boundary.size() == d.size() && C.maxdim() + 1 == d.size(), "wrong-shape", "%s: %zu dimensions instead of %zu", what, C.boundary.size(), d.size()); size_t tot = 0;
  for (size_t k = 0; k < d.size(); k++) { M g = dense<F>(C[k], what); need(g == d[k], "wrong-boundary", "%s: boundary in dimension %zu is %s instead of %s", what, k, orc::show(g).c_str(), orc::show(d[k]).c_str()); need(C.dim(k) == d[k].c, "wrong-dim", "%s: dim(%zu) is %zu instead of %zu", what, k, C.dim(k), d[k].c); tot += d[k].c; }
  need(C.dim() == tot, "wrong-dim", "%s: dim() is %zu instead of %zu", what, C.dim(), tot); need(C.is_valid_complex(), "not-a-complex", "%s: is_valid_complex is false", what);
}
static M dout(const Mod& d, size_t k) { return k ? d[k] : M(0, d[0].c); }
static M din(const Mod& d, size_t k) { return k + 1 < d.size() ? d[k + 1] : M(mdim(d, k), 0); }
static size_t betti(const Mod& d, size_t k) { return mdim(d, k) - rank(dout(d, k)) - rank(din(d, k)); }
template <class F> void homology_check(const bats::ChainComplex<MT<F>>& C, const Mod& d, const char* what) {
  typedef bats::ReducedChainComplex<MT<F>> R; using namespace bats; int alg = sim::pick(8); R r;
  { sim::Sys s; switch (alg) { case 0: case 1: r = R(C); break; case 2: r = R(C, standard_reduction_flag(), compute_basis_flag()); break; case 3: r = R(C, extra_reduction_flag(), compute_basis_flag()); break; case 4: r = R(C, standard_reduction_flag(), clearing_flag()); break; case 5: r = R(C, standard_reduction_flag(), compression_flag()); break; case 6: r = R(C, standard_reduction_flag()); break; default: { bats::ChainComplex<MT<F>> D(C); D.clear_compress_apparent_pairs(); r = R(D, standard_reduction_flag()); sim_probe("apparent-pairs"); } } }
  sim_desc("%s: homology (algorithm %d); ", what, alg); sim::Off o; bool basis = alg <= 3;
  for (size_t k = 0; k < d.size(); k++) { need(r.hdim(k) == betti(d, k), "wrong-betti", "%s: Betti number %zu is %zu instead of %zu (algorithm %d)", what, k, r.hdim(k), betti(d, k), alg); if (basis) node_check(r, dout(d, k), din(d, k), 0, k); }
}
static std::vector<size_t> perm(size_t n) { std::vector<size_t> p(n); for (size_t i = 0; i < n; i++) p[i] = i; int kind = sim::pick(4); if (kind == 0) std::reverse(p.begin(), p.end()); else if (kind == 1 && n > 1) std::rotate(p.begin(), p.begin() + 1, p.end()); else if (kind == 2 && n > 1) std::swap(p[sim::pick(n)], p[sim::pick(n)]); else for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[sim::pick(i)]); return p; }
static void permute(Mod& d, size_t k, const std::vector<size_t>& p, bool inverse) {
  auto q = p; if (!inverse) for (size_t i = 0; i < p.size(); i++) q[p[i]] = i; // new[i] = old[q[i]]
  if (k || true) d[k] = cols(d[k], q); if (k + 1 < d.size()) d[k + 1] = tr(cols(tr(d[k + 1]), q));
}
// indices of a random subcomplex: cells with everything their boundaries meet; in any order
static Inds closed_inds(const Mod& d) {
  std::vector<std::set<size_t>> s(d.size()); int dens = 1 + sim::pick(6);
  for (size_t k = d.size(); k-- > 0;) { for (size_t i = 0; i < d[k].c; i++) if (sim::chance(1, dens + 1)) s[k].insert(i); if (k) for (size_t j : s[k]) for (size_t i = 0; i < d[k].r; i++) if (!zero(d[k](i, j))) s[k - 1].insert(i); }
  Inds r; for (auto& x : s) { std::vector<size_t> v(x.begin(), x.end()); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[sim::pick(i)]); r.push_back(v); } return r;
}
static std::vector<size_t> sorted(std::vector<size_t> v) { std::sort(v.begin(), v.end()); return v; }
static std::vector<size_t> complement(const std::vector<size_t>& v, size_t n) { std::vector<bool> in(n); for (auto i : v) in[i] = true; std::vector<size_t> r; for (size_t i = 0; i < n; i++) if (!in[i]) r.push_back(i); return r; }
static M sub(const M& A, const std::vector<size_t>& r, const std::vector<size_t>& c) { return tr(cols(tr(cols(A, c)), r)); }
static Mod restrict_(const Mod& d, const Inds& keep) { Mod e; for (size_t k = 0; k < d.size(); k++) e.push_back(k ? sub(d[k], keep[k - 1], keep[k]) : M(1, keep[0].size())); return e; }
static Inds rest(const Mod& d, const Inds& in) { Inds r; for (size_t k = 0; k < d.size(); k++) r.push_back(complement(in[k], d[k].c)); return r; }
static Inds sorted(const Inds& in) { Inds r; for (auto& v : in) r.push_back(sorted(v)); return r; }
static Mod tensor(const Mod& A, const Mod& B, size_t top) {
  Mod d; std::vector<std::map<size_t, size_t>> off(top + 1); std::vector<size_t> n(top + 1);
  for (size_t k = 0; k <= top; k++) for (size_t a = 0; a <= k && a < A.size(); a++) if (k - a < B.size()) { off[k][a] = n[k]; n[k] += A[a].c * B[k - a].c; }
  for (size_t k = 0; k <= top; k++) { M D(k ? n[k - 1] : 1, n[k]); if (k) for (auto& o : off[k]) { size_t a = o.first, b = k - a, nb = B[b].c; for (size_t i = 0; i < A[a].c; i++) for (size_t j = 0; j < nb; j++) { size_t col = o.second + i * nb + j; if (a) for (size_t q = 0; q < A[a].r; q++) { auto& e = D(off[k - 1].at(a - 1) + q * nb + j, col); e = add(e, A[a](q, i)); } if (b) for (size_t q = 0; q < B[b].r; q++) { auto& e = D(off[k - 1].at(a) + i * B[b].r + q, col); e = add(e, a % 2 ? neg(B[b](q, j)) : B[b](q, j)); } } } d.push_back(D); }
  return d;
}
static RF gen_any(int& kind, bool small) { kind = sim::pick(3); int q = small ? 1 : 0; RF f = kind == 0 ? gen_simplicial(rnd(1, 6 - 2 * q), rnd(1, 5 - 2 * q), rnd(0, 3 - q)) : kind == 1 ? gen_cubical(rnd(1, 3 - q), rnd(1, 3 - q), 3) : gen_cells(rnd(1, 3), rnd(1, 5 - 2 * q)); if (kind != 1 && sim::chance(1, 2)) trim(f); return f; }
static std::string show(const Inds& in) { std::string s; for (auto& v : in) s += "{" + show(v, 0) + "}"; return s; }
template <class F> bats::ChainComplex<MT<F>> make(const RF& f, int kind) { sim::Sys s; bool named = sim::chance(1, 3); switch (kind) { case 0: { auto X = mk_simplicial(f); return named ? bats::Chain(X, F()) : bats::ChainComplex<MT<F>>(X); } case 1: { auto X = mk_cubical(f); return named ? bats::Chain(X, F()) : bats::ChainComplex<MT<F>>(X); } default: { auto X = mk_cells(f); return named ? bats::Chain(X, F()) : bats::ChainComplex<MT<F>>(X); } } }
template <class F> void algebra() {
  use_field<F>(); typedef bats::ChainComplex<MT<F>> C; struct X { C c; Mod d; }; std::vector<X> pool; size_t cap = zm(160, 240);
  int n0 = rnd(1, 3); for (int i = 0; i < n0; i++) { int kind; auto f = gen_any(kind, i > 0); sim_desc("complex %d (kind %d): %s ", i, kind, show(f).c_str()); X x; x.c = make<F>(f, kind); x.d = model(f); adopt<F>(x.c, x.d, "new complex", kind); pool.push_back(x); }
  int steps = rnd(1, zm(9)); char nm[40];
  for (int t = 0; t < steps; t++) {
    size_t i = sim::pick(pool.size()), j = sim::pick(pool.size()); int op = sim::pick(12); sim_desc("step %d: ", t);
    if (op <= 1) { size_t k = sim::pick(pool[i].d.size()); auto p = perm(pool[i].d[k].c); bool inv_ = op; sim_desc("%s %zu in dimension %zu by %s; ", inv_ ? "ipermute" : "permute", i, k, show(p, 0).c_str()); { sim::Sys s; if (inv_) pool[i].c.ipermute_basis(k, p); else pool[i].c.permute_basis(k, p); } permute(pool[i].d, k, p, inv_); sim_probe("one-dimension-permuted"); }
    else if (op <= 3) { Inds p; size_t lim = sim::chance(1, 4) ? rnd(0, (int) pool[i].d.size()) : pool[i].d.size(); for (size_t k = 0; k < lim; k++) p.push_back(perm(pool[i].d[k].c)); bool inv_ = op == 3; sim_desc("%s %zu in all dimensions by %s; ", inv_ ? "ipermute" : "permute", i, show(p).c_str()); { sim::Sys s; if (inv_) pool[i].c.ipermute_basis(p); else pool[i].c.permute_basis(p); } for (size_t k = 0; k < lim; k++) permute(pool[i].d, k, p[k], inv_); sim_probe("all-dimensions-permuted"); }
    else if (op <= 6) { auto in = closed_inds(pool[j].d); bool rel = op >= 5; sim_desc("%zu is the %s of %zu on %s; ", i, rel ? "quotient" : "subcomplex", j, show(in).c_str()); auto arg = in; C c; { sim::Sys s; c = rel ? pool[j].c.relative_complex(arg) : pool[j].c.subcomplex(arg); } Mod d = restrict_(pool[j].d, rel ? rest(pool[j].d, in) : sorted(in)); same<F>(pool[j].c, pool[j].d, "the complex a part was taken of"); pool[i].c = c; pool[i].d = d; sim_probe(rel ? "quotient" : "subcomplex"); }
    else if (op <= 8) { size_t top = pool[i].d.size() + pool[j].d.size() - 2, lim = top; bool all = sim::chance(1, 2); if (!all) lim = sim::pick((uint32_t) top + 2); std::vector<size_t> n(lim + 1); size_t tot = 0; for (size_t a = 0; a < pool[i].d.size(); a++) for (size_t b = 0; b < pool[j].d.size() && a + b <= lim; b++) tot += pool[i].d[a].c * pool[j].d[b].c; if (tot > cap) continue; sim_desc("tensor product of %zu and %zu up to %zu; ", i, j, lim); X x; { sim::Sys s; x.c = all ? tensor_product(pool[i].c, pool[j].c) : tensor_product(pool[i].c, pool[j].c, lim); } x.d = tensor(pool[i].d, pool[j].d, lim); snprintf(nm, sizeof nm, "step %d, product", t); same<F>(x.c, x.d, nm); homology_check<F>(x.c, x.d, nm); if (pool.size() < 4) pool.push_back(x); else pool[sim::pick(pool.size())] = x; sim_probe("tensor-product"); }
    else if (op == 9) { sim_desc("%zu is a copy of %zu; ", i, j); sim::Sys s; C c(pool[j].c); pool[i].c = c; c.boundary.clear(); pool[i].d = pool[j].d; }
    else { snprintf(nm, sizeof nm, "step %d, complex %zu", t, i); homology_check<F>(pool[i].c, pool[i].d, nm); }
    for (size_t q = 0; q < pool.size(); q++) { snprintf(nm, sizeof nm, "step %d, complex %zu", t, q); same<F>(pool[q].c, pool[q].d, nm); }
  }
  for (size_t q = 0; q < pool.size(); q++) { snprintf(nm, sizeof nm, "finally, complex %zu", q); homology_check<F>(pool[q].c, pool[q].d, nm); }
}
SIM_SCENARIO(H08, algebra, 4) { swarm_env(); switch (pick_field(4, 3)) { case 0: algebra<F2>(); break; case 1: algebra<F3>(); break; case 2: algebra<F5>(); break; default: algebra<FQ>(); } }
// ---- graded vector spaces of both degrees, plain and augmented
template <class F> void graded() {
  use_field<F>(); int kind; auto f = gen_any(kind, false); int deg = sim::pick(2) ? 1 : -1; bool aug = sim::chance(1, 2); sim_desc("kind %d degree %d %s %s ", kind, deg, aug ? "augmented" : "", show(f).c_str());
  bool plain = deg == -1 && !aug && sim::chance(1, 2); bats::DGVectorSpace<MT<F>> C; need(C.degree == -1, "wrong-degree", "an empty space has degree %d", C.degree); { sim::Sys s; if (plain) { switch (kind) { case 0: C = bats::DGVectorSpace<MT<F>>(mk_simplicial(f)); break; case 1: C = bats::DGVectorSpace<MT<F>>(mk_cubical(f)); break; default: C = bats::DGVectorSpace<MT<F>>(mk_cells(f)); } } else switch (kind) { case 0: C = bats::DGVectorSpace<MT<F>>(mk_simplicial(f), deg, aug); break; case 1: C = bats::DGVectorSpace<MT<F>>(mk_cubical(f), deg, aug); break; default: C = bats::DGVectorSpace<MT<F>>(mk_cells(f), deg, aug); } }
  Mod d = model(f); d[0] = M(aug, f.n(0)); for (auto& x : d[0].a) x = mk(1); d.push_back(M(f.n(f.maxdim()), 0)); size_t top = f.maxdim(); bool first = true;
  auto check = [&](const char* what) {
    sim::Off o; need(C.degree == deg && C.differential.size() == d.size() && C.maxdim() == (ssize_t) top, "wrong-shape", "%s: degree %d, %zu maps", what, C.degree, C.differential.size());
    for (size_t k = 0; k < d.size(); k++) { M g = dense<F>(C.differential[k], what); if (deg > 0) g = tr(g); need(g.r == d[k].r && g.c == d[k].c, "wrong-shape", "%s: map %zu has another shape", what, k); if (first && k) { need(same_boundary(g, d[k], k), "wrong-boundary", "%s: map %zu is %s instead of %s", what, k, orc::show(g).c_str(), orc::show(d[k]).c_str()); d[k] = g; } need(g == d[k], "wrong-boundary", "%s: map %zu is %s instead of %s", what, k, orc::show(g).c_str(), orc::show(d[k]).c_str()); }
    first = false; for (size_t k = 0; k <= top; k++) { need(C.dim(k) == d[k].c, "wrong-dim", "%s: dim(%zu) is %zu instead of %zu", what, k, C.dim(k), d[k].c); need(&C[k] == &C.differential[deg < 0 ? k : k + 1], "wrong-boundary", "%s: the map of dimension %zu is another one", what, k); }
    for (size_t k = deg < 0; k < top + 1 + (deg < 0); k++) need(C.is_differential(k), "not-a-complex", "%s: is_differential(%zu) is false", what, k);
  };
  check("new"); int steps = rnd(0, 5);
  for (int t = 0; t < steps; t++) {
    int op = sim::pick(deg < 0 ? 5 : 3); size_t k = sim::pick((uint32_t) top + 1);
    if (op == 0) { bats::DGVectorSpace<MT<F>> D(C); C = D; sim_desc("copy; "); }
    else if (op == 1 || op == 3) { auto p = perm(d[k].c); bool inv_ = op == 1; sim_desc("%s dimension %zu by %s; ", inv_ ? "ipermute" : "permute", k, show(p, 0).c_str()); { sim::Sys s; if (inv_) C.ipermute_basis(k, p); else C.permute_basis(k, p); } permute(d, k, p, inv_); }
    else { Inds p; for (size_t q = 0; q <= top; q++) p.push_back(perm(d[q].c)); bool inv_ = op == 2; sim_desc("%s by %s; ", inv_ ? "ipermute" : "permute", show(p).c_str()); { sim::Sys s; if (inv_) C.ipermute_basis(p); else C.permute_basis(p); } for (size_t q = 0; q <= top; q++) permute(d, q, p[q], inv_); }
    check("after a permutation"); sim_probe(deg < 0 ? "chain-permuted" : "cochain-permuted");
  }
  bats::ReducedDGVectorSpace<MT<F>> r; int alg = sim::pick(3); sim_desc("algorithm %d ", alg); { sim::Sys s; if (alg == 0) r = bats::ReducedDGVectorSpace<MT<F>>(C); else if (alg == 1) r = bats::ReducedDGVectorSpace<MT<F>>(C, bats::standard_reduction_flag(), bats::compute_basis_flag()); else r = bats::ReducedDGVectorSpace<MT<F>>(C, bats::extra_reduction_flag(), bats::compute_basis_flag()); }
  for (size_t k = 0; k <= top; k++) { if (deg < 0) node_check(r, d[k], d[k + 1], 0, k); else node_check(r, tr(d[k + 1]), tr(d[k]), 0, k); } if (aug) sim_probe("augmented");
}
SIM_SCENARIO(H08, graded, 2) { swarm_env(); switch (pick_field(4, 3)) { case 0: graded<F2>(); break; case 1: graded<F3>(); break; case 2: graded<F5>(); break; default: graded<FQ>(); } }
// ---- chain maps, relative ones, and what they induce in (relative) homology
static SpxSet random_sub(const SpxSet& X) { SpxSet A; int n = sim::pick(4); while (n-- && !X.empty()) { auto it = X.begin(); std::advance(it, sim::pick((uint32_t) X.size())); add_closed(A, *it); } if (sim::chance(1, 12)) A = X; return A; }
static std::vector<std::vector<Spx>> shuffled(const SpxSet& X, size_t top) { auto c = by_dim(X, (int) top); for (auto& k : c) for (size_t i = k.size(); i > 1; i--) std::swap(k[i - 1], k[sim::pick(i)]); return c; }
static bats::SimplicialComplex cpx(const std::vector<std::vector<Spx>>& c, bool empty_dims) { size_t top = c.size() - 1; if (!empty_dims) while (top && c[top].empty()) top--; bats::SimplicialComplex X(c[0].size(), top); for (auto& k : c) for (auto s : k) X.add(s); return X; }
template <class F> void maps() {
  use_field<F>(); size_t top = rnd(0, 2); SpxSet X, Y; int nv = rnd(1, zm(6)), nw = rnd(1, zm(6)); auto fill = [&](SpxSet& S, int n, int m) { for (int t = 0; t < m; t++) { std::set<size_t> s; int sz = rnd(1, (int) top + 1); for (int q = 0; q < sz; q++) s.insert(rnd(0, n - 1)); add_closed(S, Spx(s.begin(), s.end())); } };
  fill(X, nv, rnd(1, zm(7))); fill(Y, nw, rnd(0, zm(6))); std::vector<size_t> f0; int kind = sim::pick(3); for (int v = 0; v < nv; v++) f0.push_back(kind == 0 ? std::min(v, nw - 1) : kind == 1 ? (v + 1) % nw : sim::pick(nw));
  auto img = [&](const SpxSet& S, SpxSet& T) { for (auto& s : S) { std::set<size_t> t; for (auto v : s) t.insert(f0[v]); add_closed(T, Spx(t.begin(), t.end())); } }; img(X, Y); SpxSet A = random_sub(X), B = random_sub(Y); img(A, B);
  auto cx = shuffled(X, top), cy = shuffled(Y, top), ca = shuffled(A, top), cb = shuffled(B, top); bool incl = kind == 0 && nv <= nw && sim::chance(1, 2); bool ed = sim::chance(1, 2);
  for (auto c : {&cx, &ca, &cy, &cb}) { for (auto& k : *c) for (auto& s : k) sim_desc("%s", show(s).c_str()); sim_desc(" / "); } sim_desc("map %s %s%s ", show(f0, 0).c_str(), incl ? "inclusion " : "", ed ? "" : "short parts ");
  auto bx = cpx(cx, true), by = cpx(cy, true), ba = cpx(ca, ed), bb = cpx(cb, ed); typedef bats::ChainComplex<MT<F>> C; typedef bats::ChainMap<MT<F>> CM; C X0, Y0, X1, Y1, A0; CM f, g, h; bats::CellularMap cf; bool named = sim::chance(1, 3);
  Inds ix, iy; std::vector<M> mf; Mod dx, dy; auto pos = [](const std::vector<std::vector<Spx>>& all, const std::vector<std::vector<Spx>>& part) { Inds r; for (size_t k = 0; k < all.size(); k++) { std::vector<size_t> v; for (auto& s : part[k]) v.push_back(std::find(all[k].begin(), all[k].end(), s) - all[k].begin()); r.push_back(v); } return r; };
  ix = pos(cx, ca); iy = pos(cy, cb); for (size_t k = 0; k <= top; k++) { mf.push_back(map_ref(cx[k], cy[k], f0)); dx.push_back(k ? boundary(cx[k - 1], cx[k]) : M(1, cx[0].size())); dy.push_back(k ? boundary(cy[k - 1], cy[k]) : M(1, cy[0].size())); }
  { auto jx = ix, jy = iy; sim::Sys s; if (incl) cf = bats::SimplicialMap(bx, by); else cf = bats::SimplicialMap(bx, by, f0); f = named ? bats::Chain(cf, F()) : CM(cf); g = CM(cf, bx, ba, by, bb); h = f.relative_map(jy, jx); X0 = C(bx); Y0 = C(by); if (named) { X1 = bats::Chain(bx, ba, F()); Y1 = bats::Chain(by, bb, F()); } else { X1 = C(bx, ba); Y1 = C(by, bb); } }
  adopt<F>(X0, dx, "source"); adopt<F>(Y0, dy, "target"); Mod ex = restrict_(dx, rest(dx, ix)), ey = restrict_(dy, rest(dy, iy)); same<F>(X1, ex, "relative source"); same<F>(Y1, ey, "relative target");
  auto rx = rest(dx, ix), ry = rest(dy, iy); std::vector<M> mg; need(f.maxdim() == top && g.maxdim() == top && h.maxdim() == top, "wrong-shape", "chain maps up to %zu %zu %zu instead of %zu", f.maxdim(), g.maxdim(), h.maxdim(), top);
  for (size_t k = 0; k <= top; k++) { M want = sub(mf[k], ry[k], rx[k]); mg.push_back(want); M a = dense<F>(f[k], "chain map"), b = dense<F>(g[k], "relative chain map"), c = dense<F>(h[k], "relative map"); need(a == mf[k], "wrong-map", "dimension %zu: the map is %s instead of %s", k, orc::show(a).c_str(), orc::show(mf[k]).c_str()); need(b == want, "wrong-map", "dimension %zu: the relative map is %s instead of %s", k, orc::show(b).c_str(), orc::show(want).c_str()); need(c == want, "wrong-map", "dimension %zu: the map between quotients is %s instead of %s", k, orc::show(c).c_str(), orc::show(want).c_str()); }
  { bats::DGLinearMap<MT<F>> d0, d1; { sim::Sys s; d0 = sim::chance(1, 2) ? bats::DGLinearMap<MT<F>>(cf) : bats::DGLinearMap<MT<F>>(cf, -1); d1 = bats::DGLinearMap<MT<F>>(cf, 1); } for (size_t k = 0; k <= top; k++) { M a = dense<F>(d0[k], "graded map"), b = dense<F>(d1[k], "dual graded map"), w(mf[k].c, mf[k].r); for (size_t i = 0; i < w.r; i++) for (size_t j = 0; j < w.c; j++) w(i, j) = mf[k](j, i); need(a == mf[k] && b == w, "wrong-map", "dimension %zu: the graded maps are %s and %s instead of %s and its transpose", k, orc::show(a).c_str(), orc::show(b).c_str(), orc::show(mf[k]).c_str()); } }
  bool rel = sim::chance(2, 3); typedef bats::ReducedChainComplex<MT<F>> R; R P, Q; std::vector<MT<F>> ind; { sim::Sys s; P = rel ? R(X1) : R(X0); Q = rel ? R(Y1) : R(Y0); for (size_t k = 0; k <= top; k++) ind.push_back(bats::induced_map(rel ? (sim::chance(1, 2) ? g : h) : f, P, Q, k)); }
  const Mod &sx = rel ? ex : dx, &sy = rel ? ey : dy;
  for (size_t k = 0; k <= top; k++) { Node n = node_check(P, dout(sx, k), din(sx, k), 0, k), m = node_check(Q, dout(sy, k), din(sy, k), 1, k); M a = dense<F>(ind[k], "induced map"); edge_check(a, n, m, rel ? mg[k] : mf[k], 0, k); if (a.r && a.c && !is_zero(a)) sim_probe(rel ? "nonzero-relative-map" : "nonzero-map"); }
  // a map between the wrong complexes is refused
  for (size_t k = 0; k <= top; k++) { bool fits = rel ? mf[k].c == ex[k].c && mf[k].r == ey[k].c : mg[k].c == dx[k].c && mg[k].r == dy[k].c; if (fits) continue; bool threw = false; try { sim::Sys s; bats::induced_map(rel ? f : g, P, Q, k); } catch (std::runtime_error&) { threw = true; } need(threw, "no-error", "dimension %zu: a chain map of another shape was accepted", k); sim_probe("mismatch-refused"); }
}
SIM_SCENARIO(H08, maps, 3) { swarm_env(); switch (pick_field(4, 3)) { case 0: maps<F2>(); break; case 1: maps<F3>(); break; case 2: maps<F5>(); break; default: maps<FQ>(); } }
