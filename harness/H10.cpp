#include "common.hpp"
#include "kinds.hpp"
#include "exhaust.hpp"
// Products of complexes: tensor products, Eilenberg-Zilber maps, homology of products, connecting maps of unions.
using namespace kinds;
typedef bats::SimplicialComplex SC; typedef bats::LightSimplicialComplex<size_t> LU; typedef bats::LightSimplicialComplex<size_t, std::unordered_map<size_t, size_t>> LM;
template <class V> static Spx wide(const V& v) { return Spx(v.begin(), v.end()); }
static const bool quiet_ = (std::cout.setstate(std::ios::failbit), true);
template <class Fn, class Dg> static auto run(Fn op, Dg dgst, const char* what) {
  if (sim::chance(1, 6)) { sim_probe("exhausted"); exhaust([&]() -> uint64_t { sim::Sys s; auto R = op(); sim::Off o; return dgst(R); }, [] { return (uint64_t) 0; }, what); }
  sim::Sys s; return op();
}
// cells in the order in which they are added (by dimension, shuffled), all vertices present
typedef std::vector<std::vector<Spx>> Cells;
static Cells some_cells(int nv, int facets, size_t dmax) {
  SpxSet all; for (int i = 0; i < nv; i++) all.insert({(size_t) i}); for (int f = 0; f < facets; f++) { std::set<size_t> s; int d = rnd(1, (int) dmax + 1); for (int t = 0; t < d; t++) s.insert(sim::pick(nv)); add_closed(all, Spx(s.begin(), s.end())); } if (nv > 2 && sim::chance(1, 3)) { size_t d = std::min<size_t>(rnd(2, (int) dmax + 1), nv - 1); Spx v; for (int i = 0; i < nv; i++) v.push_back(i); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[sim::pick(i)]); v.resize(d + 1); std::sort(v.begin(), v.end()); for (size_t i = 0; i <= d; i++) { Spx t = v; t.erase(t.begin() + i); add_closed(all, t); } }
  Cells c(dmax + 1); for (auto& s : all) c[s.size() - 1].push_back(s); bool sh = sim::chance(2, 3); for (auto& k : c) if (sh) for (size_t i = k.size(); i > 1; i--) std::swap(k[i - 1], k[sim::pick(i)]); while (c.size() > 1 && c.back().empty()) c.pop_back(); return c;
}
static Cells part_of(const Cells& c, int keep) { SpxSet all; for (auto& k : c) for (auto& s : k) if ((int) sim::pick(6) < keep) add_closed(all, s); Cells r(c.size()); for (auto& k : c) for (auto& s : k) if (all.count(s)) r[s.size() - 1].push_back(s); while (r.size() > 1 && r.back().empty()) r.pop_back(); for (auto& k : r) if (sim::chance(1, 2)) std::reverse(k.begin(), k.end()); return r; }
static void desc(const char* n, const Cells& c) { sim_desc("%s: ", n); for (auto& k : c) for (auto& s : k) sim_desc("%s", show(s).c_str()); sim_desc(" "); }
template <class C> static C build(const Cells& c, size_t n, size_t top) { C X(n, std::max(top, c.size() - 1)); for (auto& k : c) for (auto s : k) X.add(s); return X; }
static size_t nc(const Cells& c, size_t k) { return k < c.size() ? c[k].size() : 0; }
static S num(int n) { return PP() ? mk(((n % PP()) + PP()) % PP()) : mk(n); }
template <class Cx> static M bdry(const Cx& X, size_t k) { sim::Off o; M B; { int p = PP(); PP() = 0; B = dense<int>(MT<int>(X.boundary_csc(k)), "boundary"); PP() = p; } M R(B.r, B.c); for (size_t i = 0; i < B.a.size(); i++) R.a[i] = num((int) B.a[i].n); return R; }
struct Block { size_t p, q, at, nx, ny; };
static std::vector<Block> blocks(const Cells& x, const Cells& y, size_t dim) { std::vector<Block> b; size_t at = 0; for (size_t p = 0; p <= dim; p++) { size_t q = dim - p; if (!nc(x, p) || !nc(y, q)) continue; b.push_back({p, q, at, nc(x, p), nc(y, q)}); at += nc(x, p) * nc(y, q); } return b; }
static size_t total(const std::vector<Block>& b) { return b.empty() ? 0 : b.back().at + b.back().nx * b.back().ny; }
// boundary of a tensor product from the boundaries of its factors
template <class Cx> static M tensor(const Cells& x, const Cx& X, const Cells& y, const Cx& Y, size_t dim) {
  auto s = blocks(x, y, dim), t = blocks(x, y, dim - 1); M D(total(t), total(s));
  for (auto& b : s) for (auto& c : t) { if (c.p + 1 == b.p && c.q == b.q) { M d = bdry(X, b.p); for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) for (size_t k = 0; k < b.ny; k++) D(c.at + i * b.ny + k, b.at + j * b.ny + k) = d(i, j); } if (c.p == b.p && c.q + 1 == b.q) { M d = bdry(Y, b.q); for (size_t k = 0; k < b.nx; k++) for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) D(c.at + k * c.ny + i, b.at + k * b.ny + j) = b.p % 2 ? neg(d(i, j)) : d(i, j); } } return D;
}
static SpxSet product_cells(const Cells& x, const Cells& y, size_t n, size_t top) {
  SpxSet X, Y, want; for (auto& k : x) X.insert(k.begin(), k.end()); for (auto& k : y) Y.insert(k.begin(), k.end()); size_t a = 0, b = 0; for (auto& s : X) a = std::max(a, s.back() + 1); for (auto& s : Y) b = std::max(b, s.back() + 1);
  std::function<void(Spx, Spx, Spx)> go = [&](Spx s, Spx p, Spx q) { if (!s.empty()) { if (p.size() + q.size() - 2 > top) return; want.insert(s); } size_t i0 = p.empty() ? 0 : p.back(), j0 = q.empty() ? 0 : q.back(); for (size_t i = i0; i < a; i++) for (size_t j = j0; j < b; j++) { if (!s.empty() && i == i0 && j == j0) continue; Spx s2 = s, p2 = p, q2 = q; s2.push_back(i + n * j); if (p2.empty() || p2.back() != i) p2.push_back(i); if (q2.empty() || q2.back() != j) q2.push_back(j); if (X.count(p2) && Y.count(q2)) go(s2, p2, q2); } }; go({}, {}, {}); return want;
}
// checks the three parts of an Eilenberg-Zilber result and returns the cells of the product in order
template <class F, class Cx> static Cells check_ez(const Cells& x, const Cx& X, const Cells& y, const Cx& Y, size_t top, const bats::ChainComplex<MT<F>>& T, const bats::ChainMap<MT<F>>& f, const Cx& XY) {
  sim::Off o; size_t n = nc(x, 0); Cells z(top + 1); SpxSet got, want = product_cells(x, y, n, top);
  for (size_t k = 0; k <= top; k++) for (size_t i = 0; i < XY.ncells(k); i++) { Spx s = wide(XY.get_simplex(k, i)); need(s.size() == k + 1 && got.insert(s).second, "duplicate-cell", "%s is listed twice", show(s).c_str()); z[k].push_back(s); auto t = XY.get_simplex(k, i); need(XY.find_idx(t) == i, "wrong-lookup", "%s has index %zu", show(s).c_str(), i); }
  if (got != want) { std::string miss, extra; for (auto& s : want) if (!got.count(s)) miss += show(s); for (auto& s : got) if (!want.count(s)) extra += show(s); sim_fail("wrong-product", "the product: missing %s extra %s", miss.c_str(), extra.c_str()); }
  need(T.maxdim() == top && f.maxdim() == top, "wrong-shape", "tensor product of dimension %zu, map of dimension %zu, asked for %zu", T.maxdim(), f.maxdim(), top); std::vector<M> fm;
  for (size_t k = 0; k <= top; k++) {
    auto b = blocks(x, y, k); need(T.dim(k) == total(b), "wrong-shape", "the tensor product has dimension %zu in degree %zu instead of %zu", T.dim(k), k, total(b)); M t = dense<F>(T[k], "tensor product"); if (k) { M w = tensor(x, X, y, Y, k); need(t == w, "wrong-boundary", "the boundary of the tensor product in degree %zu is %s instead of %s", k, orc::show(t).c_str(), orc::show(w).c_str()); }
    M m = dense<F>(f[k], "Eilenberg-Zilber map"); need(m.r == z[k].size() && m.c == total(b), "wrong-shape", "the map in degree %zu is %zux%zu instead of %zux%zu", k, m.r, m.c, z[k].size(), total(b)); fm.push_back(m);
    for (auto& c : b) for (size_t i = 0; i < c.nx; i++) for (size_t j = 0; j < c.ny; j++) for (size_t r = 0; r < z[k].size(); r++) { std::set<size_t> p, q; for (auto v : z[k][r]) { p.insert(v % n); q.insert(v / n); } bool on = Spx(p.begin(), p.end()) == x[c.p][i] && Spx(q.begin(), q.end()) == y[c.q][j]; S v = m(r, c.at + i * c.ny + j); if (on && k == 0) need(eq(v, num(1)), "wrong-map", "a vertex is mapped with coefficient %s", str(v).c_str()); else if (on) need(eq(v, num(1)) || eq(v, num(-1)), "wrong-map", "%s x %s is mapped to %s with coefficient %s", show(x[c.p][i]).c_str(), show(y[c.q][j]).c_str(), show(z[k][r]).c_str(), str(v).c_str()); else need(zero(v), "wrong-map", "%s x %s is mapped to %s outside it", show(x[c.p][i]).c_str(), show(y[c.q][j]).c_str(), show(z[k][r]).c_str()); }
    if (k) { M l = bdry(XY, k) * m, r = fm[k - 1] * t; need(l == r, "not-a-chain-map", "in degree %zu the boundary of the image is %s, the image of the boundary %s", k, orc::show(l).c_str(), orc::show(r).c_str()); }
  } return z;
}
template <class F, class Cx> static void ez(int nmax, size_t dmax) {
  use_field<F>(); int a = rnd(1, nmax), b = rnd(1, nmax); auto x = some_cells(a, rnd(0, 3), dmax), y = some_cells(b, rnd(0, 3), dmax); size_t top = sim::chance(1, 2) ? x.size() + y.size() - 2 : rnd(0, 4); desc("X", x); desc("Y", y); sim_desc("up to %zu over %d ", top, PP()); auto X = build<Cx>(x, a, rnd(0, 2)), Y = build<Cx>(y, b, rnd(0, 2));
  auto R = run([&] { return bats::EilenbergZilber(X, Y, top, F()); }, [](const auto& r) { return H(H(dch<F>(std::get<0>(r)), dcm<F>(std::get<1>(r))), dx(std::get<2>(r))); }, "Eilenberg-Zilber map"); check_ez<F, Cx>(x, X, y, Y, top, std::get<0>(R), std::get<1>(R), std::get<2>(R));
}
#define FIELDS4(call) switch (sim::pick(4)) { case 0: { typedef F2 F_; call; break; } case 1: { typedef F3 F_; call; break; } case 2: { typedef F5 F_; call; break; } default: { typedef FQ F_; call; } }
template <class F> static void ez_kinds() { switch (sim::pick(3)) { case 0: ez<F, SC>(zm(4, 5), 2); break; case 1: ez<F, LU>(zm(4, 5), 2); break; default: ez<F, LM>(3, 2); } }
SIM_SCENARIO(H10, product_map, 3) { swarm_env(); FIELDS4(ez_kinds<F_>()) }
// ---- pairs of spaces
static M pickrc(const M& A, const std::vector<size_t>& r, const std::vector<size_t>& c) { M B(r.size(), c.size()); for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < c.size(); j++) B(i, j) = A(r[i], c[j]); return B; }
template <class F> static void pairs() {
  use_field<F>(); int a = rnd(1, zm(4, 5)), b = rnd(1, zm(4, 5)); auto x = some_cells(a, rnd(0, 3), 2), y = some_cells(b, rnd(0, 3), 2), xa = part_of(x, rnd(0, 4)), yb = part_of(y, rnd(0, 4)); size_t top = sim::chance(1, 2) ? x.size() + y.size() - 2 : rnd(0, 4); desc("X", x); desc("A", xa); desc("Y", y); desc("B", yb); sim_desc("up to %zu over %d ", top, PP()); auto X = build<SC>(x, a, 0), Y = build<SC>(y, b, 0), A = build<SC>(xa, a, 0), B = build<SC>(yb, b, 0);
  auto R = run([&] { return bats::EilenbergZilber(X, A, Y, B, top, F()); }, [](const auto& r) { return H(H(dch<F>(std::get<0>(r)), dcm<F>(std::get<1>(r))), dch<F>(std::get<2>(r))); }, "relative Eilenberg-Zilber map"); auto W = [&] { sim::Sys s; return bats::EilenbergZilber(X, Y, top, F()); }(); auto& XY = std::get<2>(W); auto z = check_ez<F, SC>(x, X, y, Y, top, std::get<0>(W), std::get<1>(W), XY);
  sim::Off o; SpxSet SA, SB; for (auto& k : xa) SA.insert(k.begin(), k.end()); for (auto& k : yb) SB.insert(k.begin(), k.end()); auto &T = std::get<0>(R), &C = std::get<2>(R); auto& f = std::get<1>(R); need(T.maxdim() == top && C.maxdim() == top && f.maxdim() == top, "wrong-shape", "dimensions %zu, %zu and %zu instead of %zu", T.maxdim(), f.maxdim(), C.maxdim(), top); std::vector<size_t> tk, zk;
  for (size_t k = 0; k <= top; k++) {
    std::vector<size_t> t, r; for (auto& c : blocks(x, y, k)) for (size_t i = 0; i < c.nx; i++) for (size_t j = 0; j < c.ny; j++) if (!SA.count(x[c.p][i]) && !SB.count(y[c.q][j])) t.push_back(c.at + i * c.ny + j); for (size_t i = 0; i < z[k].size(); i++) { std::set<size_t> p, q; for (auto v : z[k][i]) { p.insert(v % a); q.insert(v / a); } if (!SA.count(Spx(p.begin(), p.end())) && !SB.count(Spx(q.begin(), q.end()))) r.push_back(i); }
    need(T.dim(k) == t.size(), "wrong-shape", "the relative tensor product has dimension %zu in degree %zu instead of %zu", T.dim(k), k, t.size()); need(C.dim(k) == r.size(), "wrong-shape", "the relative product has dimension %zu in degree %zu instead of %zu", C.dim(k), k, r.size());
    if (k) { M g = dense<F>(T[k], "relative tensor product"), w = pickrc(tensor(x, X, y, Y, k), tk, t); need(g == w, "wrong-boundary", "the boundary of the relative tensor product in degree %zu is %s instead of %s", k, orc::show(g).c_str(), orc::show(w).c_str()); g = dense<F>(C[k], "relative product"); w = pickrc(bdry(XY, k), zk, r); need(g == w, "wrong-boundary", "the boundary of the relative product in degree %zu is %s instead of %s", k, orc::show(g).c_str(), orc::show(w).c_str()); }
    M g = dense<F>(f[k], "relative map"), w = pickrc(dense<F>(std::get<1>(W)[k], "map"), r, t); need(g == w, "wrong-map", "the relative map in degree %zu is %s instead of %s", k, orc::show(g).c_str(), orc::show(w).c_str()); tk = t; zk = r;
  } if (!SA.empty() && !SB.empty()) sim_probe("both-relative");
}
SIM_SCENARIO(H10, pairs, 2) { swarm_env(); FIELDS4(pairs<F_>()) }
// ---- homology of a product
template <class F> static VT<F> chain(size_t n) { sim::Off o; std::vector<size_t> i; std::vector<F> v; for (size_t k = 0; k < n; k++) if (sim::chance(1, 2)) { i.push_back(k); v.push_back(F(rnd(1, 4))); } std::vector<size_t> j; std::vector<F> u; for (size_t k = 0; k < i.size(); k++) if (!(v[k] == F(0))) { j.push_back(i[k]); u.push_back(v[k]); } return VT<F>(j, u); }
template <class F> static void kunneth() {
  use_field<F>(); int a = rnd(1, zm(4, 5)), b = rnd(1, zm(4, 5)); auto x = some_cells(a, rnd(0, 4), 2), y = some_cells(b, rnd(0, 4), 2); size_t top = sim::chance(2, 3) ? x.size() + y.size() - 1 : rnd(0, 4); desc("X", x); desc("Y", y); sim_desc("up to %zu over %d ", top, PP()); auto X = build<SC>(x, a, 0), Y = build<SC>(y, b, 0); if (PP() == 0 && a * b > 12) return;
  auto W = [&] { sim::Sys s; return bats::EilenbergZilber(X, Y, top, F()); }(); auto& T = std::get<0>(W); auto RX = [&] { sim::Sys s; return bats::ReducedChainComplex<MT<F>>(bats::ChainComplex<MT<F>>(X)); }(), RY = [&] { sim::Sys s; return bats::ReducedChainComplex<MT<F>>(bats::ChainComplex<MT<F>>(Y)); }(), RT = [&] { sim::Sys s; return bats::ReducedChainComplex<MT<F>>(T); }();
  auto vec = [&](const VT<F>& v, size_t n) { M c(n, 1); for (auto it = v.nzbegin(); it != v.nzend(); ++it) { need(it->ind < n, "out-of-range", "an entry at %zu of %zu", it->ind, n); c(it->ind, 0) = toS(it->val); } return c; };
  for (auto& k : x) for (auto& l : y) { size_t p = &k - &x[0], q = &l - &y[0], at = 0, N = 0; for (auto& c : blocks(x, y, p + q)) { if (c.p == p) at = c.at; N = c.at + c.nx * c.ny; } auto u = chain<F>(k.size()), v = chain<F>(l.size()); M du = vec(u, k.size()), dv = vec(v, l.size()), w(N, 1); for (size_t i = 0; i < k.size(); i++) for (size_t j = 0; j < l.size(); j++) w(at + i * l.size() + j, 0) = mul(du(i, 0), dv(j, 0)); VT<F> g; { sim::Sys ss; g = bats::kron_chains(u, p, RX, v, q, RY); } M dg = vec(g, N); need(dg == w, "wrong-product", "the product of a %zu-chain and a %zu-chain is %s instead of %s", p, q, orc::show(dg).c_str(), orc::show(w).c_str()); }
  for (size_t k = 0; k <= top; k++) { auto bl = blocks(x, y, k); size_t N = total(bl), hk = 0; M all(RT.hdim(k), 0); std::vector<M> cols;
    for (auto& c : bl) { size_t p = c.p, q = c.q; auto K = run([&] { return bats::kron_homology(p, RX, q, RY, RT); }, [](const auto& r) { return dm<F>(r); }, "homology of a product"); sim::Off o; M m = dense<F>(K, "homology of a product"); size_t hx = RX.hdim(p), hy = RY.hdim(q); need(m.r == RT.hdim(k) && m.c == hx * hy, "wrong-shape", "the map of H_%zu and H_%zu is %zux%zu instead of %zux%zu", p, q, m.r, m.c, RT.hdim(k), hx * hy); hk += hx * hy;
      M B(N, 0); if (k < top) B = dense<F>(T[k + 1], "boundary"); for (size_t i = 0; i < hx; i++) for (size_t j = 0; j < hy; j++) { M u = vec(RX.get_preferred_representative(i, p), c.nx), v = vec(RY.get_preferred_representative(j, q), c.ny), w(N, 1); for (size_t s = 0; s < c.nx; s++) for (size_t t = 0; t < c.ny; t++) w(c.at + s * c.ny + t, 0) = mul(u(s, 0), v(t, 0)); { VT<F> lu = RX.get_preferred_representative(i, p), lv = RY.get_preferred_representative(j, q), lw; { sim::Sys s; lw = bats::kron_chains(lu, p, RX, lv, q, RY); } M g = vec(lw, N); need(g == w, "wrong-product", "the product of two chains is %s instead of %s", orc::show(g).c_str(), orc::show(w).c_str()); }
        for (size_t r = 0; r < m.r; r++) { M h = vec(RT.get_preferred_representative(r, k), N); for (size_t s = 0; s < N; s++) w(s, 0) = sub(w(s, 0), mul(m(r, i * hy + j), h(s, 0))); } need(rank(hcat(B, w)) == rank(B), "wrong-class", "the product of class %zu of H_%zu and class %zu of H_%zu is not the listed combination of classes", i, p, j, q); } cols.push_back(m); }
    sim::Off o; if (k < top) { M J(RT.hdim(k), 0); for (auto& m : cols) J = hcat(J, m); need(hk == RT.hdim(k) && rank(J) == hk, "wrong-rank", "products of classes span %zu of %zu dimensions of H_%zu", rank(J), (size_t) RT.hdim(k), k); if (hk > 1) sim_probe("several-classes"); } }
}
SIM_SCENARIO(H10, classes, 2) { swarm_env(); FIELDS4(kunneth<F_>()) }
// ---- connecting maps of a union
template <class Cx> static void mayer() {
  use_field<int>(); PP() = 0; int n = rnd(1, zm(7, 9)); auto x = some_cells(n, rnd(1, 5), 3), xa = part_of(x, rnd(1, 5)), xb = part_of(x, rnd(1, 5)); SpxSet SA, SB, SX, SY; for (auto& k : xa) SA.insert(k.begin(), k.end()); for (auto& k : xb) SB.insert(k.begin(), k.end()); SX = SA; SX.insert(SB.begin(), SB.end()); for (auto& s : SA) if (SB.count(s)) SY.insert(s); auto list = [&](const SpxSet& w) { Cells c(x.size()); for (auto& k : x) for (auto& s : k) if (w.count(s)) c[s.size() - 1].push_back(s); if (sim::chance(1, 2)) for (auto& k : c) std::reverse(k.begin(), k.end()); return c; }; auto ux = list(SX), uy = list(SY); desc("A", xa); desc("X", ux); desc("Y", uy); size_t k = rnd(0, 3); sim_desc("degree %zu ", k); auto A = build<Cx>(xa, n, 4), X = build<Cx>(ux, n, 4), Y = build<Cx>(uy, n, 4);
  auto D = run([&] { return bats::mayer_vietoris_boundary(A, X, Y, k); }, [](const auto& r) { return dm<int>(r); }, "connecting map"); sim::Off o; M g = dense<int>(D, "connecting map"), w(nc(uy, k), nc(ux, k + 1)); std::map<Spx, size_t> iy; for (size_t i = 0; i < nc(uy, k); i++) iy[uy[k][i]] = i; for (size_t j = 0; j < nc(ux, k + 1); j++) { auto& s = ux[k + 1][j]; if (!SA.count(s)) continue; for (size_t i = 0; i < s.size(); i++) { Spx t = s; t.erase(t.begin() + i); if (iy.count(t)) w(iy[t], j) = mk(i % 2 ? -1 : 1); } }
  M wn = w; for (auto& v : wn.a) v = neg(v); need(g == w || g == wn, "wrong-map", "the connecting map is %s instead of %s", orc::show(g).c_str(), orc::show(w).c_str());
}
SIM_SCENARIO(H10, connecting, 1) { swarm_env(); if (sim::chance(1, 2)) mayer<SC>(); else mayer<LU>(); }
