#include "diagrams.hpp"
#include "filt.hpp"
#include "kinds.hpp"
#include "exhaust.hpp"
#include <filtration/rips.hpp>
// Filtrations and complexes built from points, distances, landmarks, covers, grids and vertex functions, against their definitions.
using namespace flt;
using namespace kinds;
typedef std::map<Spx, double> Vals; typedef std::vector<std::vector<double>> DM; typedef std::map<std::pair<size_t, size_t>, double> Edges;
typedef bats::SimplicialComplex SC; typedef bats::LightSimplicialComplex<size_t> LU; typedef bats::LightSimplicialComplex<size_t, std::map<size_t, size_t>> LM;
template <class V> Spx wide(const V& v) { return Spx(v.begin(), v.end()); }
static std::string show(const Edges& e) { std::string s; char b[64]; for (auto& x : e) { snprintf(b, sizeof b, "%zu-%zu:%g ", x.first.first, x.first.second, x.second); s += b; } return s; }
static std::string show(const DM& d) { std::string s; char b[32]; for (auto& r : d) { for (auto x : r) { snprintf(b, sizeof b, "%g ", x); s += b; } s += "/ "; } return s; }
static Vals flagf(size_t n, const Edges& e, size_t top, double t0) {
  Vals v; SpxSet X = flag(n, [&](size_t a, size_t b) { return e.count({std::min(a, b), std::max(a, b)}) > 0; }, top);
  for (auto& s : X) { double t = t0; bool f = true; for (size_t i = 0; i < s.size(); i++) for (size_t j = i + 1; j < s.size(); j++) { double w = e.at({s[i], s[j]}); t = f ? w : std::max(t, w); f = false; } v[s] = t; } return v;
}
static SpxSet keys(const Vals& v) { SpxSet s; for (auto& x : v) s.insert(x.first); return s; }
template <class Cx> void check_cells(const Cx& X, const SpxSet& want, const char* what, int family) {
  sim::Off o; SpxSet got; int p = PP(); PP() = 0; std::vector<std::vector<Spx>> c;
  for (size_t k = 0; k <= X.maxdim(); k++) { c.emplace_back(); for (size_t i = 0; i < X.ncells(k); i++) { Spx s = wide(X.get_simplex(k, i)); need(s.size() == k + 1 && got.insert(s).second, "duplicate-cell", "%s: cell (%zu,%zu) is %s", what, k, i, show(s).c_str()); c.back().push_back(s); auto t = X.get_simplex(k, i); size_t j = X.find_idx(t); need(j == i, "wrong-lookup", "%s: %s has index %zu but lookup gives %zu", what, show(s).c_str(), i, j); } }
  if (got != want) { std::string miss, extra; for (auto& s : want) if (!got.count(s)) miss += show(s); for (auto& s : got) if (!want.count(s)) extra += show(s); sim_fail("wrong-cells", "%s: missing %s extra %s", what, miss.c_str(), extra.c_str()); }
  for (size_t k = 1; k < c.size(); k++) { M w = boundary(c[k - 1], c[k]), g = dense<int>(MT<int>(X.boundary_csc(k)), what); need(same_boundary(g, w, k, family), "wrong-boundary", "%s: boundary matrix in dimension %zu is %s, expected %s", what, k, orc::show(g).c_str(), orc::show(w).c_str()); }
  PP() = p;
}
template <class Cx> void check_vals(const Cx& X, const std::vector<std::vector<double>>& val, const Vals& want, const char* what, int family) {
  sim::Off o; check_cells(X, keys(want), what, family); need(val.size() == X.maxdim() + 1, "wrong-shape", "%s: values in %zu dimensions, complex of dimension %zu", what, val.size(), X.maxdim());
  for (size_t k = 0; k < val.size(); k++) { need(val[k].size() == X.ncells(k), "wrong-shape", "%s: %zu values for %zu cells of dimension %zu", what, val[k].size(), X.ncells(k), k); for (size_t i = 0; i < val[k].size(); i++) { Spx s = wide(X.get_simplex(k, i)); double w = want.at(s); need(val[k][i] == w, "wrong-value", "%s: the value of %s is %.17g instead of %.17g", what, show(s).c_str(), val[k][i], w); } }
}
template <class Cx> void check_fil(const bats::Filtration<double, Cx>& F, const Vals& want, const char* what, int family) { check_vals(F.complex(), F.vals(), want, what, family); }
// runs an operation, sometimes with memory running out first
template <class Fn, class Dg> auto run(Fn op, Dg dgst, const char* what) {
  if (sim::chance(1, 5)) { sim_probe("exhausted"); exhaust([&]() -> uint64_t { sim::Sys s; auto R = op(); sim::Off o; return dgst(R); }, [] { return (uint64_t) 0; }, what, false); }
  sim::Sys s; return op();
}
#define RUN(expr, dig, what) run([&] { return (expr); }, [](const auto& r) { return dig(r); }, what)
static uint64_t dfe(const std::vector<bats::filtered_edge<double>>& v) { uint64_t h = 51; for (auto& e : v) { uint64_t b; memcpy(&b, &e.r, 8); h = H(H(H(h, e.s), e.t), b); } return h; }
static bats::Matrix<double> matrix(const DM& d, size_t c) { bats::Matrix<double> A(d.size(), c); for (size_t i = 0; i < d.size(); i++) for (size_t j = 0; j < c; j++) A(i, j) = d[i][j]; return A; }
static DM dists(const Pts& P, const std::vector<std::vector<double>>& Q) { DM d; for (auto& x : P.p) { d.emplace_back(); for (auto& y : Q) { Pts T; T.dim = P.dim; T.metric = P.metric; T.p = {x, y}; d.back().push_back(T.dist(0, 1)); } } return d; }
static double pick_radius(const DM& d, bool tie) { // a distance that occurs (tie) or one between two that occur
  std::set<double> v; for (auto& r : d) v.insert(r.begin(), r.end()); v.insert(0.25); std::vector<double> w(v.begin(), v.end()); size_t i = sim::pick(w.size()); if (tie && sim::chance(1, 2)) return w[i]; return i + 1 < w.size() ? (w[i] + w[i + 1]) / 2 : w[i] + 1;
}
// ---- flag complexes of weighted graphs
template <class Cx> void flags(int fam) {
  int n = rnd(1, zm(8, 12)); size_t top = rnd(0, n > 8 ? 2 : 4); Edges e; int dens = rnd(1, 4), spread = rnd(1, 5); bool comp = fam == 0 && sim::chance(1, 4); double t0 = sim::chance(1, 3) ? -0.5 * sim::pick(3) : 0;
  for (size_t i = 0; i < (size_t) n; i++) for (size_t j = i + 1; j < (size_t) n; j++) if (comp || sim::chance(dens, 4)) e[{i, j}] = 0.5 * sim::pick(spread);
  std::vector<bats::filtered_edge<double>> fe; for (auto& x : e) { bool f = sim::chance(1, 2); fe.emplace_back(f ? x.first.first : x.first.second, f ? x.first.second : x.first.first, x.second); } for (size_t i = fe.size(); i > 1; i--) std::swap(fe[i - 1], fe[sim::pick(i)]); std::vector<size_t> el; for (auto& x : fe) { el.push_back(x.s); el.push_back(x.t); }
  sim_desc("n=%d top=%zu t0=%g edges %s", n, top, t0, show(e).c_str()); Vals want = flagf(n, e, top, t0); int op = comp ? 3 : sim::pick(3);
  if (op == 0) { auto F = run([&] { auto w = fe; return bats::FlagFiltration<Cx>(w, n, top, t0); }, [](const auto& r) { return df(r); }, "flag filtration"); check_fil(F, want, "flag filtration", fam); }
  else if (op == 1) { auto X = RUN(bats::FlagComplex<Cx>(el, n, top), dx, "flag complex"); check_cells(X, keys(want), "flag complex", fam); }
  else if (op == 2) { std::vector<bats::filtered_edge<double>> srt; auto R = run([&] { auto w = fe; auto r = bats::FlagFiltration_extension<Cx>(w, n, top, t0); srt = w; return r; }, [](const auto& r) { return H(df(std::get<0>(r)), dn(std::get<1>(r))); }, "flag filtration with indices"); auto& F = std::get<0>(R); auto& ix = std::get<1>(R); check_fil(F, want, "flag filtration with indices", fam); sim::Off o;
    need(ix.size() == top + 1, "wrong-indices", "indices in %zu dimensions instead of %zu", ix.size(), top + 1); for (size_t k = 0; k <= top; k++) { need(ix[k].size() == F.ncells(k), "wrong-indices", "%zu indices for %zu cells of dimension %zu", ix[k].size(), F.ncells(k), k); for (size_t i = 0; i < ix[k].size(); i++) { Spx s = wide(F.complex().get_simplex(k, i)); if (!k) { need(ix[0][i] == s[0], "wrong-indices", "vertex %zu has index %zu", s[0], ix[0][i]); continue; } size_t j = ix[k][i]; need(j < srt.size(), "wrong-indices", "%s refers to edge %zu of %zu", show(s).c_str(), j, srt.size()); need(srt[j].r == F.vals(k)[i] && std::count(s.begin(), s.end(), srt[j].s) && std::count(s.begin(), s.end(), srt[j].t), "wrong-indices", "%s with value %g refers to edge %zu-%zu with value %g", show(s).c_str(), F.vals(k)[i], srt[j].s, srt[j].t, srt[j].r); } } }
  else { std::vector<size_t> ce = bats::all_pairs(n); std::vector<double> t; for (size_t i = 0; i < ce.size(); i += 2) t.push_back(e.at({std::min(ce[i], ce[i + 1]), std::max(ce[i], ce[i + 1])})); { sim::Sys s; bats::sort_edges(ce, t); } for (size_t i = 0; i < t.size(); i++) need((!i || t[i - 1] <= t[i]) && t[i] == e.at({std::min(ce[2 * i], ce[2 * i + 1]), std::max(ce[2 * i], ce[2 * i + 1])}), "wrong-order", "sorted edges: edge %zu is %zu-%zu with value %g", i, ce[2 * i], ce[2 * i + 1], t[i]);
    auto R = run([&] { return bats::CompleteFlagFiltration<double>(ce, t, n, top, t0); }, [](const auto& r) { return H(dx(std::get<0>(r)), df(std::get<1>(r))); }, "complete flag filtration"); check_fil(std::get<1>(R), want, "complete flag filtration", fam); check_cells(std::get<0>(R), keys(want), "complex of the complete flag filtration", fam); sim_probe("complete"); }
}
SIM_SCENARIO(H09, flags, 3) { swarm_env(); switch (sim::pick(3)) { case 0: flags<SC>(0); break; case 1: flags<LU>(1); break; default: flags<LM>(1); } }
// ---- Rips filtrations and complexes
template <class Cx> void rips(int fam) {
  Pts P = gen_points(1, 8, 14); size_t n = P.p.size(), top = rnd(0, n > 8 ? 2 : 3); DM d = dists(P, P.p); int op = sim::pick(8); double r = pick_radius(d, op < 6); auto X = dataset(P); auto D = matrix(d, n); sim_desc("metric=%d top=%zu r=%g distances %s", P.metric, top, r, show(d).c_str());
  auto edges = [&](auto in) { Edges e; for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) if (d[i][j] <= r && in(i, j)) e[{i, j}] = d[i][j]; return e; }; Vals want = flagf(n, edges([](size_t, size_t) { return true; }), top, 0);
  switch (op) {
    case 0: { auto F = RUN(with_metric(P.metric, [&](auto m) { return bats::RipsFiltration<Cx>(X, m, r, top); }), df, "Rips filtration"); check_fil(F, want, "Rips filtration", fam); break; }
    case 1: { auto F = RUN(bats::RipsFiltration<Cx>(D, r, top), df, "Rips filtration of a matrix"); check_fil(F, want, "Rips filtration of a matrix", fam); break; }
    case 2: { auto C = RUN(with_metric(P.metric, [&](auto m) { return bats::RipsComplex<Cx>(X, m, r, top); }), dx, "Rips complex"); check_cells(C, keys(want), "Rips complex", fam); break; }
    case 3: { auto C = RUN(bats::RipsComplex<Cx>(D, r, top), dx, "Rips complex of a matrix"); check_cells(C, keys(want), "Rips complex of a matrix", fam); break; }
    case 4: { bool mat = sim::chance(1, 2); auto R = run([&] { return mat ? bats::RipsFiltration_extension<Cx>(D, r, top) : with_metric(P.metric, [&](auto m) { return bats::RipsFiltration_extension<Cx>(X, m, r, top); }); }, [](const auto& r) { return H(df(std::get<0>(r)), dn(std::get<1>(r))); }, "Rips filtration with indices"); check_fil(std::get<0>(R), want, "Rips filtration with indices", fam); need(std::get<1>(R).size() == top + 1, "wrong-indices", "indices in %zu dimensions", std::get<1>(R).size());
      auto& F = std::get<0>(R); std::vector<double> ev; for (auto& x : want) if (x.first.size() == 2) ev.push_back(x.second); std::sort(ev.begin(), ev.end()); for (size_t k = 0; k <= top; k++) { auto& ix = std::get<1>(R)[k]; need(ix.size() == F.ncells(k), "wrong-indices", "%zu indices for %zu cells", ix.size(), F.ncells(k)); if (k) for (size_t i = 0; i < ix.size(); i++) need(ix[i] < ev.size() && ev[ix[i]] == F.vals(k)[i], "wrong-indices", "a cell of dimension %zu with value %g refers to edge %zu", k, F.vals(k)[i], ix[i]); } break; }
    case 5: { double e, w = 1e300; for (auto& row : d) w = std::min(w, *std::max_element(row.begin(), row.end())); { sim::Sys s; e = bats::enclosing_radius(D); } need(e == w, "wrong-radius", "the enclosing radius is %g instead of %g", e, w); break; }
    default: { bats::Cover c(rnd(1, 4)); for (auto& u : c) for (size_t i = 0; i < n; i++) if (sim::chance(1, 2)) u.insert(i); for (auto& u : c) sim_desc("set %s ", show(u).c_str()); auto both = [&](size_t i, size_t j) { for (auto& u : c) if (u.count(i) && u.count(j)) return true; return false; }; bool strict = op == 7; Vals w = flagf(n, edges(both), top, 0);
      if (strict) { for (auto it = w.begin(); it != w.end();) { bool in = it->first.size() == 1; for (auto& u : c) { bool a = true; for (auto v : it->first) a &= u.count(v) > 0; in |= a; } if (in) ++it; else it = w.erase(it); } auto F = RUN(with_metric(P.metric, [&](auto m) { return bats::StrictRipsCoverFiltration<double, Cx>(X, c, m, r, top); }), df, "strict Rips cover filtration"); check_fil(F, w, "strict Rips cover filtration", fam); sim_probe("strict-cover"); }
      else { auto F = RUN(with_metric(P.metric, [&](auto m) { return bats::RipsFiltration(X, c, m, r, top); }), df, "Rips cover filtration"); check_fil(F, w, "Rips cover filtration", 0); } }
  }
}
SIM_SCENARIO(H09, rips, 3) { swarm_env(); switch (sim::pick(3)) { case 0: rips<SC>(0); break; case 1: rips<LU>(1); break; default: rips<LM>(1); } }
// ---- Dowker and witness complexes
SIM_SCENARIO(H09, witness, 3) {
  swarm_env(); Pts P = gen_points(1, 8, 14), L = P; L.p.clear(); bool sub = sim::chance(1, 2); int nl = rnd(1, zm(5, 8)); for (int i = 0; i < nl; i++) { if (sub) L.p.push_back(P.p[sim::pick(P.p.size())]); else { std::vector<double> x; for (int k = 0; k < P.dim; k++) x.push_back(rnd(0, 6)); L.p.push_back(x); } }
  size_t top = rnd(0, nl > 5 ? 2 : 3), nu = sim::pick(4), n = L.p.size(), m = P.p.size(); DM d = dists(L, P.p); int op = sim::pick(9); auto XL = dataset(L), XP = dataset(P);
  auto shift = [&](size_t v) { DM e = d; for (size_t j = 0; j < m; j++) { std::vector<double> col; for (size_t i = 0; i < n; i++) col.push_back(d[i][j]); std::sort(col.begin(), col.end()); double s = v ? col[std::min(v, n) - 1] : 0; for (size_t i = 0; i < n; i++) e[i][j] = std::max(d[i][j] - s, 0.0); } return e; };
  auto edges = [&](const DM& e, double r, bool strict) { Edges x; for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) { double w = 1e300; for (size_t k = 0; k < m; k++) w = std::min(w, std::max(e[i][k], e[j][k])); if (strict ? w < r : w <= r) x[{i, j}] = w; } return x; };
  DM e = op == 5 || op == 6 || op == 7 ? shift(nu) : d; double r = pick_radius(e, op == 5 || op == 6 || op == 7); auto D = matrix(d, m); sim_desc("metric=%d op=%d top=%zu nu=%zu r=%g %zu landmarks, %zu points, distances %s", P.metric, op, top, nu, r, n, m, show(d).c_str());
  switch (op) {
    case 0: { auto F = RUN(bats::DowkerFiltration(D, r, top), df, "Dowker filtration of a matrix"); check_fil(F, flagf(n, edges(d, r, true), top, 0), "Dowker filtration of a matrix", 0); break; }
    case 1: { auto F = RUN(with_metric(P.metric, [&](auto M) { return bats::DowkerFiltration(XL, XP, M, r, top); }), df, "Dowker filtration"); check_fil(F, flagf(n, edges(d, r, true), top, 0), "Dowker filtration", 0); break; }
    case 2: { bats::Cover c(rnd(1, 3)); for (auto& u : c) for (size_t i = 0; i < n; i++) if (sim::chance(2, 3)) u.insert(i); for (auto& u : c) sim_desc("set %s ", show(u).c_str()); auto x = edges(d, r, true); for (auto it = x.begin(); it != x.end();) { bool in = false; for (auto& u : c) in |= u.count(it->first.first) && u.count(it->first.second); if (in) ++it; else it = x.erase(it); } auto F = RUN(with_metric(P.metric, [&](auto M) { return bats::DowkerFiltration(XL, XP, M, c, r, top); }), df, "Dowker cover filtration"); check_fil(F, flagf(n, x, top, 0), "Dowker cover filtration", 0); break; }
    case 3: { auto F = RUN(with_metric(P.metric, [&](auto M) { return bats::WitnessFiltration(XL, XP, M, r, top); }), df, "witness filtration"); check_fil(F, flagf(n, edges(d, r, true), top, 0), "witness filtration", 0); break; }
    case 4: { // weak witness complex: every face of positive dimension is the set of nearest landmarks of some point
      auto nb = run([&] { return with_metric(P.metric, [&](auto M) { return bats::neighborhoods(XP, XL, M, std::min(top + 1, n)); }); }, [](const auto& v) { return dn(v); }, "nearest landmarks"); auto W = RUN(with_metric(P.metric, [&](auto M) { return bats::WitnessComplex(XP, XL, M, top); }), dx, "witness complex");
      SpxSet w; for (size_t i = 0; i < n; i++) w.insert({i}); for (size_t k = 1; k <= top && k < n; k++) for (auto& v : nb) { need(v.size() > k, "wrong-shape", "only %zu nearest landmarks", v.size()); Spx s(v.begin(), v.begin() + k + 1); std::sort(s.begin(), s.end()); bool ok = true; for (size_t i = 0; i < s.size(); i++) { Spx f = s; f.erase(f.begin() + i); ok &= w.count(f) > 0; } if (ok) w.insert(s); } check_cells(W, w, "witness complex", 0); break; }
    case 5: { auto W = RUN(with_metric(P.metric, [&](auto M) { return bats::WitnessComplex(XP, XL, M, nu, r, top); }), dx, "lazy witness complex"); check_cells(W, keys(flagf(n, edges(e, r, false), top, 0)), "lazy witness complex", 0); break; }
    case 6: { auto W = RUN(with_metric(P.metric, [&](auto M) { return bats::StrictWitnessComplex(XP, XL, M, nu, r, top); }), dx, "strict witness complex"); SpxSet w; for (size_t i = 0; i < n; i++) w.insert({i}); for (size_t mask = 1; mask < (1u << n); mask++) { Spx s; for (size_t i = 0; i < n; i++) if (mask >> i & 1) s.push_back(i); if (s.size() > top + 1 || s.size() < 2) continue; for (size_t k = 0; k < m; k++) { bool a = true; for (auto i : s) a &= e[i][k] <= r; if (a) { w.insert(s); break; } } } check_cells(W, w, "strict witness complex", 0); break; }
    case 7: { auto R = RUN(with_metric(P.metric, [&](auto M) { return bats::witness_edge_param(XP, XL, M, nu); }), ([](const auto& A) { uint64_t h = A.nrow(); for (size_t i = 0; i < A.nrow(); i++) for (size_t j = 0; j < A.ncol(); j++) if (i != j) { double v = A(i, j); uint64_t b; memcpy(&b, &v, 8); h = H(h, b); } return h; }), "witness parameters"); need(R.nrow() == n && R.ncol() == n, "wrong-shape", "%zux%zu witness parameters for %zu landmarks", R.nrow(), R.ncol(), n); auto x = edges(e, 1e301, true); for (auto& y : x) need(R(y.first.first, y.first.second) == y.second && R(y.first.second, y.first.first) == y.second, "wrong-value", "the witness parameter of edge %zu-%zu is %g and %g instead of %g", y.first.first, y.first.second, R(y.first.first, y.first.second), R(y.first.second, y.first.first), y.second); break; }
    default: { auto w = RUN(with_metric(P.metric, [&](auto M) { return bats::witness_edges(XP, XL, M, r); }), dn, "witness edges"); std::set<std::pair<size_t, size_t>> g, x; need(w.size() % 2 == 0, "wrong-shape", "%zu entries", w.size()); for (size_t i = 0; i < w.size(); i += 2) g.insert({std::min(w[i], w[i + 1]), std::max(w[i], w[i + 1])}); for (auto& y : edges(d, r, true)) x.insert(y.first); need(g == x, "wrong-cells", "%zu witnessed edges instead of %zu", g.size(), x.size()); }
  }
}
// ---- triangulations and cubes of grids
static size_t rm(size_t i, size_t j, size_t k, size_t n2, size_t n3) { return k + n3 * (j + i * n2); }
static void tri(SpxSet& S, const Cube& c, size_t n2, size_t n3) { // chains of corners of a cube, increasing in every coordinate
  std::vector<size_t> ax; for (int a = 0; a < 3; a++) if (c[2 * a] != c[2 * a + 1]) ax.push_back(a); std::sort(ax.begin(), ax.end());
  do { size_t x[3] = {c[0], c[2], c[4]}; Spx s{rm(x[0], x[1], x[2], n2, n3)}; for (auto a : ax) { x[a] = c[2 * a + 1]; s.push_back(rm(x[0], x[1], x[2], n2, n3)); } add_closed(S, s); } while (std::next_permutation(ax.begin(), ax.end()));
}
template <class Cx> void grids(int fam) {
  size_t n[3]; for (auto& x : n) x = rnd(2, zm(4, 6)); int op = sim::pick(4); sim_desc("grid %zux%zux%zu op=%d ", n[0], n[1], n[2], op); SpxSet want;
  if (op == 0) { for (size_t i = 0; i + 1 < n[0]; i++) for (size_t j = 0; j + 1 < n[1]; j++) { Cube c{i, i + 1, j, j + 1, 0, 0}; tri(want, c, n[1], 1); } auto X = RUN(bats::Freudenthal<Cx>(n[0], n[1]), dx, "triangulated square grid"); check_cells(X, want, "triangulated square grid", fam); return; }
  if (op == 1) { for (size_t i = 0; i + 1 < n[0]; i++) for (size_t j = 0; j + 1 < n[1]; j++) for (size_t k = 0; k + 1 < n[2]; k++) tri(want, {i, i + 1, j, j + 1, k, k + 1}, n[1], n[2]); auto X = RUN(bats::Freudenthal<Cx>(n[0], n[1], n[2]), dx, "triangulated grid"); check_cells(X, want, "triangulated grid", fam); return; }
  if (op == 2) { size_t a[3], b[3]; int flat = sim::pick(4); for (int t = 0; t < 3; t++) { a[t] = sim::pick(n[t] - 1); b[t] = a[t] + 2 + sim::pick(n[t] - a[t] - 1); if (b[t] > n[t]) b[t] = n[t]; if (t == flat) b[t] = a[t] + 1; sim_desc("[%zu,%zu) ", a[t], b[t]); } auto hi = [&](int t) { return flat == t ? a[t] + 1 : b[t] - 1; }; auto up = [&](int t, size_t i) { return flat == t ? i : i + 1; };
    for (size_t i = a[0]; i < hi(0); i++) for (size_t j = a[1]; j < hi(1); j++) for (size_t k = a[2]; k < hi(2); k++) tri(want, {i, up(0, i), j, up(1, j), k, up(2, k)}, n[1], n[2]); auto X = RUN(bats::Freudenthal<Cx>(n[0], n[1], n[2], a[0], b[0], a[1], b[1], a[2], b[2]), dx, "part of a triangulated grid"); check_cells(X, want, "part of a triangulated grid", fam); if (flat < 3) sim_probe("flat"); return; }
  RF f; std::set<Cube> S; int m = rnd(1, zm(6)); for (int t = 0; t < m; t++) { Cube c; for (int a = 0; a < 3; a++) { size_t x = sim::pick(n[a]); c.push_back(x); c.push_back(x + (x + 1 < n[a] && sim::chance(2, 3) ? 1 : 0)); } sim_desc("%s", show(c).c_str()); add_cube(S, c); }
  bats::CubicalComplex Q(3); for (size_t k = 0; k < 4; k++) for (auto c : S) if (cube_dim(c) == k) Q.add(c); for (auto& c : S) tri(want, c, n[1], n[2]); auto X = RUN(bats::Freudenthal<Cx>(Q, n[0], n[1], n[2]), dx, "triangulated cubes"); check_cells(X, want, "triangulated cubes", fam);
}
static void cubes() {
  size_t n[3]; for (auto& x : n) x = rnd(2, zm(4, 6)); int op = sim::pick(3); sim_desc("cubes %zux%zux%zu op=%d ", n[0], n[1], n[2], op); std::set<Cube> S; bats::CubicalComplex X(2); auto dq = [](const bats::CubicalComplex& X) { uint64_t h = 22; for (size_t k = 0; k <= X.maxdim(); k++) for (auto& c : X.get_cubes(k)) h = H(h, dn(c)); return h; };
  if (op == 0) { for (size_t i = 0; i + 1 < n[0]; i++) for (size_t j = 0; j + 1 < n[1]; j++) { Cube c{i, i + 1, j, j + 1}; add_cube(S, c); } X = run([&] { return bats::Cube(n[0], n[1]); }, dq, "square grid"); }
  else if (op == 1) { for (size_t i = 0; i + 1 < n[0]; i++) for (size_t j = 0; j + 1 < n[1]; j++) for (size_t k = 0; k + 1 < n[2]; k++) add_cube(S, {i, i + 1, j, j + 1, k, k + 1}); X = run([&] { return bats::Cube(n[0], n[1], n[2]); }, dq, "cube grid"); }
  else { size_t a[3], b[3]; int flat = sim::pick(4); for (int t = 0; t < 3; t++) { a[t] = sim::pick(n[t] - 1); b[t] = a[t] + 2 + sim::pick(n[t] - a[t] - 1); if (b[t] > n[t]) b[t] = n[t]; if (t == flat) b[t] = a[t] + 1; sim_desc("[%zu,%zu) ", a[t], b[t]); } auto hi = [&](int t) { return flat == t ? a[t] + 1 : b[t] - 1; }; auto up = [&](int t, size_t i) { return flat == t ? i : i + 1; };
    for (size_t i = a[0]; i < hi(0); i++) for (size_t j = a[1]; j < hi(1); j++) for (size_t k = a[2]; k < hi(2); k++) add_cube(S, {i, up(0, i), j, up(1, j), k, up(2, k)}); X = run([&] { return bats::Cube(n[0], n[1], n[2], a[0], b[0], a[1], b[1], a[2], b[2]); }, dq, "part of a cube grid"); }
  sim::Off o; std::set<Cube> got; for (size_t k = 0; k <= X.maxdim(); k++) for (auto& c : X.get_cubes(k)) { need(cube_dim(c) == k && got.insert(c).second, "duplicate-cell", "cube %s listed in dimension %zu", show(c).c_str(), k); size_t i = X.find_idx(c); need(i < X.ncells(k), "wrong-lookup", "cube %s has index %zu", show(c).c_str(), i); } need(got == S, "wrong-cells", "%zu cubes instead of %zu", got.size(), S.size());
}
SIM_SCENARIO(H09, grids, 2) { swarm_env(); switch (sim::pick(4)) { case 0: grids<SC>(0); break; case 1: grids<LU>(1); break; case 2: grids<LM>(1); break; default: cubes(); } }
// ---- functions on vertices
template <class Cx> void star(int fam) {
  auto f = gen_simplicial(rnd(1, zm(6, 10)), rnd(1, 5), rnd(0, 3)); size_t nv = 0; for (auto& s : f.spx[0]) nv = std::max(nv, s[0] + 1); Cx X(nv, f.maxdim()); for (auto& k : f.spx) for (auto s : k) X.add(s); std::vector<double> f0; for (size_t i = 0; i < nv; i++) f0.push_back(0.5 * ((int) sim::pick(6) - 2)); sim_desc("%s values ", show(f).c_str()); for (auto x : f0) sim_desc("%g ", x);
  auto R = run([&] { return lower_star_filtration(X, f0); }, [](const auto& r) { return H(dn(std::get<0>(r)), dn(std::get<1>(r))); }, "lower star filtration"); auto& v = std::get<0>(R); auto& ix = std::get<1>(R); Vals want; for (auto& k : f.spx) for (auto& s : k) { double w = f0[s[0]]; for (auto x : s) w = std::max(w, f0[x]); want[s] = w; }
  check_vals(X, v, want, "lower star filtration", fam); need(ix.size() == v.size(), "wrong-indices", "indices in %zu dimensions", ix.size()); for (size_t k = 0; k < ix.size(); k++) { need(ix[k].size() == v[k].size(), "wrong-indices", "%zu indices for %zu cells", ix[k].size(), v[k].size()); for (size_t i = 0; i < ix[k].size(); i++) { Spx s = wide(X.get_simplex(k, i)); need(std::count(s.begin(), s.end(), ix[k][i]) && f0[ix[k][i]] == v[k][i], "wrong-indices", "%s with value %g refers to vertex %zu", show(s).c_str(), v[k][i], ix[k][i]); } }
  // gradients of persistence pairs flow back to the vertices that give births and deaths
  std::vector<std::vector<double>> g(rnd(1, (int) ix.size())); std::vector<std::vector<int>> bd(g.size()); std::vector<double> want_g(ix[0].size()); // maps have one entry per vertex
  for (size_t k = 0; k < g.size(); k++) { int m = ix[k].size() ? rnd(0, 3) : 0; for (int t = 0; t < m; t++) { int b = sim::chance(1, 8) ? -1 : (int) sim::pick(ix[k].size()), d = k + 1 >= ix.size() || ix[k + 1].empty() || sim::chance(1, 4) ? -1 : (int) sim::pick(ix[k + 1].size()); double x = (int) sim::pick(7) - 3, y = (int) sim::pick(7) - 3; g[k].push_back(x); g[k].push_back(y); bd[k].push_back(b); bd[k].push_back(d); if (b >= 0 && ix[k][b] < want_g.size()) want_g[ix[k][b]] += x; if (d >= 0 && ix[k + 1][d] < want_g.size()) want_g[ix[k + 1][d]] += y; } }
  if (nv == ix[0].size()) { auto got = run([&] { return lower_star_backwards(g, bd, ix); }, [](const auto& r) { return dn(r); }, "gradient of a lower star filtration"); need(got == want_g, "wrong-gradient", "the gradient on the vertices differs"); sim_probe("gradient"); }
}
template <int D> void cube_star() {
  size_t n[3]; for (auto& x : n) x = rnd(2, zm(4, 6)); std::set<Cube> S; int m = rnd(1, zm(5)); for (int t = 0; t < m; t++) { Cube c; for (int a = 0; a < D; a++) { size_t x = sim::pick(n[a]); c.push_back(x); c.push_back(x + (x + 1 < n[a] && sim::chance(2, 3) ? 1 : 0)); } sim_desc("%s", show(c).c_str()); add_cube(S, c); }
  bats::CubicalComplex Q(D); for (size_t k = 0; k <= D; k++) for (auto c : S) if (cube_dim(c) == k) Q.add(c); std::vector<std::vector<double>> f2(n[0], std::vector<double>(n[1])); std::vector<std::vector<std::vector<double>>> f3(n[0], std::vector<std::vector<double>>(n[1], std::vector<double>(n[2]))); for (size_t i = 0; i < n[0]; i++) for (size_t j = 0; j < n[1]; j++) { f2[i][j] = 0.5 * ((int) sim::pick(9) - 4); if (D == 3) for (auto& x : f3[i][j]) x = 0.5 * ((int) sim::pick(9) - 4); }
  auto v = run([&] { if (D == 2) return lower_star_filtration(Q, f2); return lower_star_filtration(Q, f3); }, [](const auto& r) { return dn(r); }, "lower star filtration of cubes"); need(v.size() == Q.maxdim() + 1, "wrong-shape", "values in %zu dimensions", v.size()); sim::Off o;
  for (size_t k = 0; k < v.size(); k++) { auto cs = Q.get_cubes(k); need(v[k].size() == cs.size(), "wrong-shape", "%zu values for %zu cubes", v[k].size(), cs.size()); for (size_t i = 0; i < cs.size(); i++) { auto& c = cs[i]; double w = -1e300; for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) for (int e = 0; e < (D == 3 ? 2 : 1); e++) w = std::max(w, D == 2 ? f2[c[a]][c[2 + b]] : f3[c[a]][c[2 + b]][c[4 + e]]); need(v[k][i] == w, "wrong-value", "the value of cube %s is %g instead of %g", show(c).c_str(), v[k][i], w); } }
}
SIM_SCENARIO(H09, star, 2) { swarm_env(); switch (sim::pick(5)) { case 0: star<SC>(0); break; case 1: star<LU>(1); break; case 2: star<LM>(1); break; case 3: cube_star<2>(); break; default: cube_star<3>(); } }
// ---- covers of an interval, densities, projections
SIM_SCENARIO(H09, projections, 1) {
  swarm_env(); Pts P = gen_points(1, 9, 24); auto X = dataset(P); size_t n = P.p.size(); int op = sim::pick(4); sim_desc("op=%d metric=%d points ", op, P.metric); for (auto& p : P.p) { for (auto x : p) sim_desc("%g ", x); sim_desc("/ "); }
  if (op <= 1) { size_t c = sim::pick(P.dim), ns = rnd(1, zm(8)); sim_desc("coordinate %zu, %zu sets ", c, ns); auto p = RUN(bats::coordinate_projection(X, c), dn, "coordinate projection"); need(p.size() == n, "wrong-shape", "%zu projections", p.size()); for (size_t i = 0; i < n; i++) need(p[i] == P.p[i][c], "wrong-value", "point %zu projects to %g", i, p[i]); auto cv = run([&] { return bats::uniform_interval_cover(p, ns); }, [](const bats::Cover& c) { uint64_t h = c.size(); for (auto& s : c) { h = H(h, s.size()); for (auto x : s) h = H(h, x); } return h; }, "interval cover");
    need(cv.size() == ns, "wrong-shape", "%zu sets instead of %zu", cv.size(), ns); double lo = *std::min_element(p.begin(), p.end()), hi = *std::max_element(p.begin(), p.end()), w = (hi - lo) * 2 / ns; if (hi == lo) { std::set<size_t> all; for (auto& s : cv) all.insert(s.begin(), s.end()); need(all.size() == n, "wrong-cover", "a point of a constant function is in no set"); return; }
    for (size_t i = 0; i < n; i++) { bool any = false; for (size_t s = 0; s < ns; s++) { double a = lo + s * w / 2, b = a + w, eps = 1e-9 * (hi - lo); bool in = cv[s].count(i); any |= in; if (p[i] > a + eps && p[i] < b - eps) need(in, "wrong-cover", "%g lies in [%g,%g) but point %zu is not in set %zu", p[i], a, b, i, s); if (p[i] < a - eps || p[i] > b + eps) need(!in, "wrong-cover", "%g lies outside [%g,%g) but point %zu is in set %zu", p[i], a, b, i, s); } need(any, "wrong-cover", "point %zu at %g is in no set", i, p[i]); } for (auto& s : cv) for (auto x : s) need(x < n, "wrong-cover", "point %zu of %zu", x, n); }
  else if (op == 2) { size_t k = sim::pick(n); auto g = RUN(with_metric(P.metric, [&](auto m) { return bats::kdist(X, m, k); }), dn, "distance to a neighbour"); DM d = dists(P, P.p); need(g.size() == n, "wrong-shape", "%zu distances", g.size()); for (size_t i = 0; i < n; i++) { auto r = d[i]; std::sort(r.begin(), r.end()); need(g[i] == r[k], "wrong-value", "the distance of point %zu to neighbour %zu is %g instead of %g", i, k, g[i], r[k]); } }
  else { std::set<size_t> s; for (size_t i = 0; i < n; i++) if (sim::chance(1, 2)) s.insert(i); auto g = run([&] { return bats::get_subset(X, s); }, [](const auto& r) { uint64_t h = r.size(); for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r.dim(); j++) h = H(h, (uint64_t) (int64_t) r(i, j)); return h; }, "subset"); need(g.size() == s.size() && (s.empty() || g.dim() == (size_t) P.dim), "wrong-shape", "subset of %zu points", g.size()); size_t r = 0; for (auto i : s) { for (int k = 0; k < P.dim; k++) need(g(r, (size_t) k) == P.p[i][k], "wrong-value", "entry (%zu,%d) of the subset", r, k); r++; } }
}
// ---- metrics
template <class T, class Fn> static void metric(const std::vector<std::vector<double>>& A, const std::vector<std::vector<double>>& B, int kind, Fn m) {
  typedef long double LD; const LD pi = acosl(-1.0L), tol = sizeof(T) == 4 ? 3e-3L : 1e-6L; size_t dim = A[0].size(); auto mk = [&](const std::vector<std::vector<double>>& p) { bats::Matrix<T> X(p.size(), dim); for (size_t i = 0; i < p.size(); i++) for (size_t k = 0; k < dim; k++) X(i, k) = (T) p[i][k]; return bats::DataSet<T>(X); };
  auto ref = [&](const std::vector<double>& x, const std::vector<double>& y) -> LD { LD s = 0, u = 0, v = 0, w = 0; for (size_t k = 0; k < dim; k++) { LD a = (T) x[k], b = (T) y[k], d = fabsl(a - b); if (kind == 0) s += d * d; else if (kind == 1) s += d; else if (kind == 2) s = std::max(s, d); u += a * a; v += b * b; w += a * b; } if (kind == 0) return sqrtl(s); if (kind < 3) return s; LD c = std::max(-1.0L, std::min(1.0L, w / sqrtl(u * v))); if (kind == 4 || kind == 6) c = fabsl(c); return kind < 5 ? 1 - c : acosl(c); };
  auto near = [&](T got, const std::vector<double>& x, const std::vector<double>& y, const char* what) { sim::Off o; LD w = ref(x, y); need(std::isfinite((double) got) && fabsl((LD) got - w) <= tol * (1 + w), "wrong-value", "%s: the distance is %.17g instead of %.17Lg", what, (double) got, w); if (kind != 3 && kind != 4) need(got >= 0 && (kind < 5 || (LD) got <= pi + tol), "wrong-value", "%s: the distance %.17g is out of range", what, (double) got); };
  auto X = mk(A), Y = mk(B); auto one = run([&] { std::vector<T> r; for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < B.size(); j++) r.push_back(m(X[i], Y[j])); return r; }, [](const auto& r) { return dn(r); }, "distances of points"); for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < B.size(); j++) near(one[i * B.size() + j], A[i], B[j], "two points");
  auto row = run([&] { return m(X[0], Y); }, [](const auto& r) { return dn(r); }, "distances from a point"); need(row.size() == B.size(), "wrong-shape", "%zu distances to %zu points", row.size(), B.size()); for (size_t j = 0; j < B.size(); j++) { near(row[j], A[0], B[j], "point and set"); }
  auto dm = [](const auto& D) { uint64_t h = H(D.nrow(), D.ncol()); for (size_t i = 0; i < D.nrow(); i++) for (size_t j = 0; j < D.ncol(); j++) { uint64_t b = 0; T v = D(i, j); memcpy(&b, &v, sizeof v); h = H(h, b); } return h; };
  { auto D = run([&] { return m(X, Y); }, dm, "distances of two sets"); need(D.nrow() == A.size() && D.ncol() == B.size(), "wrong-shape", "%zux%zu distances", D.nrow(), D.ncol()); for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < B.size(); j++) near(D(i, j), A[i], B[j], "two sets"); }
  { auto D = run([&] { return m(X); }, dm, "distances in a set"); need(D.nrow() == A.size() && D.ncol() == A.size(), "wrong-shape", "%zux%zu distances", D.nrow(), D.ncol()); for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < A.size(); j++) { near(D(i, j), A[i], A[j], "a set"); need(fabsl((LD) D(i, j) - D(j, i)) <= tol * (1 + fabsl(D(i, j))), "asymmetric", "distances (%zu,%zu) are %.17g and %.17g", i, j, (double) D(i, j), (double) D(j, i)); } }
}
SIM_SCENARIO(H09, metrics, 1) {
  swarm_env(); int kind = sim::pick(7), dim = rnd(1, zm(5)); double sc[] = {1, 1, 0.1, 1e-3, 1e3, 1.0 / 3}; auto pts = [&](int n) { std::vector<std::vector<double>> p; for (int i = 0; i < n; i++) { std::vector<double> x; double s = sc[sim::pick(6)]; if (i && sim::chance(1, 3)) { x = p[sim::pick(i)]; double f = (sim::chance(1, 2) ? -1 : 1) * sc[sim::pick(6)]; for (auto& v : x) v *= f; } else for (int k = 0; k < dim; k++) x.push_back(s * ((int) sim::pick(9) - 4)); bool z = true; for (auto v : x) z &= v == 0; if (z && kind > 2) x[0] = s; for (auto v : x) sim_desc("%.17g ", v); sim_desc("/ "); p.push_back(x); } return p; };
  sim_desc("metric %d ", kind); auto A = pts(rnd(1, zm(5))), B = pts(rnd(1, 4)); if (sim::chance(1, 2)) { for (auto& x : A) if (sim::chance(1, 2)) { B.push_back(x); if (sim::chance(1, 2)) for (auto& v : B.back()) v = -v; } } bool fl = sim::chance(1, 4);
  auto go = [&](auto m) { if (fl) metric<float>(A, B, kind, m); else metric<double>(A, B, kind, m); };
  switch (kind) { case 0: go(bats::Euclidean()); break; case 1: go(bats::L1Dist()); break; case 2: go(bats::LInfDist()); break; case 3: go(bats::CosineDist()); break; case 4: go(bats::RPCosineDist()); break; case 5: go(bats::AngleDist()); break; default: go(bats::RPAngleDist()); }
}
