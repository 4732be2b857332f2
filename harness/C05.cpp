#include "diagrams.hpp"
// points with half-integer coordinates so that distances compare exactly under L1 and Linf, and squared under L2
static double dref(const Pts& A, size_t i, const Pts& B, size_t j, int metric) { double s = 0; for (int k = 0; k < A.dim; k++) { double d = std::fabs(A.p[i][k] - B.p[j][k]); if (metric == 0) s += d * d; else if (metric == 1) s += d; else s = std::max(s, d); } return metric == 0 ? std::sqrt(s) : s; }
static Pts more(const Pts& P, int lo, int hi) { Pts Q; Q.dim = P.dim; Q.metric = P.metric; int n = many(lo, zm(hi)), span = rnd(1, 6); for (int i = 0; i < n; i++) { std::vector<double> x; if (P.p.size() && sim::chance(1, 3)) x = P.p[sim::pick(P.p.size())]; else for (int k = 0; k < P.dim; k++) x.push_back(rnd(0, span)); Q.p.push_back(x); } return Q; }
static void say(const char* n, const Pts& P) { sim_desc("%s:", n); for (auto& x : P.p) { sim_desc("("); for (auto v : x) sim_desc("%g ", v); sim_desc(")"); } sim_desc(" "); }
template <class T> void radius_case() {
  Pts X = gen_points(0, 9), Y = more(X, 0, 9); T r = (T) (rnd(0, 14) * 0.5); sim_desc("metric=%d r=%g ", X.metric, (double) r); say("X", X); say("Y", Y);
  auto DX = dataset<T>(X), DY = dataset<T>(Y); std::vector<std::vector<size_t>> nb;
  { sim::Sys s; nb = with_metric(X.metric, [&](auto m) { return bats::neighborhoods(DX, DY, m, r); }); }
  need(nb.size() == X.p.size(), "wrong-shape", "%zu entries for %zu query points", nb.size(), X.p.size());
  for (size_t i = 0; i < nb.size(); i++) {
    std::set<size_t> want, got(nb[i].begin(), nb[i].end()); need(got.size() == nb[i].size(), "duplicate-entry", "query %zu lists a point twice", i);
    for (size_t j = 0; j < Y.p.size(); j++) if ((T) dref(X, i, Y, j, X.metric) < r) want.insert(j);
    need(got == want, "wrong-neighbourhood", "query %zu: %s expected %s", i, show(got).c_str(), show(want).c_str());
  }
  if (X.p.size() > 1 && sim_max_threads() > 1) sim_probe("parallel-radius");
}
template <class T> void knn_check(const Pts& X, const Pts& Y, size_t k, const std::vector<std::vector<size_t>>& nb) {
  need(nb.size() == X.p.size(), "wrong-shape", "%zu entries for %zu query points", nb.size(), X.p.size()); size_t kk = std::min(k, Y.p.size());
  for (size_t i = 0; i < nb.size(); i++) {
    std::set<size_t> got(nb[i].begin(), nb[i].end()); need(nb[i].size() == kk && got.size() == kk, "wrong-neighbourhood", "query %zu lists %zu points (%zu distinct), expected %zu", i, nb[i].size(), got.size(), kk);
    std::vector<T> d, g; for (size_t j = 0; j < Y.p.size(); j++) d.push_back((T) dref(X, i, Y, j, X.metric)); for (size_t q = 0; q < kk; q++) { need(nb[i][q] < Y.p.size(), "wrong-neighbourhood", "query %zu lists point %zu of %zu", i, nb[i][q], Y.p.size()); g.push_back(d[nb[i][q]]); }
    std::sort(d.begin(), d.end()); for (size_t q = 0; q < kk; q++) need(g[q] == d[q], "wrong-neighbourhood", "query %zu: neighbour %zu is at distance %g, the %zu-th smallest is %g", i, q, (double) g[q], q, (double) d[q]);
  }
}
template <class T> void knn_case() {
  Pts X = gen_points(0, 9), Y = more(X, 1, 9); size_t k = rnd(0, (int) Y.p.size() + 2); sim_desc("metric=%d k=%zu ", X.metric, k); say("X", X); say("Y", Y);
  auto DX = dataset<T>(X), DY = dataset<T>(Y); std::vector<std::vector<size_t>> nb;
  { sim::Sys s; nb = with_metric(X.metric, [&](auto m) { return bats::neighborhoods(DX, DY, m, k); }); }
  knn_check<T>(X, Y, k, nb); if (X.p.size() > 1 && sim_max_threads() > 1) sim_probe("parallel-nearest");
  // covers: recompute each point's assignment from the membership lists
  bats::Cover c; { sim::Sys s; c = with_metric(X.metric, [&](auto m) { return bats::landmark_cover(DX, DY, m, k); }); }
  need(c.size() == Y.p.size(), "wrong-shape", "cover has %zu sets for %zu landmarks", c.size(), Y.p.size());
  std::vector<std::vector<size_t>> as(X.p.size()); for (size_t j = 0; j < c.size(); j++) for (auto i : c[j]) { need(i < X.p.size(), "wrong-cover", "set %zu contains point %zu of %zu", j, i, X.p.size()); as[i].push_back(j); }
  for (size_t i = 0; i < as.size(); i++) std::stable_sort(as[i].begin(), as[i].end(), [&](size_t a, size_t b) { return (T) dref(X, i, Y, a, X.metric) < (T) dref(X, i, Y, b, X.metric); });
  knn_check<T>(X, Y, k, as);
  for (size_t i = 0; i < as.size(); i++) need(std::set<size_t>(as[i].begin(), as[i].end()) == std::set<size_t>(nb[i].begin(), nb[i].end()), "cover-differs", "point %zu is assigned to landmarks other than its listed nearest ones", i);
  sim_probe("landmark-cover");
}
static void eps_case() {
  Pts X = gen_points(0, 9), Y = more(X, 1, 7); double eps = rnd(1, 8) * 0.5; sim_desc("metric=%d eps=%g ", X.metric, eps); say("X", X); say("L", Y);
  auto DX = dataset<double>(X), DY = dataset<double>(Y); bats::Cover c; { sim::Sys s; c = with_metric(X.metric, [&](auto m) { return bats::landmark_eps_cover(DX, DY, m, eps); }); }
  need(c.size() == Y.p.size(), "wrong-shape", "cover has %zu sets for %zu landmarks", c.size(), Y.p.size());
  for (size_t i = 0; i < X.p.size(); i++) { double mn = 1e300; for (size_t j = 0; j < Y.p.size(); j++) mn = std::min(mn, dref(X, i, Y, j, X.metric)); for (size_t j = 0; j < Y.p.size(); j++) { bool want = dref(X, i, Y, j, X.metric) < mn + eps; need(c[j].count(i) == (size_t) want, "wrong-cover", "point %zu %s the set of landmark %zu", i, want ? "is missing from" : "wrongly in", j); } }
  for (auto& s : c) for (auto i : s) need(i < X.p.size(), "wrong-cover", "a set contains point %zu of %zu", i, X.p.size());
  // from a matrix of distances: landmark by landmark, closed radius
  std::vector<std::set<size_t>> nb; { sim::Sys s; auto D = with_metric(X.metric, [&](auto m) { return m(DY, DX); }); nb = bats::neighborhoods(D, eps); } need(nb.size() == Y.p.size(), "wrong-shape", "%zu neighbourhoods for %zu landmarks", nb.size(), Y.p.size());
  for (size_t j = 0; j < nb.size(); j++) { std::set<size_t> want; for (size_t i = 0; i < X.p.size(); i++) if (dref(Y, j, X, i, X.metric) <= eps) want.insert(i); need(nb[j] == want, "wrong-neighbourhood", "landmark %zu: %s expected %s", j, show(nb[j]).c_str(), show(want).c_str()); }
}
// greedy and Hausdorff landmark selection: each next landmark is a furthest point, reported radii are the true ones
static void landmark_case() {
  Pts X = gen_points(1, 9); sim_desc("metric=%d ", X.metric); say("X", X); auto DX = dataset<double>(X); size_t n = X.p.size(), i0 = sim::pick(n); std::set<std::vector<double>> distinct(X.p.begin(), X.p.end());
  std::vector<size_t> inds; std::vector<double> hds; size_t k = n; int mode = sim::pick(3); sim_desc("i0=%zu mode=%d ", i0, mode);
  { sim::Sys s; if (mode == 0) std::tie(inds, hds) = with_metric(X.metric, [&](auto m) { return bats::greedy_landmarks_hausdorff(DX, m, i0); });
    else if (mode == 1) { k = 1 + sim::pick(n); std::tie(inds, hds) = with_metric(X.metric, [&](auto m) { return bats::greedy_landmarks_hausdorff(DX, m, i0, k); }); }
    else { auto D = with_metric(X.metric, [&](auto m) { return m(DX, DX); }); std::tie(inds, hds) = bats::greedy_landmarks_hausdorff(D, i0); } }
  need(inds.size() == k && hds.size() == k && inds[0] == i0, "wrong-landmarks", "%zu landmarks %zu radii, expected %zu", inds.size(), hds.size(), k);
  std::vector<double> d(n, 1e300); double h = 0;
  for (size_t t = 0; t < k; t++) {
    need(inds[t] < n, "wrong-landmarks", "landmark %zu is point %zu of %zu", t, inds[t], n); if (t) need(d[inds[t]] == h, "wrong-landmarks", "landmark %zu (point %zu) is at distance %g from the earlier ones, the furthest point is at %g", t, inds[t], d[inds[t]], h);
    h = 0; for (size_t i = 0; i < n; i++) { d[i] = std::min(d[i], dref(X, inds[t], X, i, X.metric)); h = std::max(h, d[i]); }
    need(hds[t] == h, "wrong-radius", "Hausdorff distance of the first %zu landmarks is %g, reported %g", t + 1, h, hds[t]);
  }
  // approximate centre: after k furthest-point steps from i0, the returned point minimises the largest distance to the landmarks (any choice among tied furthest points)
  { size_t kc = sim::pick(4), ck = kc ? kc : X.dim + 1, c; { sim::Sys s; c = kc == 0 && i0 == 0 && sim::chance(1, 2) ? with_metric(X.metric, [&](auto m) { return bats::approx_center(DX, m); }) : with_metric(X.metric, [&](auto m) { return bats::approx_center(DX, m, kc, i0); }); }
    need(c < n, "wrong-centre", "the centre is point %zu of %zu", c, n); long budget = 5000; bool ok = false;
    std::function<void(size_t, std::vector<double>, std::vector<double>)> rec = [&](size_t left, std::vector<double> lo, std::vector<double> hi) {
      if (ok || budget-- < 0) return;
      if (!left) { ok = hi[c] == *std::min_element(hi.begin(), hi.end()); return; }
      double far = *std::max_element(lo.begin(), lo.end());
      for (size_t t = 0; t < n; t++) if (lo[t] == far) { auto l2 = lo, h2 = hi; for (size_t i = 0; i < n; i++) { double v = dref(X, t, X, i, X.metric); l2[i] = std::min(l2[i], v); h2[i] = std::max(h2[i], v); } rec(left - 1, l2, h2); } };
    std::vector<double> d0(n); for (size_t i = 0; i < n; i++) d0[i] = dref(X, i0, X, i, X.metric); rec(ck, d0, d0);
    need(ok || budget < 0, "wrong-centre", "point %zu is not central to the %zu furthest-point landmarks from point %zu", c, ck + 1, i0); }
  // the two selections returning data sets
  size_t kd = 1 + sim::pick(distinct.size()); double r = rnd(0, 10) * 0.5; bats::DataSet<double> L, H;
  { sim::Sys s; L = with_metric(X.metric, [&](auto m) { return bats::greedy_landmarks(DX, kd, m, i0); }); H = with_metric(X.metric, [&](auto m) { return bats::hausdorff_landmarks(DX, r, m, i0); }); }
  need(L.size() == kd && (int) L.dim() == X.dim, "wrong-landmarks", "greedy_landmarks returned %zu points for k=%zu", L.size(), kd);
  std::set<std::vector<double>> seen; for (size_t i = 0; i < L.size(); i++) { std::vector<double> x; for (int c = 0; c < X.dim; c++) x.push_back(L(i, c)); need(distinct.count(x), "wrong-landmarks", "greedy_landmarks returned a point not in the data"); need(seen.insert(x).second, "wrong-landmarks", "greedy_landmarks returned a point twice"); }
  Pts HP; HP.dim = X.dim; HP.metric = X.metric; for (size_t i = 0; i < H.size(); i++) { std::vector<double> x; for (int c = 0; c < X.dim; c++) x.push_back(H(i, c)); need(distinct.count(x), "wrong-landmarks", "hausdorff_landmarks returned a point not in the data"); HP.p.push_back(x); }
  for (size_t i = 0; i < n; i++) { double m = 1e300; for (size_t j = 0; j < HP.p.size(); j++) m = std::min(m, dref(X, i, HP, j, X.metric)); need(m <= r, "wrong-landmarks", "point %zu is at distance %g > %g from the Hausdorff landmarks", i, m, r); }
  for (size_t i = 0; i < HP.p.size(); i++) for (size_t j = 0; j < i; j++) need(dref(HP, i, HP, j, X.metric) > r, "wrong-landmarks", "two Hausdorff landmarks are within %g", r);
}
SIM_SCENARIO(C05, radius, 3) { swarm_env(); if (sim::chance(1, 4)) radius_case<float>(); else radius_case<double>(); }
SIM_SCENARIO(C05, nearest, 3) { swarm_env(); if (sim::chance(1, 4)) knn_case<float>(); else knn_case<double>(); }
SIM_SCENARIO(C05, epscover, 1) { swarm_env(); eps_case(); }
SIM_SCENARIO(C05, landmarks, 2) { swarm_env(); landmark_case(); }
