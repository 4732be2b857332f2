#include "fileio.hpp"
// Point clouds and cube lists.
static std::string number(double& v) { // a number the way people write them
  char b[64]; int k = sim::pick(6); if (k < 2) { int i = rnd(-50, 50); v = i; snprintf(b, 64, "%d", i); } else if (k == 2) { int i = rnd(-4000, 4000); snprintf(b, 64, "%d.%03d", i / 10, abs(i % 1000)); v = strtod(b, 0); } else if (k == 3) { v = (double) (int) sim::pick(1u << 30) / (1 + sim::pick(1000)) * (sim::pick(2) ? -1 : 1); snprintf(b, 64, "%.17g", v); } else if (k == 4) { snprintf(b, 64, "%d.%de%d", rnd(-9, 9), rnd(0, 99), rnd(-300, 300)); v = strtod(b, 0); } else { int i = rnd(0, 999); snprintf(b, 64, " +%d.", i); v = i; }
  return b;
}
template <class T> void check_cloud(const bats::Matrix<T>& A, const std::vector<std::vector<double>>& w, const char* what) {
  size_t n = w.size(), d = n ? w[0].size() : 0; need(A.nrow() == n && (n == 0 || A.ncol() == d), "wrong-size", "%s: matrix is %zux%zu, the file has %zu rows of %zu", what, A.nrow(), A.ncol(), n, d);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < d; j++) need(A(i, j) == T(w[i][j]), "wrong-value", "%s: entry (%zu,%zu) is %.17g, the file has %.17g", what, i, j, (double) A(i, j), (double) T(w[i][j]));
}
template <class T> void cloud() {
  bool big = sim::pick(12) == 11, header = sim::chance(1, 3); size_t n = big ? 200 + sim::pick(500) : rnd(0, 7), d = rnd(1, 4); std::vector<std::vector<double>> w(n, std::vector<double>(d)); std::string s = header ? (sim::chance(1, 2) ? "x,y,z\n" : "1,2\n") : ""; bool tail = sim::chance(1, 4), nonl = sim::chance(1, 4), crlf = sim::pick(8) == 7, blank = sim::pick(6) == 5;
  for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < d; j++) s += (j ? "," : "") + number(w[i][j]); if (tail) s += ","; if (crlf && !tail) s += "\r"; if (i + 1 < n || !nonl) s += "\n"; if (blank && i + 1 < n && i % 2) s += "\n"; }
  sim_desc("%zux%zu%s%s ", n, d, header ? " header" : "", big ? " big" : ""); sim_fs_put("/simfs/p.csv", s.data(), s.size()); std::string f = "/simfs/p.csv"; legal_io(); sim_cerr_clear();
  bats::Matrix<T> A; { sim::Sys y; A = bats::read_point_cloud<T>(f, header); } sim_io_reset(); need(sim_cerr_len() == 0, "spurious-report", "reading a regular file printed: %s", sim_cerr_text()); check_cloud(A, w, "point cloud"); bats::DataSet<T> D(A); if (n) need(D.size() == n && D.dim() == d, "wrong-size", "data set"); if (n > 1 && d > 1) sim_probe("rectangular"); A.free();
  // faults: a read error is reported, or the data are complete; an inconsistent row is reported
  int k = sim_fpick(4); sim_cerr_clear(); bool threw = false; std::string t = s; legal_io();
  if (k == 0) { if (sim_fpick(3)) sim_io.fail_read_at = sim_fpick(3); else sim_io.p_eio_read = 200; sim_probe("read-error"); }
  else if (k == 1) { sim_io.fail_open_at = 0; }
  else if (k == 2 && n > 1) { size_t r = sim_fpick(n); std::string u = header ? s.substr(0, s.find('\n') + 1) : ""; for (size_t i = 0; i < n; i++) { size_t q = i == r ? (d > 1 && sim_fpick(2) ? d - 1 : d + 1 + sim_fpick(60)) : d; for (size_t j = 0; j < q; j++) u += (j ? "," : "") + std::to_string(j); u += "\n"; } t = u; sim_probe("inconsistent-row"); }
  else if (k == 3 && n) { t[t.size() - 1 - sim_fpick((uint32_t) std::min<size_t>(t.size(), 30))] = "x,;\n-"[sim_fpick(5)]; sim_probe("damaged-number"); }
  sim_fs_put("/simfs/p.csv", t.data(), t.size()); bats::Matrix<T> B; long f0 = sim_io_read_faults(); try { sim::Sys y; B = bats::read_point_cloud<T>(f, header); } catch (std::exception&) { threw = true; } bool fired = sim_io_read_faults() > f0; sim_io_reset(); bool rep = threw || sim_cerr_len() > 0;
  if (k <= 1) { if (!rep) { check_cloud(B, w, "point cloud read with an error nobody reported"); } else need(fired, "spurious-report", "reported a failure although none happened: %s", sim_cerr_text()); }
  if (k == 1) need(rep, "silent-loss", "a file that cannot be opened was not reported"); if (k == 2 && n > 1) need(rep, "silent-loss", "an inconsistent row was not reported");
  if (!threw) { double q = 0; for (size_t i = 0; i < B.nrow(); i++) for (size_t j = 0; j < B.ncol(); j++) q += B(i, j); sim_note((uint64_t) (q != 0)); B.free(); } need(sim_fs_open_fds() == 0, "descriptor-leak", "%d files left open", sim_fs_open_fds());
}
SIM_SCENARIO(S05, points, 4) { swarm_env(); if (sim::chance(1, 4)) cloud<float>(); else cloud<double>(); }
typedef std::vector<size_t> Cube;
static void faces_of(const Cube& c, std::set<Cube>& out) { if (!out.insert(c).second) return; for (size_t k = 0; k < c.size(); k += 2) if (c[k] != c[k + 1]) for (int e = 0; e < 2; e++) { Cube f = c; f[k] = f[k + 1] = c[k + e]; faces_of(f, out); } }
static size_t cdim(const Cube& c) { size_t q = 0; for (size_t k = 0; k < c.size(); k += 2) q += c[k + 1] - c[k]; return q; }
static std::string cubes_differ(const bats::CubicalComplex& X, const std::vector<Cube>& order, size_t d, bool prefix) {
  std::vector<std::vector<Cube>> w(d + 1); for (auto& c : order) w[cdim(c)].push_back(c); size_t tot = 0;
  if (X.maxdim() != d) return "dimension is " + std::to_string(X.maxdim());
  for (size_t k = 0; k <= d; k++) { auto g = X.get_cubes(k); tot += g.size(); if (g.size() > w[k].size() || (!prefix && g.size() != w[k].size())) return std::to_string(g.size()) + " cubes of dimension " + std::to_string(k) + ", the file lists " + std::to_string(w[k].size()); for (size_t i = 0; i < g.size(); i++) { if (g[i] != w[k][i]) return "cube " + std::to_string(i) + " of dimension " + std::to_string(k) + " is " + show(g[i]) + " instead of " + show(w[k][i]); if (X.find_idx(g[i]) != i) return "lookup of " + show(g[i]); }
    if (k && g.size()) { MT<int> b(X.boundary_csc(k)); if (b.ncol() != g.size() || b.nrow() != X.ncells(k - 1)) return "boundary of the wrong shape"; for (size_t j = 0; j < g.size(); j++) { std::set<Cube> fs, got; for (size_t q = 0; q < g[j].size(); q += 2) if (g[j][q] != g[j][q + 1]) for (int e = 0; e < 2; e++) { Cube f = g[j]; f[q] = f[q + 1] = g[j][q + e]; fs.insert(f); } for (auto it = b[j].nzbegin(); it != b[j].nzend(); ++it) got.insert(X.get_cube(k - 1, it->ind)); if (got != fs) return "faces of " + show(g[j]); } } }
  return "";
}
SIM_SCENARIO(S05, cubes, 3) {
  swarm_env(); size_t d = rnd(1, 3); std::set<Cube> all; int n = rnd(0, 4); size_t scale = sim::chance(1, 4) ? 100000 : 1; for (int i = 0; i < n; i++) { Cube c; for (size_t k = 0; k < d; k++) { size_t x = rnd(0, 3) * scale; c.push_back(x); c.push_back(x + sim::pick(2)); } faces_of(c, all); }
  std::vector<Cube> o(all.begin(), all.end()); for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[sim::pick(i)]); bool mixed = sim::chance(1, 2); std::vector<Cube> order;
  if (!mixed) { std::stable_sort(o.begin(), o.end(), [](const Cube& a, const Cube& b) { return cdim(a) < cdim(b); }); order = o; } else { std::set<Cube> done; std::function<void(const Cube&)> put = [&](const Cube& c) { if (done.count(c)) return; for (size_t k = 0; k < c.size(); k += 2) if (c[k] != c[k + 1]) for (int e = 0; e < 2; e++) { Cube f = c; f[k] = f[k + 1] = c[k + e]; put(f); } done.insert(c); order.push_back(c); }; for (auto& c : o) put(c); }
  std::string s; bool nonl = sim::chance(1, 4), tail = sim::chance(1, 4); for (size_t i = 0; i < order.size(); i++) { for (size_t k = 0; k < order[i].size(); k++) s += (k ? "," : "") + std::to_string(order[i][k]); if (tail) s += ","; if (i + 1 < order.size() || !nonl) s += "\n"; if (sim::pick(8) == 7 && i + 1 < order.size()) { for (size_t k = 0; k < order[i].size(); k++) s += (k ? "," : "") + std::to_string(order[i][k]); s += "\n"; sim_probe("cube-listed-twice"); } }
  sim_desc("%zu cubes in dimension %zu ", order.size(), d); sim_fs_put("/simfs/c.txt", s.data(), s.size()); std::string f = "/simfs/c.txt"; legal_io(); sim_cerr_clear(); bats::CubicalComplex X(d); { sim::Sys y; X.load_cubes(f); } sim_io_reset(); need(sim_cerr_len() == 0, "spurious-report", "loading a regular file printed: %s", sim_cerr_text()); std::string e = cubes_differ(X, order, d, false); need(e.empty(), "wrong-cubes", "%s", e.c_str());
  int k = sim_fpick(4); legal_io(); sim_cerr_clear(); bool threw = false; std::string t = s; bats::CubicalComplex Y(d);
  if (k == 0) { if (sim_fpick(3)) sim_io.fail_read_at = sim_fpick(3); else sim_io.p_eio_read = 200; sim_probe("read-error"); } else if (k == 1) sim_io.fail_open_at = 0; else if (k == 2 && t.size()) { t.resize(sim_fpick((uint32_t) t.size())); sim_probe("cut-off"); } else if (k == 3 && t.size()) { t[sim_fpick((uint32_t) t.size())] = "x,;\n-"[sim_fpick(5)]; sim_probe("damaged-number"); }
  sim_fs_put("/simfs/c.txt", t.data(), t.size()); long f0 = sim_io_read_faults(); try { sim::Sys y; Y.load_cubes(f); } catch (std::exception&) { threw = true; } bool fired = sim_io_read_faults() > f0; sim_io_reset(); bool rep = threw || sim_cerr_len() > 0;
  if (k <= 1) { e = cubes_differ(Y, order, d, rep); need(e.empty(), rep ? "wrong-cubes" : "silent-loss", "%s: %s", rep ? "after a reported read error" : "nothing was reported", e.c_str()); if (rep) need(fired, "spurious-report", "reported a failure although none happened: %s", sim_cerr_text()); } if (k == 1) need(rep, "silent-loss", "a file that cannot be opened was not reported");
  if (k == 2) { std::vector<Cube> sub; e = cubes_differ(Y, order, d, true); if (!e.empty() && t.size() && s[t.size()] != '\n') { sim_probe("cut-inside-a-number"); } else need(e.empty(), "wrong-cubes", "after a cut: %s", e.c_str()); }
  if (!threw) for (size_t q = 0; q <= d; q++) for (auto& c : Y.get_cubes(q)) { std::set<Cube> fs; faces_of(c, fs); for (auto& x : fs) need(Y.find_idx(x) != bats::NO_IND, "not-closed", "cube %s without its face %s", show(c).c_str(), show(x).c_str()); } need(sim_fs_open_fds() == 0, "descriptor-leak", "%d files left open", sim_fs_open_fds());
}
