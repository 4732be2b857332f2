#include "fileio.hpp"
#include <sstream>
// Torn, damaged and unreadable files.
static std::vector<std::string> lines_of(const std::string& s) { std::vector<std::string> r; size_t a = 0; while (a < s.size()) { size_t b = s.find('\n', a); if (b == std::string::npos) b = s.size(); r.push_back(s.substr(a, b - a)); a = b + 1; } return r; }
static std::vector<std::string> tokens(const std::string& l) { std::vector<std::string> r; size_t a = 0; while (a < l.size()) { size_t b = l.find(',', a); if (b == std::string::npos) b = l.size(); if (b > a) r.push_back(l.substr(a, b - a)); a = b + 1; } return r; }
static bool num(const std::string& t, ll& v) { if (t.empty()) return false; char* e; errno = 0; v = strtoll(t.c_str(), &e, 10); return e != t.c_str(); }
// what a complex or matrix may hold: only what the file lists
static std::string bad_complex(const bats::SimplicialComplex& X, const std::string& file) {
  std::set<Spx> listed; auto L = lines_of(file); for (size_t i = 0; i < L.size(); i++) { Spx s; bool ok = true; for (auto& t : tokens(L[i])) { char* e; unsigned long long v = strtoull(t.c_str(), &e, 10); if (e == t.c_str()) ok = false; s.push_back(v); } if (ok) { std::sort(s.begin(), s.end()); listed.insert(s); } }
  auto c = cells_of(X); std::set<Spx> all; for (size_t k = 0; k < c.size(); k++) for (size_t i = 0; i < c[k].size(); i++) { if (c[k][i].size() != k + 1) return "a cell of dimension " + std::to_string(k) + " has vertices " + show(c[k][i]); if (!all.insert(c[k][i]).second) return "cell " + show(c[k][i]) + " twice"; if (!listed.count(c[k][i])) return "cell " + show(c[k][i]) + " is not in the file"; if (X.find_idx(c[k][i]) != i) return "lookup of " + show(c[k][i]); }
  for (auto& s : all) if (s.size() > 1) for (size_t i = 0; i < s.size(); i++) { Spx f = s; f.erase(f.begin() + i); if (!all.count(f)) return "cell " + show(s) + " without its face " + show(f); }
  for (size_t k = 1; k < c.size(); k++) { MT<int> b(X.boundary_csc(k)); if (b.nrow() != X.ncells(k - 1) || b.ncol() != X.ncells(k)) return "boundary of the wrong shape"; for (size_t j = 0; j < b.ncol(); j++) for (auto it = b[j].nzbegin(); it != b[j].nzend(); ++it) if (it->ind >= b.nrow()) return "boundary entry out of range"; }
  return "";
}
static bool parse_col(const std::string& l, std::vector<std::pair<ll, ll>>& e) { for (auto& t : tokens(l)) { size_t k = t.find(':'); ll i, v; if (k == std::string::npos || !num(t.substr(0, k), i) || !num(t.substr(k + 1), v)) return false; e.push_back({i, v}); } return true; }
template <class F> std::string bad_matrix(const MT<F>& A, const std::vector<std::string>& L, size_t at, size_t& next) {
  if (A.cols().size() != A.ncol()) return "stored columns differ from ncol()"; if (at + 1 >= L.size()) return "no dimensions in the file";
  std::string d = L[at + 1]; size_t k = d.find(','); ll r, c; if (k == std::string::npos || !num(d.substr(0, k), r) || !num(d.substr(k + 1), c)) return "no dimensions in the file"; if ((ll) A.nrow() != r || (ll) A.ncol() != c) return "is " + std::to_string(A.nrow()) + "x" + std::to_string(A.ncol()) + ", the file says " + d;
  for (size_t j = 0; j < A.ncol(); j++) {
    if (at + 2 + j >= L.size()) return "column " + std::to_string(j) + " is not in the file"; std::vector<std::pair<ll, ll>> e; if (!parse_col(L[at + 2 + j], e)) return "column " + std::to_string(j) + " was read from '" + L[at + 2 + j] + "'"; ll last = -1; size_t q = 0;
    for (auto it = A[j].nzbegin(); it != A[j].nzend(); ++it, ++q) { if (it->ind >= A.nrow()) return "row index " + std::to_string(it->ind) + " outside the matrix"; if ((ll) it->ind <= last) return "column " + std::to_string(j) + " is not sorted"; last = it->ind; if (q >= e.size() || e[q].first != (ll) it->ind || !(F((int) e[q].second) == it->val)) return "entry " + std::to_string(q) + " of column " + std::to_string(j) + " is not the one in the file"; }
    if (q != e.size()) return "column " + std::to_string(j) + " lost entries";
  }
  next = at + 2 + A.ncol(); return "";
}
struct Torn { const char* type; std::function<void(const std::string&)> save; std::function<std::string(const std::string&, const std::string&, bool&)> load; };
template <class T> Torn torn(const char* type, const T& x, std::function<T(std::string)> ld, std::function<std::string(const T&, const std::string&)> judge) {
  auto p = std::make_shared<T>(x); Torn t; t.type = type; t.save = [p](const std::string& f) { std::string n = f; sim::Sys y; p->save(n); };
  t.load = [ld, judge](const std::string& f, const std::string& content, bool& threw) { sim::Sys y; threw = false; try { T z = ld(f); sim::Off o; return judge(z, content); } catch (std::exception& e) { sim::Off o; threw = true; return std::string(); } };
  return t;
}
template <class F> Torn torn_matrix(const char* n, bool big) { return torn<MT<F>>(n, gen_saved_matrix<F>(big), [](std::string f) { return MT<F>(f); }, [](const MT<F>& A, const std::string& c) { if (A.nrow() == 0 && A.ncol() == 0 && sim_cerr_len() > 0) return std::string(); size_t nx; return bad_matrix<F>(A, lines_of(c), 0, nx); }); }
static Torn gen_torn() {
  bool big = sim::pick(16) == 15;
  switch (sim::pick(6)) {
    case 0: case 1: return torn<bats::SimplicialComplex>("simplicial complex", gen_saved_complex(big), [](std::string f) { return bats::SimplicialComplex(std::move(f)); }, [](const bats::SimplicialComplex& X, const std::string& c) { return bad_complex(X, c); });
    case 2: return torn_matrix<int>("integer matrix", big); case 3: return torn_matrix<F3>("F3 matrix", big);
    default: return torn<bats::CellularMap>("cellular map", gen_saved_map(big), [](std::string f) { return bats::CellularMap(f); }, [](const bats::CellularMap& f, const std::string& c) { auto L = lines_of(c); size_t at = 1; for (size_t k = 0; k < f.maxdim() + 1; k++) { std::string e = bad_matrix<int>(f[k], L, at, at); if (!e.empty()) return "map " + std::to_string(k) + ": " + e; } return std::string(); });
  }
}
SIM_SCENARIO(S03, damaged, 6) {
  swarm_env(); PP() = 0; Torn o = gen_torn(); sim_io_reset(); o.save("/simfs/a"); std::string s(sim_fs_data("/simfs/a"), sim_fs_size("/simfs/a")); int rounds = rnd(1, 4);
  for (int r = 0; r < rounds; r++) {
    std::string t = s; int kind = sim_fpick(7); bool readerr = false; legal_io(); size_t at = sim_fpick((uint32_t) s.size() + 1); if (kind == 0 && at == s.size() && at) at--;
    switch (kind) {
      case 0: t.resize(at); sim_probe("cut-off"); break;                                   // crash before the rest was written
      case 1: case 2: { static const char ch[] = "0179,:-x \n\0""5"; int n = 1 + sim_fpick(2); for (int i = 0; i < n && at < t.size(); i++) { t[at] = ch[sim_fpick(12)]; at = sim_fpick((uint32_t) s.size()); } sim_probe("damaged-bytes"); break; }
      case 3: for (size_t i = at; i < t.size(); i++) t[i] = 0; sim_probe("zeroed-tail"); break;   // allocated but not written
      case 4: { size_t a = sim_fpick((uint32_t) s.size() + 1); if (a > at) std::swap(a, at); t = s.substr(0, a) + s.substr(at); sim_probe("lost-block"); break; }
      case 5: { size_t a = sim_fpick((uint32_t) s.size() + 1); if (a > at) std::swap(a, at); t = s.substr(0, at) + s.substr(a); sim_probe("repeated-block"); break; }
      default: readerr = true; if (sim_fpick(2)) sim_io.fail_read_at = sim_fpick(4); else sim_io.p_eio_read = 40 + sim_fpick(200); if (sim_fpick(4) == 0) sim_io.fail_open_at = 0; sim_probe("read-error");
    }
    sim_fs_put("/simfs/b", t.data(), t.size()); sim_desc("damage=%d@%zu ", kind, at); sim_cerr_clear(); bool threw; std::string e = o.load("/simfs/b", t, threw); sim_io_reset(); (void) readerr;
    need(e.empty(), "malformed-object", "%s loaded from a damaged file: %s", o.type, e.c_str()); if (threw) sim_probe("rejected"); else sim_probe("accepted"); need(sim_fs_open_fds() == 0, "descriptor-leak", "%d files left open", sim_fs_open_fds()); sim_note(threw);
  }
}
// a directory, a missing file, an empty file, a file of another type
SIM_SCENARIO(S03, other_files, 1) {
  swarm_env(); PP() = 0; Torn o = gen_torn(), q = gen_torn(); sim_io_reset(); legal_io(); int k = sim_fpick(3); std::string f = k == 0 ? "/simfs/none" : "/simfs/c", c; if (k == 1) sim_fs_put("/simfs/c", "", 0); if (k == 2) { sim_io_reset(); q.save("/simfs/c"); c.assign(sim_fs_data("/simfs/c"), sim_fs_size("/simfs/c")); legal_io(); }
  sim_cerr_clear(); bool threw; std::string e = o.load(f, c, threw); sim_io_reset(); need(e.empty(), "malformed-object", "%s loaded from %s: %s", o.type, k == 0 ? "a missing file" : k == 1 ? "an empty file" : q.type, e.c_str()); if (k == 0) need(threw || sim_cerr_len() > 0, "silent-loss", "%s: loading a missing file reported nothing", o.type);
}
