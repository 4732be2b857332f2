#include "fileio.hpp"
#include <sys/stat.h>
// Parallel saving of diagrams.
struct DSaved { std::string meta; std::vector<std::string> node, edge; std::function<void(std::string)> save; std::function<std::string(std::string)> loadn, loade; std::function<std::string()> now; std::string before; };
template <class N> std::string load_canon(std::string f); 
template <> std::string load_canon<bats::SimplicialComplex>(std::string f) { bats::SimplicialComplex X(std::move(f)); return canon(X); }
template <> std::string load_canon<bats::CellularMap>(std::string f) { return canon(bats::CellularMap(f)); }
template <> std::string load_canon<MZ>(std::string f) { return canon<int>(MZ(f)); }
template <> std::string load_canon<MT<F5>>(std::string f) { return canon<F5>(MT<F5>(f)); }
static std::string can(const bats::SimplicialComplex& x) { return canon(x); } static std::string can(const bats::CellularMap& x) { return canon(x); } static std::string can(const MZ& x) { return canon<int>(x); } static std::string can(const MT<F5>& x) { return canon<F5>(x); }
template <class N, class E> DSaved dsaved(const bats::Diagram<N, E>& D0) {
  auto D = std::make_shared<bats::Diagram<N, E>>(D0); DSaved s; s.meta = std::to_string(D->nnode()) + "\n" + std::to_string(D->nedge()) + "\n"; for (auto& e : D->elist) s.meta += std::to_string(e.src) + "," + std::to_string(e.targ) + "\n";
  for (size_t i = 0; i < D->nnode(); i++) s.node.push_back(can(D->node[i])); for (size_t i = 0; i < D->nedge(); i++) s.edge.push_back(can(D->edata[i]));
  s.save = [D](std::string f) { sim::Sys y; D->save(f); }; s.loadn = [](std::string f) { return load_canon<N>(f); }; s.loade = [](std::string f) { return load_canon<E>(f); };
  s.now = [D] { std::string t; for (auto& x : D->node) t += can(x) + "#"; for (auto& x : D->edata) t += can(x) + "#"; for (auto& e : D->elist) t += std::to_string(e.src) + "," + std::to_string(e.targ) + ";"; return t; }; s.before = s.now(); return s;
}
static DSaved gen_dsaved() {
  int kind = sim::pick(4);
  if (kind == 0) { RefDiag ref; size_t dmax = rnd(1, 2); auto D = gen_covers(5, 7, 4, rnd(3, 5), dmax, ref); return dsaved(bats::Nerve(D, dmax)); }
  int n = many(0, zm(12)), m = n ? many(0, zm(14)) : 0; sim_desc("%d nodes %d edges ", n, m); auto ends = [&](auto& D, int j, auto x) { D.set_edge(j, sim::pick(n), sim::pick(n), x); };
  if (kind == 1) { bats::Diagram<bats::SimplicialComplex, bats::CellularMap> D(n, m); for (int i = 0; i < n; i++) D.set_node(i, gen_saved_complex(false)); for (int j = 0; j < m; j++) ends(D, j, gen_saved_map(false)); return dsaved(D); }
  if (kind == 2) { bats::Diagram<MZ, MZ> D(n, m); for (int i = 0; i < n; i++) D.set_node(i, gen_saved_matrix<int>(sim::pick(30) == 29)); for (int j = 0; j < m; j++) ends(D, j, gen_saved_matrix<int>(false)); return dsaved(D); }
  bats::Diagram<bats::SimplicialComplex, MT<F5>> D(n, m); for (int i = 0; i < n; i++) D.set_node(i, gen_saved_complex(false)); for (int j = 0; j < m; j++) ends(D, j, gen_saved_matrix<F5>(false)); return dsaved(D);
}
// empty string: the directory holds exactly the diagram (and, if fresh, nothing else)
static std::string wrong_dir(const DSaved& s, const std::string& d, bool fresh) {
  std::string p = d + "/metadata"; if (sim_fs_size(p.c_str()) < 0) return "no metadata"; std::string m(sim_fs_data(p.c_str()), sim_fs_size(p.c_str())); if (m != s.meta) return "metadata is '" + m + "' instead of '" + s.meta + "'";
  std::set<std::string> want{p};
  for (int e = 0; e < 2; e++) for (size_t i = 0; i < (e ? s.edge : s.node).size(); i++) { std::string f = d + (e ? "/edge" : "/node") + std::to_string(i), got; want.insert(f); if (sim_fs_size(f.c_str()) < 0) return "no file " + f; try { got = e ? s.loade(f) : s.loadn(f); } catch (std::exception& x) { got = std::string("exception ") + x.what(); } if (got != (e ? s.edge : s.node)[i]) return f + " loads as " + got + " instead of " + (e ? s.edge : s.node)[i]; }
  if (fresh) for (int i = 0; i < sim_fs_count(); i++) { std::string f = sim_fs_name(i); if (f.compare(0, d.size() + 1, d + "/") == 0 && !want.count(f)) return "unexpected file " + f; }
  return "";
}
SIM_SCENARIO(S04, save, 5) {
  swarm_env(); PP() = 0; DSaved s = gen_dsaved(); std::string d = "/simfs/dg"; bool fresh = true; if (sim_fpick(3) == 2) { sim_io_reset(); mkdir("/simfs/dg", 0777); for (size_t i = 0; i < s.node.size(); i++) if (sim_fpick(2)) old_file(("/simfs/dg/node" + std::to_string(i)).c_str()); for (size_t i = 0; i < s.edge.size(); i++) if (sim_fpick(2)) old_file(("/simfs/dg/edge" + std::to_string(i)).c_str()); if (sim_fpick(2)) old_file("/simfs/dg/metadata"); sim_probe("directory-exists"); }
  legal_io(); sim_cerr_clear(); s.save(d); sim_io_reset(); need(sim_cerr_len() == 0, "spurious-report", "saving without faults printed: %s", sim_cerr_text()); std::string e = wrong_dir(s, d, fresh); need(e.empty(), "unfaithful-save", "%s", e.c_str()); need(s.now() == s.before, "input-changed", "saving changed the diagram"); need(sim_fs_open_fds() == 0, "descriptor-leak", "%d files left open", sim_fs_open_fds());
  if (sim_max_threads() > 1 && s.node.size() > 1) sim_probe("parallel-writers");
  if (sim::chance(1, 3)) { swarm_env(); legal_io(); s.save(d); sim_io_reset(); e = wrong_dir(s, d, fresh); need(e.empty(), "unfaithful-save", "second save: %s", e.c_str()); }
}
SIM_SCENARIO(S04, failing, 4) {
  swarm_env(); PP() = 0; DSaved s = gen_dsaved(); std::string d = "/simfs/dg"; size_t files = 1 + s.node.size() + s.edge.size(); legal_io(); int k = sim_fpick(7);
  switch (k) { case 0: sim_io.fail_open_at = sim_fpick((uint32_t) files); break; case 1: sim_io.fail_write_at = sim_fpick((uint32_t) files); break; case 2: sim_io.fail_close_at = sim_fpick((uint32_t) files); break; case 3: sim_io.disk_limit = sim_fpick(400); break; case 4: sim_io.p_mkdir_fail = 255; break; case 5: sim_io.p_eio_write = 10 + sim_fpick(120); break; default: sim_io.p_open_fail = 10 + sim_fpick(120); }
  sim_cerr_clear(); long f0 = sim_io_write_faults(); bool threw = false; try { s.save(d); } catch (std::exception&) { threw = true; } bool rep = threw || sim_cerr_len() > 0, fired = sim_io_write_faults() > f0; sim_io_reset();
  need(s.now() == s.before, "input-changed", "a save changed the diagram"); need(sim_fs_open_fds() == 0, "descriptor-leak", "%d files left open", sim_fs_open_fds());
  if (!rep) { std::string e = wrong_dir(s, d, true); need(e.empty(), "silent-loss", "nothing was reported, but %s", e.c_str()); } else { need(fired, "spurious-report", "reported a failure although no operation failed: %s", sim_cerr_text()); sim_probe("failure-reported"); if (sim_max_threads() > 1) sim_probe("reported-by-parallel-writer"); }
  swarm_env(); legal_io(); sim_cerr_clear(); s.save(d); sim_io_reset(); need(sim_cerr_len() == 0, "retry-fails", "saving again without faults printed: %s", sim_cerr_text()); std::string e = wrong_dir(s, d, true); need(e.empty(), "retry-fails", "saved again without faults, but %s", e.c_str());
}
