#include "fileio.hpp"
// Save and load under short transfers and interrupted calls.
SIM_SCENARIO(S01, round_trip, 6) {
  swarm_env(); PP() = 0; Saved o = gen_saved(); sim_desc("%s ", o.type); old_file("/simfs/a"); legal_io(); sim_cerr_clear();
  o.save("/simfs/a"); need(sim_cerr_len() == 0, "spurious-report", "%s: saving without faults printed: %s", o.type, sim_cerr_text()); need(o.now() == o.text, "input-changed", "%s: saving changed the object", o.type);
  legal_io(); int reps = 1 + (int) sim::pick(2); for (int i = 0; i < reps; i++) { std::string got = o.load("/simfs/a"); need(got == o.text, "round-trip", "%s: saved %s loaded %s", o.type, o.text.c_str(), got.c_str()); legal_io(); }
  need(sim_cerr_len() == 0, "spurious-report", "%s: loading printed: %s", o.type, sim_cerr_text()); need(sim_fs_open_fds() == 0, "descriptor-leak", "%d files left open", sim_fs_open_fds());
  std::string first(sim_fs_data("/simfs/a"), sim_fs_size("/simfs/a")); legal_io(); o.save("/simfs/b"); need(std::string(sim_fs_data("/simfs/b"), sim_fs_size("/simfs/b")) == first, "not-reproducible", "%s: two saves of the same object differ", o.type);
  sim_io_reset(); sim_note(first.size());
}
SIM_SCENARIO(S01, overwrite, 2) { // a history of saves to few paths: each path holds the object saved last
  swarm_env(); PP() = 0; std::vector<Saved> os; int n = rnd(2, 4); for (int i = 0; i < n; i++) os.push_back(gen_saved()); int last[2] = {-1, -1}; static const char* path[] = {"/simfs/p0", "/simfs/p1"}; sim_cerr_clear();
  int steps = rnd(2, 7); for (int t = 0; t < steps; t++) { int p = sim::pick(2), i = sim::pick(n); legal_io(); if (sim::chance(1, 3) && last[p] >= 0) { std::string got = os[last[p]].load(path[p]); need(got == os[last[p]].text, "round-trip", "%s: saved %s loaded %s", os[last[p]].type, os[last[p]].text.c_str(), got.c_str()); } else { os[i].save(path[p]); last[p] = i; } }
  legal_io(); for (int p = 0; p < 2; p++) if (last[p] >= 0) { std::string got = os[last[p]].load(path[p]); need(got == os[last[p]].text, "round-trip", "%s: saved %s loaded %s", os[last[p]].type, os[last[p]].text.c_str(), got.c_str()); }
  need(sim_cerr_len() == 0, "spurious-report", "printed: %s", sim_cerr_text()); need(sim_fs_open_fds() == 0, "descriptor-leak", "%d files left open", sim_fs_open_fds()); sim_io_reset();
}
static std::vector<Saved>* g_os; static std::vector<std::string>* g_got;
SIM_SCENARIO(S01, concurrent, 2) { // several threads save and load objects of their own
  swarm_env(); PP() = 0; std::vector<Saved> os; int n = rnd(2, 4); for (int i = 0; i < n; i++) os.push_back(gen_saved()); std::vector<std::string> got(n); g_os = &os; g_got = &got; legal_io(); sim_cerr_clear();
  sim_team(n, [](int t, void*) { std::string f = "/simfs/t" + std::to_string(t); (*g_os)[t].save(f); std::string s = (*g_os)[t].load(f); sim::Off o; (*g_got)[t] = s; }, nullptr);
  for (int i = 0; i < n; i++) need(got[i] == os[i].text, "round-trip", "thread %d, %s: saved %s loaded %s", i, os[i].type, os[i].text.c_str(), got[i].c_str());
  need(sim_cerr_len() == 0, "spurious-report", "printed: %s", sim_cerr_text()); sim_io_reset(); sim_probe("concurrent-savers");
}
SIM_SCENARIO(S01, directed, 0) { // known finding: the loader sorts the vertices of a directed simplex
  bats::SimplicialComplex X; for (size_t i = 0; i < 2; i++) { std::vector<size_t> s{i}; X.add_directed(s); } std::vector<size_t> a{0, 1}, b{1, 0}; X.add_directed(a); X.add_directed(b); std::string t = canon(X), f = "/simfs/d"; X.save(f); bats::SimplicialComplex Y(std::move(f)); need(canon(Y) == t, "directed-round-trip", "saved %s loaded %s", t.c_str(), canon(Y).c_str());
}
