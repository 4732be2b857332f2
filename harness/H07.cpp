#include "kinds.hpp"
// Histories of copies, assignments, moves, swaps, changes and destructions over a pool of objects of one type. Every live object is compared, after
// every step, with a fresh one on which only its own changes were replayed; at the end nothing may be left allocated.
using namespace kinds;
static void quiet() { std::cout.setstate(std::ios::failbit); }
// ---- the pool
template <class T> struct Kind { const char* name; std::function<T(unsigned)> make; std::function<void(T&, unsigned)> mut; std::function<uint64_t(const T&)> dig; };
template <class T> struct Slot { T* p = nullptr; bool moved = false; std::vector<unsigned> log; uint64_t want = 0; };
template <class T> void history(const Kind<T>& K) {
  sim_step_limit(2000000000ull); std::vector<Slot<T>> S(2 + sim::pick(4)); int n = rnd(1, 16); long mark = 0; std::vector<T> vec; std::vector<Slot<T>> vs;
  auto rebuilt = [&](const std::vector<unsigned>& log) { sim::Off o; T x = K.make(log[0]); for (size_t i = 1; i < log.size(); i++) K.mut(x, log[i]); return K.dig(x); };
  { sim::Sys s; T x = K.make(0); K.mut(x, 0); sim::Off o; K.dig(x); } mark = sim_leak_mark();
  auto code = [] { return (unsigned) sim::pick(1u << 12); }; auto drop = [&](Slot<T>& x) { { sim::Sys s; delete x.p; } x = Slot<T>(); };
  for (int i = 0; i < n; i++) {
    size_t a = sim::pick(S.size()), b = sim::pick(S.size()), live = S.size(); for (size_t q = 0; q < S.size(); q++) { size_t z = (a + q) % S.size(); if (S[z].p && !S[z].moved) { live = z; break; } }
    int op = live == S.size() ? 0 : (int) sim::pick(12); std::string what;
    if (op == 0) { unsigned c = code(); if (S[b].p) drop(S[b]); { sim::Sys s; S[b].p = new T(K.make(c)); } S[b].log = {c}; S[b].want = rebuilt(S[b].log); what = "create " + std::to_string(b); }
    else { a = live; auto& A = S[a]; auto& B = S[b]; bool same = a == b;
      switch (op) {
        case 1: if (same) continue; if (B.p) drop(B); { sim::Sys s; B.p = new T(*A.p); } B.log = A.log; B.want = A.want; what = "copy " + std::to_string(a) + " to " + std::to_string(b); break;
        case 2: case 3: if (!B.p) continue; { sim::Sys s; T& r = *A.p; *B.p = r; } B.log = A.log; B.want = A.want; B.moved = false; what = "assign " + std::to_string(a) + " to " + std::to_string(b); if (same) sim_probe("self-assign"); break;
        case 4: if (same) continue; if (B.p) drop(B); { sim::Sys s; B.p = new T(std::move(*A.p)); } B.log = A.log; B.want = A.want; A.moved = true; what = "move " + std::to_string(a) + " to " + std::to_string(b); break;
        case 5: if (same || !B.p) continue; { sim::Sys s; *B.p = std::move(*A.p); } B.log = A.log; B.want = A.want; B.moved = false; A.moved = true; what = "move-assign " + std::to_string(a) + " to " + std::to_string(b); break;
        case 6: case 7: { unsigned c = code(); { sim::Sys s; K.mut(*A.p, c); } A.log.push_back(c); A.want = rebuilt(A.log); what = "change " + std::to_string(a); break; }
        case 8: drop(A); what = "destroy " + std::to_string(a); break;
        case 9: if (same || !B.p || B.moved) continue; { sim::Sys s; std::swap(*A.p, *B.p); } std::swap(A.log, B.log); std::swap(A.want, B.want); what = "swap " + std::to_string(a) + "," + std::to_string(b); break;
        case 10: { // a growing container of copies
          int m = rnd(1, 3); while (m--) { { sim::Sys s; vec.push_back(*A.p); } vs.push_back(A); vs.back().p = nullptr; } if (vec.size() > 1 && sim::chance(1, 2)) { size_t e = sim::pick(vec.size()); { sim::Sys s; vec.erase(vec.begin() + e); } vs.erase(vs.begin() + e); } if (!vec.empty() && sim::chance(1, 2)) { unsigned c = code(); size_t e = sim::pick(vec.size()); { sim::Sys s; K.mut(vec[e], c); } vs[e].log.push_back(c); vs[e].want = rebuilt(vs[e].log); } if (B.p && !vec.empty() && sim::chance(1, 2)) { size_t e = sim::pick(vec.size()); { sim::Sys s; *B.p = vec[e]; } B.log = vs[e].log; B.want = vs[e].want; B.moved = false; } what = "container"; break; }
        default: { unsigned c = code(); uint64_t g; { sim::Sys s; auto f = [&](T x) { K.mut(x, c); sim::Off o; return K.dig(x); }; g = f(*A.p); } auto l = A.log; l.push_back(c); need(g == rebuilt(l), "wrong-copy", "%s: a copy passed by value and changed differs from one never copied", K.name); what = "pass " + std::to_string(a); }
      }
    }
    sim_desc("%s; ", what.c_str()); sim::Off o;
    for (size_t z = 0; z < S.size(); z++) if (S[z].p && !S[z].moved) need(K.dig(*S[z].p) == S[z].want, "not-independent", "%s: after '%s' object %zu is not what its own history makes it", K.name, what.c_str(), z);
    for (size_t z = 0; z < vec.size(); z++) need(K.dig(vec[z]) == vs[z].want, "not-independent", "%s: after '%s' element %zu of a container is not what its own history makes it", K.name, what.c_str(), z);
  }
  for (auto& x : S) if (x.p) drop(x); { sim::Sys s; std::vector<T>().swap(vec); } uint64_t sz = 0; uintptr_t site = 0; long l = sim_leaked_since(mark, &sz, &site); need(l == 0, "leak", "%s: %ld blocks are still allocated after everything was destroyed, the first of %llu bytes", K.name, l, (unsigned long long) sz);
}
#define HIST(T, mk_, mu_, di_) history<T>(Kind<T>{#T, [](unsigned c) -> T { return mk_(c); }, [](T& x, unsigned c) { mu_(x, c); }, [](const T& x) { return di_(x); }})
SIM_SCENARIO(H07, complexes, 4) { swarm_env(); quiet(); switch (sim::pick(6)) { case 0: case 1: HIST(bats::SimplicialComplex, spx_make, spx_mut, dx); break; case 2: HIST(LC, light_make, light_mut, dx); break; case 3: HIST(bats::CubicalComplex, cub_make, cub_mut, dx); break; case 4: HIST(bats::CellComplex, cell_make, cell_mut, dx); break; default: HIST(Tr, tr_make, tr_mut, dtr); } }
SIM_SCENARIO(H07, filtrations, 3) { swarm_env(); quiet(); switch (sim::pick(3)) { case 0: HIST(Fl<bats::SimplicialComplex>, fil_make, fil_mut, df); break; case 1: HIST(Fl<LC>, lfil_make, lfil_mut, df); break; default: HIST(Zf, zf_make, zf_mut, dzf); } }
SIM_SCENARIO(H07, matrices, 2) { swarm_env(); quiet(); switch (sim::pick(6)) { case 0: use_field<F3>(); HIST(VT<F3>, vec_make<F3>, vec_mut<F3>, dv<F3>); break; case 1: use_field<FQ>(); HIST(VT<FQ>, vec_make<FQ>, vec_mut<FQ>, dv<FQ>); break; case 2: use_field<F2>(); HIST(MT<F2>, mat_make<F2>, mat_mut<F2>, dm<F2>); break; case 3: use_field<F5>(); HIST(MT<F5>, mat_make<F5>, mat_mut<F5>, dm<F5>); break; case 4: PP() = 0; { typedef CSCMatrix<int, size_t> CM; HIST(CM, csc_make, csc_mut, dc); } break; default: PP() = 0; HIST(bats::CellularMap, map_make, map_mut, dmap); } }
template <class F> void chains() { use_field<F>(); typedef bats::ChainComplex<MT<F>> A; typedef bats::ReducedChainComplex<MT<F>> B; typedef bats::FilteredChainComplex<double, MT<F>> C; typedef bats::ReducedFilteredChainComplex<double, MT<F>> D; typedef bats::DGVectorSpace<MT<F>> E; typedef bats::ReducedDGVectorSpace<MT<F>> G; switch (sim::pick(6)) { case 0: HIST(A, ch_make<F>, ch_mut<F>, dch<F>); break; case 1: HIST(B, red_make<F>, red_mut<F>, dred<F>); break; case 2: HIST(C, fc_make<F>, fc_mut<F>, dfc<F>); break; case 3: HIST(D, rf_make<F>, rf_mut<F>, drf<F>); break; case 4: HIST(E, dg_make<F>, dg_mut<F>, ddg<F>); break; default: HIST(G, rdg_make<F>, rdg_mut<F>, drdg<F>); } }
SIM_SCENARIO(H07, chains, 3) { swarm_env(); quiet(); if (sim::pick(2)) chains<F2>(); else chains<F3>(); }
SIM_SCENARIO(H07, diagrams, 2) { swarm_env(); quiet(); if (sim::pick(2)) HIST(XD, xd_make, xd_mut, dxd); else { use_field<F3>(); HIST(CDg, cd_make, cd_mut, dcd); } }
