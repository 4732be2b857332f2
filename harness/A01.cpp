#include "kinds.hpp"
#include "exhaust.hpp"
// Memory exhaustion at every kind of call: the allocation that fails is drawn by the fault stream.
using namespace kinds;
static void quiet() { std::cout.setstate(std::ios::failbit); }
static uint64_t none() { return 0; }
// ---- making, changing, copying and assigning objects
template <class T, class Mk, class Mu, class Di> void object(const char* name, Mk make, Mu mut, Di dig) {
  unsigned c = sim::pick(1u << 12), e = sim::pick(1u << 12), f = sim::pick(1u << 12); T x = make(c), y = make(e); int n = rnd(0, 2); while (n--) { unsigned q = sim::pick(1u << 12); mut(x, q); } sim_desc("%s ", name); auto in = [&] { return H(dig(x), dig(y)); };
  switch (sim::pick(7)) {
    case 0: exhaust([&]() -> uint64_t { sim::Sys s; T z = make(f); sim::Off o; return dig(z); }, none, "building"); break;
    case 1: exhaust([&]() -> uint64_t { sim::Sys s; T z(x); sim::Off o; return dig(z); }, in, "copying"); break;
    case 2: exhaust([&]() -> uint64_t { sim::Sys s; T z(y); z = x; sim::Off o; return dig(z); }, in, "assigning"); break;
    case 3: exhaust([&]() -> uint64_t { sim::Sys s; T z(x); mut(z, f); sim::Off o; return dig(z); }, in, "changing a copy"); break;
    case 4: exhaust([&]() -> uint64_t { sim::Sys s; std::vector<T> v; v.push_back(x); v.push_back(y); v.push_back(x); uint64_t h = 0; sim::Off o; for (auto& z : v) h = H(h, dig(z)); return h; }, in, "a vector of copies"); break;
    case 5: { // the target of a failed assignment or change may be in any state in which it can be destroyed, assigned to or moved
      exhaust([&]() -> uint64_t { sim::Sys s; T z(y); try { z = x; } catch (std::bad_alloc&) { { sim::Off o; sim_alloc_disarm(); } z = y; sim::Off o; need(dig(z) == dig(y), "not-recovered", "%s: assigned to after a failed assignment, the object differs from its source", name); throw; } sim::Off o; return dig(z); }, in, "assigning after a failed assignment"); break; }
    default: exhaust([&]() -> uint64_t { sim::Sys s; T z(x); try { mut(z, f); } catch (std::bad_alloc&) { { sim::Off o; sim_alloc_disarm(); } T w(std::move(z)); z = y; sim::Off o; need(dig(z) == dig(y), "not-recovered", "%s: assigned to after a failed change, the object differs from its source", name); throw; } sim::Off o; return dig(z); }, in, "assigning after a failed change");
  }
}
#define OBJ(T, mk_, mu_, di_) object<T>(#T, [](unsigned c) -> T { return mk_(c); }, [](T& x, unsigned c) { mu_(x, c); }, [](const T& x) { return di_(x); })
SIM_SCENARIO(A01, complexes, 3) { swarm_env(); quiet(); switch (sim::pick(6)) { case 0: case 1: OBJ(bats::SimplicialComplex, spx_make, spx_mut, dx); break; case 2: OBJ(LC, light_make, light_mut, dx); break; case 3: OBJ(bats::CubicalComplex, cub_make, cub_mut, dx); break; case 4: OBJ(bats::CellComplex, cell_make, cell_mut, dx); break; default: OBJ(Tr, tr_make, tr_mut, dtr); } }
SIM_SCENARIO(A01, filtrations, 2) { swarm_env(); quiet(); switch (sim::pick(3)) { case 0: OBJ(Fl<bats::SimplicialComplex>, fil_make, fil_mut, df); break; case 1: OBJ(Fl<LC>, lfil_make, lfil_mut, df); break; default: OBJ(Zf, zf_make, zf_mut, dzf); } }
SIM_SCENARIO(A01, matrices, 2) { swarm_env(); quiet(); switch (sim::pick(6)) { case 0: use_field<F3>(); OBJ(VT<F3>, vec_make<F3>, vec_mut<F3>, dv<F3>); break; case 1: use_field<FQ>(); OBJ(VT<FQ>, vec_make<FQ>, vec_mut<FQ>, dv<FQ>); break; case 2: use_field<F2>(); OBJ(MT<F2>, mat_make<F2>, mat_mut<F2>, dm<F2>); break; case 3: use_field<F5>(); OBJ(MT<F5>, mat_make<F5>, mat_mut<F5>, dm<F5>); break; case 4: PP() = 0; { typedef CSCMatrix<int, size_t> CM; OBJ(CM, csc_make, csc_mut, dc); } break; default: PP() = 0; OBJ(bats::CellularMap, map_make, map_mut, dmap); } }
template <class F> void chains() { use_field<F>(); typedef bats::ChainComplex<MT<F>> A; typedef bats::ReducedChainComplex<MT<F>> B; typedef bats::FilteredChainComplex<double, MT<F>> C; typedef bats::ReducedFilteredChainComplex<double, MT<F>> D; typedef bats::DGVectorSpace<MT<F>> E; typedef bats::ReducedDGVectorSpace<MT<F>> G; switch (sim::pick(6)) { case 0: OBJ(A, ch_make<F>, ch_mut<F>, dch<F>); break; case 1: OBJ(B, red_make<F>, red_mut<F>, dred<F>); break; case 2: OBJ(C, fc_make<F>, fc_mut<F>, dfc<F>); break; case 3: OBJ(D, rf_make<F>, rf_mut<F>, drf<F>); break; case 4: OBJ(E, dg_make<F>, dg_mut<F>, ddg<F>); break; default: OBJ(G, rdg_make<F>, rdg_mut<F>, drdg<F>); } }
SIM_SCENARIO(A01, chains, 2) { swarm_env(); quiet(); if (sim::pick(2)) chains<F2>(); else chains<F3>(); }
SIM_SCENARIO(A01, diagrams, 1) { swarm_env(); quiet(); if (sim::pick(2)) OBJ(XD, xd_make, xd_mut, dxd); else { use_field<F3>(); OBJ(CDg, cd_make, cd_mut, dcd); } }
// ---- computations on filtered complexes
template <class R> uint64_t dpairs(const R& r, size_t top) { uint64_t h = 61; for (size_t k = 0; k <= top; k++) for (auto& p : r.persistence_pairs(k)) h = H(H(H(H(h, p.birth_ind), p.death_ind), (uint64_t) (int64_t) (p.birth * 64)), k); return h; }
template <class F, class Cx> void reductions(const RF& f, const Cx& X) {
  use_field<F>(); bats::Filtration<double, Cx> L(X, f.val); size_t top = f.maxdim(); bats::FilteredChainComplex<double, MT<F>> C(L); typedef bats::ReducedFilteredChainComplex<double, MT<F>> R; typedef bats::ReducedFilteredDGVectorSpace<double, MT<F>> G; int deg = sim::pick(2) ? 1 : -1; bats::FilteredDGVectorSpace<double, MT<F>> D(L, deg); sim_desc("%s ", show(f).c_str());
  using namespace bats; typedef standard_reduction_flag St; typedef extra_reduction_flag Ex; typedef divide_conquer_flag Dq; typedef compute_basis_flag B;
  auto in = [&] { return H(df(L), dfc<F>(C)); }; auto one = [&](const char* what, auto... fl) { exhaust([&, fl...]() -> uint64_t { sim::Sys s; R r(C, fl...); sim::Off o; return dpairs(r, top); }, in, what); }; auto gr = [&](const char* what, auto... fl) { exhaust([&, fl...]() -> uint64_t { sim::Sys s; G r(D, fl...); sim::Off o; return dpairs(r, top); }, in, what); };
  switch (sim::pick(18)) {
    case 0: one("reduction"); break; case 1: one("standard reduction", St()); break; case 2: one("extra reduction", Ex()); break; case 3: one("divide and conquer", Dq()); break; case 4: one("standard with basis", St(), B()); break; case 5: one("extra with basis", Ex(), B()); break; case 6: one("clearing", St(), clearing_flag()); break; case 7: one("clearing with basis", St(), clearing_flag(), B()); break; case 8: one("compression with basis", St(), compression_flag(), B()); break; case 9: one("divide and conquer compression", Dq(), compression_flag()); break;
    case 10: gr("graded reduction"); break; case 11: gr("graded clearing", St(), clearing_flag(), B()); break; case 12: gr("graded extra", Ex(), B()); break;
    case 13: exhaust([&]() -> uint64_t { sim::Sys s; bats::FilteredChainComplex<double, MT<F>> Z(L); sim::Off o; return dfc<F>(Z); }, in, "filtered chain complex"); break;
    case 14: { auto v = L.vals(); for (size_t k = 0; k < v.size(); k++) for (size_t i = 0; i < v[k].size(); i++) v[k][i] = 4.0 * k + (double) ((i * 7) % 5); R r(C); exhaust([&]() -> uint64_t { sim::Sys s; R q(r); q.update_filtration(v); sim::Off o; return dpairs(q, top); }, [&] { return H(in(), drf<F>(r)); }, "value update"); break; }
    case 15: { R r(C); exhaust([&]() -> uint64_t { uint64_t h = 0; sim::Sys s; for (size_t k = 0; k <= top; k++) for (auto& p : r.persistence_pairs(k)) { auto v = r.representative(p); sim::Off o; h = H(h, dv<F>(v)); } return h; }, [&] { return drf<F>(r); }, "representatives"); break; }
    case 16: { R r(C); exhaust([&]() -> uint64_t { sim::Sys s; R q(r); q.sparsify_basis(); q.remove_extra_cycles(); sim::Off o; return drf<F>(q); }, [&] { return drf<F>(r); }, "sparser bases"); break; }
    default: exhaust([&]() -> uint64_t { sim::Sys s; bats::FilteredDGVectorSpace<double, MT<F>> Z(L, deg); sim::Off o; return ddg<F>(Z.C); }, in, "filtered graded space");
  }
}
SIM_SCENARIO(A01, reductions, 4) {
  swarm_env(); quiet(); auto with = [&](const RF& f, const auto& X) { switch (pick_field(3, 2)) { case 0: reductions<F2>(f, X); break; case 1: reductions<F3>(f, X); break; default: reductions<FQ>(f, X); } };
  switch (sim::pick(3)) { case 0: { auto f = gen_simplicial(rnd(1, 6), rnd(1, 5), rnd(0, 3)); with(f, simplicial(f)); break; } case 1: { auto f = gen_cubical(rnd(1, 2), rnd(1, 3), 3); with(f, mk_cubical(f)); break; } default: { auto f = gen_cells(rnd(1, 3), rnd(1, 4)); with(f, cellcomplex(f)); } }
}
// ---- updates of reductions to another filtration
SIM_SCENARIO(A01, updates, 2) {
  swarm_env(); quiet(); use_field<F2>(); int nv = rnd(2, 5); auto f = gen_simplicial(nv, rnd(1, 4), rnd(0, 2)), g = next_filtration(f, nv, 4); auto A = filtration(f), B = filtration(g); bats::FilteredChainComplex<double, MT<F2>> C(A); typedef bats::ReducedFilteredChainComplex<double, MT<F2>> R; R r(C); sim_desc("%s to %s ", show(f).c_str(), show(g).c_str());
  auto in = [&] { return H(H(df(A), df(B)), drf<F2>(r)); };
  switch (sim::pick(3)) {
    case 0: exhaust([&]() -> uint64_t { sim::Sys s; R q(r); auto UI = bats::Update_info(A, B); q.update_filtration_general(UI); sim::Off o; return dpairs(q, f.maxdim()); }, in, "general update"); break;
    case 1: { auto UI = bats::Update_info(A, B); exhaust([&]() -> uint64_t { sim::Sys s; R q(r); q.update_filtration_general(UI); sim::Off o; return dpairs(q, f.maxdim()); }, in, "general update with known differences"); break; }
    default: { auto UI = bats::Update_info(A, B); exhaust([&]() -> uint64_t { sim::Sys s; R q(r); try { q.update_filtration_general(UI); } catch (std::bad_alloc&) { { sim::Off o; sim_alloc_disarm(); } q = r; q.update_filtration_general(UI); sim::Off o; uint64_t h = dpairs(q, f.maxdim()); R w(r); w.update_filtration_general(UI); need(dpairs(w, f.maxdim()) == h, "retry-differs", "an update after a failed one on the same object gives other pairs"); throw; } sim::Off o; return dpairs(q, f.maxdim()); }, in, "repeated general update"); }
  }
}
// ---- zigzag filtrations and induced maps
template <class F> void zig() {
  use_field<F>(); auto f = gen_simplicial(rnd(1, 5), rnd(1, 4), rnd(0, 2)); trim(f); auto X = simplicial(f); std::vector<std::vector<std::vector<std::pair<double, double>>>> v; for (size_t k = 0; k < f.bd.size(); k++) { v.emplace_back(); for (size_t i = 0; i < f.bd[k].size(); i++) { std::vector<std::pair<double, double>> w{{0.0 + k, 9.0 - k - (double) (i % 2)}}; if (k == 0 || f.bd.size() == k + 1) if (i % 3 == 0 && k + 1 == f.bd.size() && k) { w = {{(double) k, (double) k + 1}, {4.0, 5.0}}; } v[k].push_back(w); } }
  bats::zigzag::ZigzagFiltration<bats::SimplicialComplex, double> Z(X, v); int md = sim::pick(3), fl = sim::pick(2); md = std::min(md, (int) X.maxdim()); sim_desc("%s ", show(f).c_str());
  auto dz = [](const std::vector<std::vector<bats::zigzag::ZigzagPair<double>>>& p) { uint64_t h = 70; for (auto& k : p) { uint64_t t = 0; for (auto& x : k) t += H(H((uint64_t) (x.birth * 8), (uint64_t) (x.death * 8)), x.birth_is_entry * 2 + x.death_is_entry); h = H(h, t); } return h; };
  exhaust([&]() -> uint64_t { sim::Sys s; auto p = fl ? bats::zigzag::barcode(Z, md, F(), bats::no_optimization_flag(), bats::extra_reduction_flag()) : bats::zigzag::barcode(Z, md, F(), bats::no_optimization_flag(), bats::standard_reduction_flag()); sim::Off o; return dz(p); }, [&] { return dzf(Z); }, "zigzag barcode");
}
template <class F> void induced() {
  use_field<F>(); auto f = gen_simplicial(rnd(1, 5), rnd(1, 4), rnd(0, 2)); auto X = simplicial(f); auto Y = X; Spx extra{0, 1}; { sim::Off o; Y.add_recursive(extra); } sim_desc("%s ", show(f).c_str()); auto in = [&] { return H(dx(X), dx(Y)); }; size_t k = sim::pick(X.maxdim() + 1);
  switch (sim::pick(4)) {
    case 0: exhaust([&]() -> uint64_t { sim::Sys s; auto m = bats::SimplicialMap(X, Y); sim::Off o; return dmap(m); }, in, "inclusion"); break;
    case 1: { auto m = bats::SimplicialMap(X, Y); exhaust([&]() -> uint64_t { sim::Sys s; bats::ChainMap<MT<F>> c(m); sim::Off o; return dcm<F>(c); }, in, "chain map"); break; }
    case 2: { auto m = bats::SimplicialMap(X, Y); bats::ChainMap<MT<F>> c(m); bats::ReducedChainComplex<MT<F>> rx(bats::Chain(X, F())), ry(bats::Chain(Y, F())); exhaust([&]() -> uint64_t { sim::Sys s; auto h = bats::induced_map(c, rx, ry, k); sim::Off o; return dm<F>(h); }, [&] { return H(dred<F>(rx), dred<F>(ry)); }, "induced map"); break; }
    default: exhaust([&]() -> uint64_t { sim::Sys s; auto C = bats::Chain(X, F()); bats::ReducedChainComplex<MT<F>> r(C); sim::Off o; return dred<F>(r); }, in, "homology");
  }
}
SIM_SCENARIO(A01, zigzag, 1) { swarm_env(); quiet(); if (sim::pick(2)) zig<F2>(); else zig<F3>(); }
SIM_SCENARIO(A01, induced, 1) { swarm_env(); quiet(); if (sim::pick(2)) induced<F2>(); else induced<F3>(); }
// ---- factorizations and permutations
template <class F> void factor() {
  use_field<F>(); size_t m = rnd(1, 5), n = rnd(1, 5); M D(m, n); for (auto& x : D.a) x = sim::chance(1, 2) ? mk((ll) sim::pick(3)) : mk(0); auto A = sparse<F>(D); auto in = [&] { return dm<F>(A); }; sim_desc("%s ", orc::show(D).c_str());
  auto f4 = [](const auto& f) { return H(H(dm<F>(f.L), dm<F>(f.U)), H(dm<F>(f.E), dm<F>(f.P))); };
  switch (sim::pick(6)) {
    case 0: exhaust([&]() -> uint64_t { sim::Sys s; auto f = PLEU(A); sim::Off o; return f4(f); }, in, "PLEU"); break; case 1: exhaust([&]() -> uint64_t { sim::Sys s; auto f = UELP(A); sim::Off o; return f4(f); }, in, "UELP"); break;
    case 2: exhaust([&]() -> uint64_t { sim::Sys s; auto f = LEUP(A); sim::Off o; return f4(f); }, in, "LEUP"); break; case 3: exhaust([&]() -> uint64_t { sim::Sys s; auto f = PUEL(A); sim::Off o; return f4(f); }, in, "PUEL"); break;
    case 4: exhaust([&]() -> uint64_t { sim::Sys s; auto B = A.T(); auto f = B * A; sim::Off o; return dm<F>(f); }, in, "transpose and product"); break;
    default: { std::vector<size_t> p(m + n); for (size_t i = 0; i < p.size(); i++) p[i] = i; for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[sim::pick(i)]); exhaust([&]() -> uint64_t { sim::Sys s; size_t k = bats::Kendall_tau(p); sim::Off o; return k; }, none, "Kendall tau"); }
  }
}
SIM_SCENARIO(A01, linalg, 2) { swarm_env(); quiet(); switch (sim::pick(3)) { case 0: factor<F2>(); break; case 1: factor<F3>(); break; default: factor<FQ>(); } }
// ---- complexes and filtrations from points, functions and covers
template <class Cx> void constructions() {
  int n = rnd(2, 6); std::vector<std::vector<double>> p(n); for (auto& x : p) x = {(double) sim::pick(5), (double) sim::pick(4)}; double* m = new double[2 * n]; for (int i = 0; i < 2 * n; i++) m[i] = p[i / 2][i % 2]; bats::DataSet<double> X(bats::Matrix<double>(n, 2, m)); double r = rnd(0, 8) * 0.5; size_t dm = rnd(1, 3);
  std::vector<size_t> e; std::vector<bats::filtered_edge<double>> fe; for (size_t i = 0; i < (size_t) n; i++) for (size_t j = i + 1; j < (size_t) n; j++) if (sim::chance(2, 3)) { e.push_back(i); e.push_back(j); fe.push_back(bats::filtered_edge<double>(i, j, 0.5 * sim::pick(5))); } std::sort(fe.begin(), fe.end()); sim_desc("%d points r=%g dmax=%zu ", n, r, dm);
  auto in = [&] { return dn(e); };
  switch (sim::pick(4)) {
    case 0: exhaust([&]() -> uint64_t { sim::Sys s; auto F = bats::RipsFiltration<Cx>(X, bats::Euclidean(), r, dm); sim::Off o; return df(F); }, in, "Rips filtration"); break;
    case 1: exhaust([&]() -> uint64_t { sim::Sys s; auto F = bats::RipsComplex<Cx>(X, bats::Euclidean(), r, dm); sim::Off o; return dx(F); }, in, "Rips complex"); break;
    case 2: exhaust([&]() -> uint64_t { sim::Sys s; auto F = bats::FlagFiltration<Cx>(fe, n, dm, 0.0); sim::Off o; return df(F); }, in, "flag filtration"); break;
    default: exhaust([&]() -> uint64_t { sim::Sys s; auto F = bats::FlagComplex<Cx>(e, n, dm); sim::Off o; return dx(F); }, in, "flag complex");
  }
  delete[] m;
}
SIM_SCENARIO(A01, constructions, 1) {
  swarm_env(); quiet(); switch (sim::pick(3)) { case 0: constructions<bats::SimplicialComplex>(); break; case 1: constructions<LC>(); break;
    default: { auto f = gen_simplicial(rnd(1, 6), rnd(1, 5), rnd(0, 3)); auto X = simplicial(f); std::vector<double> f0; for (int i = 0; i < zm(8); i++) f0.push_back(0.5 * sim::pick(5)); sim_desc("%s ", show(f).c_str()); exhaust([&]() -> uint64_t { sim::Sys s; auto t = lower_star_filtration(X, f0); sim::Off o; return H(dn(std::get<0>(t)), dn(std::get<1>(t))); }, [&] { return H(dx(X), dn(f0)); }, "lower star filtration"); } }
}
