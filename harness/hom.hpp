// Homology of a reduced complex and the maps induced on it, against dense linear algebra.
#pragma once
#include "common.hpp"
template <class V> M column(const V& v, size_t n, const char* what) { M A(n, 1); sim::Off o; for (auto it = v.nzbegin(); it != v.nzend(); ++it) { size_t i = (*it).ind; need(i < n, "malformed", "%s: index %zu outside %zu", what, i, n); A(i, 0) = toS((*it).val); } return A; }
// preferred representatives, outgoing and incoming differential of one dimension
struct Node { M reps, dout, din; };
template <class Red> Node node_check(const Red& C, const M& dout, const M& din, size_t i, size_t k) {
  Node n; size_t N = dout.c; n.dout = dout; n.din = din;
  Hom h = homology(n.dout, n.din);
  need(C.hdim(k) == h.dim() && C.betti(k) == h.dim(), "wrong-betti", "node %zu dimension %zu: Betti number %zu (%zu), expected %zu", i, k, C.hdim(k), C.betti(k), h.dim());
  n.reps = M(N, 0);
  for (size_t j = 0; j < C.hdim(k); j++) { auto v = C.get_preferred_representative(j, k); n.reps = hcat(n.reps, column(v, N, "representative")); n.reps.r = N; }
  need(is_zero(n.dout * n.reps), "not-a-cycle", "node %zu dimension %zu: a representative is not a cycle: %s", i, k, show(n.reps).c_str());
  need(rank(hcat(n.reps, n.din)) == h.dim() + rank(n.din), "dependent-representatives", "node %zu dimension %zu: representatives are dependent modulo boundaries", i, k);
  return n;
}
inline void edge_check(const M& A, const Node& s, const Node& t, const M& f, size_t j, size_t k) {
  need(A.r == t.reps.c && A.c == s.reps.c, "wrong-shape", "edge %zu dimension %zu: induced map is %zux%zu, expected %zux%zu", j, k, A.r, A.c, t.reps.c, s.reps.c);
  M lhs = f * s.reps - t.reps * A;
  need(rank(hcat(t.din, lhs)) == rank(t.din), "wrong-induced-map", "edge %zu dimension %zu: induced map %s is not the one induced by the chain map", j, k, show(A).c_str());
}
