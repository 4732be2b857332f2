#include "common.hpp"
#include <linalg/set_vector.hpp>
#include <util/sorted.hpp>
#include <util/set.hpp>
// Vectors kept in sets, and operations on sorted lists, against dense and set models.
template <class F> static S some() { return PP() ? mk(rnd(0, PP() - 1)) : mkq(rnd(-3, 3), rnd(1, 2)); }
template <class F> static F lib(const S& s) { if constexpr (std::is_same<F, FQ>::value) return FQ((int) s.n, (int) s.d); else return F((int) s.n); }
static std::string show(const std::vector<S>& d) { std::string s = "("; for (auto& x : d) s += str(x) + " "; return s + ")"; }
template <class F> static void sets() {
  use_field<F>(); typedef SetVector<F, size_t> SV; struct V { SV v; std::vector<S> d; }; std::vector<V> P(3); const int N = zm(8);
  auto fresh = [&](V& x) { x.d.assign(rnd(0, N), S{}); for (auto& s : x.d) if (sim::chance(1, 2)) s = some<F>(); std::vector<size_t> in; std::vector<F> va; for (size_t i = 0; i < x.d.size(); i++) if (!zero(x.d[i])) { in.push_back(i); va.push_back(lib<F>(x.d[i])); } if (sim::chance(1, 2)) for (size_t i = in.size(); i > 1; i--) { size_t k = sim::pick(i); std::swap(in[i - 1], in[k]); std::swap(va[i - 1], va[k]); } sim_desc("| fresh %s ", show(x.d).c_str()); sim::Sys s; if (sim::chance(1, 2)) x.v = SV(in, va); else x.v = SV(in.begin(), va.begin(), in.size()); };
  auto same = [&](const V& x, const char* what) { sim::Off o; std::vector<S> g(x.d.size()); long last = -1; for (auto it = x.v.nzbegin(); it != x.v.nzend(); ++it) { need((*it).ind < g.size(), "out-of-range", "%s: entry at %zu of %zu", what, (*it).ind, g.size()); need((long) (*it).ind > last, "unsorted", "%s: entry %zu after %ld", what, (*it).ind, last); last = (long) (*it).ind; S s = toS((*it).val); need(!zero(s), "stored-zero", "%s: zero stored at %zu", what, (*it).ind); g[(*it).ind] = s; } for (size_t i = 0; i < g.size(); i++) need(eq(g[i], x.d[i]), "wrong-value", "%s: vector is %s, expected %s", what, show(g).c_str(), show(x.d).c_str()); };
  for (auto& x : P) { fresh(x); same(x, "constructor"); }
  int steps = rnd(1, 10);
  for (int t = 0; t < steps; t++) {
    V &x = P[sim::pick(3)], &y = P[sim::pick(3)]; size_t n = x.d.size(), i = n ? sim::pick(n) : 0; S a = some<F>(); auto xd = x.d; std::string what = "?"; auto run = [&](const char* w, auto f) { what = w; sim_desc("| %s(%ld,%ld) ", w, (long) (&x - &P[0]), (long) (&y - &P[0])); sim::Sys s; f(); }; auto grow = [&](size_t m) { if (x.d.size() < m) x.d.resize(m); };
    switch (sim::pick(10)) {
      case 0: case 1: if (&x != &y) { int k = sim::pick(2); VT<F> z; for (size_t q = 0; q < y.d.size(); q++) if (!zero(y.d[q])) z.emplace_back(q, lib<F>(y.d[q])); run("axpy", [&] { if (k) x.v.axpy(lib<F>(a), y.v); else x.v.axpy(lib<F>(a), z); }); grow(y.d.size()); for (size_t q = 0; q < y.d.size(); q++) x.d[q] = add(x.d[q], mul(a, y.d[q])); } break;
      case 2: case 3: if (&x != &y) { size_t lo = rnd(0, N), hi = rnd(0, N + 1); int k = sim::pick(2); VT<F> z; for (size_t q = 0; q < y.d.size(); q++) if (!zero(y.d[q])) z.emplace_back(q, lib<F>(y.d[q])); run("axpy range", [&] { if (k) x.v.axpy(lib<F>(a), y.v, lo, hi); else x.v.axpy(lib<F>(a), z, lo, hi); }); grow(y.d.size()); for (size_t q = lo; q < hi && q < y.d.size(); q++) x.d[q] = add(x.d[q], mul(a, y.d[q])); } break;
      case 4: if (n && !zero(a)) { run("set", [&] { if (sim::chance(1, 2)) x.v.set(i, lib<F>(a)); else x.v.set(nzpair<size_t, F>(i, lib<F>(a))); }); x.d[i] = a; } break;
      case 5: if (n && !zero(a) && !zero(x.d[i])) { run("replace", [&] { auto it = x.v.lower_bound(i); if (sim::chance(1, 2)) x.v.replace(it, lib<F>(a)); else x.v.replace(it, i, lib<F>(a)); }); x.d[i] = a; } break;
      case 6: { std::vector<size_t> p(n); for (size_t q = 0; q < n; q++) p[q] = q; for (size_t q = n; q > 1; q--) std::swap(p[q - 1], p[sim::pick(q)]); run("permute", [&] { x.v.permute(p); }); for (size_t q = 0; q < n; q++) x.d[p[q]] = xd[q]; break; }
      case 7: { what = "access"; size_t c = 0; for (size_t q = 0; q < n + 2; q++) { S g; size_t lo, up; { sim::Sys s; g = toS(x.v.get(q)); lo = std::distance(x.v.nzbegin(), x.v.lower_bound(q)); up = std::distance(x.v.nzbegin(), x.v.upper_bound(q)); } S w = q < n ? x.d[q] : S{}; need(eq(g, w), "wrong-value", "entry %zu is %s, expected %s", q, str(g).c_str(), str(w).c_str()); need(lo == c && up == c + !zero(w), "wrong-value", "bounds of %zu", q); c += !zero(w); } need(x.v.nnz() == c, "wrong-count", "%zu nonzeros, expected %zu", x.v.nnz(), c); if (c) { size_t l = 0; for (size_t q = 0; q < n; q++) if (!zero(x.d[q])) l = q; need(x.v.lastnz().ind == l, "wrong-value", "last nonzero at %zu", x.v.lastnz().ind); } break; }
      case 8: { bool e; run("compare", [&] { e = x.v == y.v; }); auto p = x.d, q = y.d; p.resize(64); q.resize(64); bool w = true; for (int k = 0; k < 64; k++) w = w && eq(p[k], q[k]); need(e == w, "wrong-comparison", "comparison of %s and %s", show(x.d).c_str(), show(y.d).c_str()); break; }
      default: fresh(x); what = "constructor"; if (sim::chance(1, 4)) { size_t k = rnd(0, 6); x.v = SV(k); x.d.assign(k + 1, S{}); x.d[k] = mk(1); } else if (sim::chance(1, 4)) { x.v = y.v; x.d = y.d; }
    }
    for (auto& w : P) same(w, what.c_str()); bool big = false; for (auto& s : x.d) big |= !PP() && (s.n > 40 || s.n < -40 || s.d > 6); if (big) fresh(x);
  }
}
SIM_SCENARIO(H06, sets, 1) { swarm_env(); switch (sim::pick(4)) { case 0: sets<F2>(); break; case 1: sets<F3>(); break; case 2: sets<F5>(); break; default: sets<FQ>(); } }
// ---- sorted lists
typedef std::vector<size_t> LL; typedef std::set<size_t> St;
static std::string shown(const LL& v) { std::string s = "["; for (auto x : v) s += std::to_string(x) + " "; return s + "]"; }
SIM_SCENARIO(H06, sorted, 1) {
  swarm_env(); size_t n = rnd(1, zm(10)); auto gen = [&] { St s; int k = rnd(0, 4); for (size_t i = 0; i < n; i++) if ((int) sim::pick(4) < k) s.insert(i); return s; }; St A = gen(), B = gen(), both, any = A; LL a(A.begin(), A.end()), b(B.begin(), B.end()), junk; for (int i = rnd(0, 3); i > 0; i--) junk.push_back(rnd(0, 9)); size_t m = rnd(0, (int) n + 1);
  for (auto x : a) if (B.count(x)) both.insert(x); any.insert(b.begin(), b.end()); St lt; for (auto x : both) if (x < m) lt.insert(x); auto as = [](const St& s) { return LL(s.begin(), s.end()); }; int op = sim::pick(11); sim_desc("op=%d a=%s b=%s bound=%zu ", op, shown(a).c_str(), shown(b).c_str(), m); bool mixed = sim::chance(1, 2);
  switch (op) {
    case 0: { LL c = junk; { sim::Sys s; if (mixed) bats::util::intersect_sorted(A, b, c); else bats::util::intersect_sorted(a, b, c); } need(c == as(both), "wrong-value", "intersection is %s", shown(c).c_str()); break; }
    case 1: { St c(junk.begin(), junk.end()); { sim::Sys s; if (mixed) bats::util::intersect_sorted(A, B, c); else bats::util::intersect_sorted(a, b, c); } need(c == both, "wrong-value", "intersection is %s", shown(as(c)).c_str()); break; }
    case 2: { bool h; { sim::Sys s; h = mixed ? bats::util::has_intersect_sorted(A, b) : bats::util::has_intersect_sorted(a, b); } need(h == !both.empty(), "wrong-value", "has_intersect_sorted gives %d", h); break; }
    case 3: { LL c = junk; { sim::Sys s; if (mixed) bats::util::intersect_sorted_lt(a, B, m, c); else bats::util::intersect_sorted_lt(a, b, m, c); } need(c == as(lt), "wrong-value", "intersection below %zu is %s", m, shown(c).c_str()); break; }
    case 4: { bool h; { sim::Sys s; h = mixed ? bats::util::has_intersect_sorted_lt(A, b, m) : bats::util::has_intersect_sorted_lt(a, b, m); } need(h == !lt.empty(), "wrong-value", "has_intersect_sorted_lt gives %d below %zu", h, m); break; }
    case 5: { LL u = a, c = junk; u.insert(u.end(), b.begin(), b.end()); for (size_t i = u.size(); i > 1; i--) std::swap(u[i - 1], u[sim::pick(i)]); LL w = u; std::sort(w.begin(), w.end()); { sim::Sys s; bats::util::sort_into(u, c); } need(c == w, "wrong-value", "sorted copy is %s", shown(c).c_str()); break; }
    case 6: { size_t p; { sim::Sys s; p = bats::util::find_sorted_lt(a.cbegin(), a.cend(), m); } size_t w = bats::NO_IND; for (size_t i = 0; i < a.size(); i++) if (a[i] < m) w = i; need(p == w, "wrong-value", "the last element below %zu is at %zu, expected %zu", m, p, w); break; }
    case 7: { LL c; { sim::Sys s; c = bats::util::sorted_complement(a, n); } LL w; for (size_t i = 0; i < n; i++) if (!A.count(i)) w.push_back(i); need(c == w, "wrong-value", "complement in %zu is %s", n, shown(c).c_str()); break; }
    case 8: { St u, i; { sim::Sys s; u = mixed ? bats::util::set_union(a, B) : bats::util::set_union(A, B); i = mixed ? bats::util::set_intersection(a, B) : bats::util::set_intersection(A, B); } need(u == any, "wrong-value", "union is %s", shown(as(u)).c_str()); need(i == both, "wrong-value", "intersection is %s", shown(as(i)).c_str()); break; }
    case 9: { size_t k = rnd(0, (int) n); St r, v; LL d = b; d.insert(d.end(), b.begin(), b.end()); { sim::Sys s; r = bats::util::random_subset(n, k); v = bats::util::to_set(d); } need(r.size() == k && (r.empty() || *r.rbegin() < n), "wrong-value", "random subset %s of %zu of %zu", shown(as(r)).c_str(), k, n); need(v == B, "wrong-value", "set is %s", shown(as(v)).c_str()); break; }
    default: { use_field<F5>(); size_t off = sim::pick(3); LL ind; std::vector<F5> val; std::map<size_t, S> w; for (size_t i = 0; i < off; i++) { ind.push_back(rnd(0, 9)); val.push_back(F5(1)); } LL head = ind; int k = rnd(0, zm(12)); for (int i = 0; i < k; i++) { size_t x = sim::pick(n); S v = some<F5>(); ind.push_back(x); val.push_back(lib<F5>(v)); w[x] = w.count(x) ? add(w[x], v) : v; sim_desc("%zu:%s ", x, str(v).c_str()); } LL perm = junk, t1 = junk; std::vector<F5> t2(rnd(0, 2));
      { sim::Sys s; bats::util::sort_sum_reduce(ind, val, off, perm, t1, t2); } size_t p = 0; need(ind.size() == val.size() && ind.size() >= off, "malformed", "%zu indices, %zu values", ind.size(), val.size()); for (; p < off; p++) need(ind[p] == head[p] && val[p] == F5(1), "wrong-value", "entry %zu before the offset changed", p); for (auto& x : w) if (!zero(x.second)) { need(p < ind.size() && ind[p] == x.first && eq(toS(val[p]), x.second), "wrong-value", "reduced entry %zu should be %zu:%s", p, x.first, str(x.second).c_str()); p++; } need(p == ind.size(), "stored-zero", "%zu entries, expected %zu", ind.size(), p); }
  }
}
