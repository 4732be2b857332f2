// Memory exhaustion: an operation is run once with memory available, then with allocations failing, then again.
#pragma once
#include "common.hpp"
// ---- exhaustion: op runs the code under test and leaves a digest; input digests what it was given
inline void exhaust(const std::function<uint64_t()>& op, const std::function<uint64_t()>& input, const char* what, bool leaks = true) {
  uint64_t in0 = input(); long a0 = sim_alloc_count(); uint64_t want = op(); long n = sim_alloc_count() - a0; need(input() == in0, "input-changed", "%s: the input changed", what);
  if (n <= 0) return; int rounds = 1 + (int) sim::pick(3); sim_desc("op=%s allocations=%ld ", what, n);
  for (int r = 0; r < rounds; r++) {
    long k = (long) sim_fpick((uint32_t) n); bool every = sim_fpick(4) == 3; sim_desc("fail%s@%ld ", every ? "-from" : "", k); sim_set_threads(1 + sim_spick(16)); long f0 = sim_alloc_failed(); bool threw = false; uint64_t got = 0; std::string other;
    long mark = sim_leak_mark(); sim_alloc_fail_every(every); sim_alloc_fail_at(k);
    try { got = op(); } catch (std::bad_alloc&) { threw = true; } catch (std::exception& e) { threw = true; sim_alloc_disarm(); other = e.what(); }
    sim_alloc_disarm(); sim_alloc_fail_every(0); bool fired = sim_alloc_failed() > f0;
    need(other.empty(), "wrong-exception", "%s: memory exhaustion surfaced as: %s", what, other.c_str());
    need(!threw || fired, "spurious-exception", "%s: threw although no allocation failed", what);
    if (!threw) need(got == want, "silent-failure", "%s: an allocation failed, no exception was thrown and the result differs", what);
    { uint64_t sz = 0; uintptr_t site = 0; long l = sim_leaked_since(mark, &sz, &site); need(!leaks || l == 0, "leak", "%s: %ld blocks allocated by a failed call are never released, the first of %llu bytes", what, l, (unsigned long long) sz); }
    if (threw && fired) sim_probe("exhaustion-reported"); if (threw && sim_max_threads() > 1) sim_probe("exhaustion-with-threads"); need(input() == in0, "input-changed", "%s: a failed call changed its input", what);
    sim_set_threads(1 + sim_spick(16)); uint64_t again = op(); need(again == want, "retry-differs", "%s: the same call after a failed one gives another result", what);
  }
}
#define OP(expr) [&]() -> uint64_t { sim::Sys s; auto R = (expr); sim::Off o; return dg(R); }
