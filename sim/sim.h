// Interface between the harnesses and the simulator (sim/simrt.cpp).
// Everything a run decides comes from one of three decision streams:
//   D (workload), S (scheduling), F (faults).  A stream is either drawn from
//   a generator seeded by the run's seed, or replayed from a file.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>

extern "C" {
// ---- decisions
uint32_t sim_pick(uint32_t n);      // D stream, value in [0,n)
uint32_t sim_spick(uint32_t n);     // S stream
uint32_t sim_fpick(uint32_t n);     // F stream
// ---- reporting
void sim_fail(const char* key, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_inconclusive(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void sim_probe(const char* name);
void sim_note(uint64_t v);          // mixes v into the run's trace hash
void sim_desc(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // describes the workload
// ---- instrumentation switch (per logical thread)
int  sim_set_on(int on);
// ---- threads
void sim_set_threads(int n);        // what omp_get_max_threads reports
int  sim_max_threads();
void sim_draw_threads(int lo, int hi);
void sim_team(int n, void (*fn)(int, void*), void* arg);  // n concurrent logical threads
void sim_policy(int p);             // -1: drawn from S at every team
uint64_t sim_steps();
void sim_step_limit(uint64_t n);    // raises "no progress" when exceeded (in instrumented accesses)
// ---- heap
long sim_alloc_count();             // instrumented allocations so far
void sim_alloc_fail_at(long k);     // the k-th instrumented allocation from now fails (0 based), -1 never
void sim_alloc_fail_every(int on);  // after the first failure keep failing until reset
long sim_alloc_failed();            // number of injected allocation failures so far
void sim_alloc_disarm();
long sim_leak_mark();               // token for sim_leak_check
long sim_leaked_since(long token, uint64_t* first_size, uintptr_t* site);  // live instrumented blocks allocated since
void sim_heap_fill(int kind, uint64_t seed);
// ---- disk (paths beginning with /simfs/)
struct SimIoCfg {
  int p_short_read, p_short_write, p_eintr;   // out of 256, per call
  int p_enospc, p_eio_write, p_eio_read, p_open_fail, p_mkdir_fail, p_close_fail;
  long disk_limit;                             // total bytes, -1 none
  long fail_write_at, fail_read_at, fail_open_at, fail_close_at;            // nth call fails, -1 none
};
extern SimIoCfg sim_io;
void sim_io_reset();                // no faults
long sim_fs_size(const char* path); // -1: absent
const char* sim_fs_data(const char* path);
void sim_fs_put(const char* path, const char* data, long n);
void sim_fs_truncate(const char* path, long n);
void sim_fs_remove(const char* path);
int  sim_fs_count();                // number of files
const char* sim_fs_name(int i);
int  sim_fs_isdir(const char* path);
int  sim_fs_open_fds();
long sim_io_writes(); long sim_io_reads(); long sim_io_opens();
long sim_io_write_faults();         // failing writes/opens/closes fired since reset
long sim_io_read_faults();
// ---- clock
void sim_clock_set(int64_t ns);
void sim_clock_jumpy(int on);
// ---- captured standard error
const char* sim_cerr_text(); long sim_cerr_len(); void sim_cerr_clear();
// ---- digest helper
uint64_t sim_mix(uint64_t h, uint64_t v);
typedef void (*sim_scenario_fn)();
void sim_register(const char* prop, const char* name, sim_scenario_fn fn, int weight);
void sim_race_detect(int on);
}

namespace sim {
inline uint32_t pick(uint32_t n) { return sim_pick(n); }
inline int range(int lo, int hi) { return lo + (int) sim_pick((uint32_t)(hi - lo + 1)); }
inline bool chance(int num, int den) { return (int) sim_pick((uint32_t) den) >= den - num; } // 0 -> false
// instrumentation is on while alive: code under test runs inside
struct Sys { int old; Sys() : old(sim_set_on(1)) {} ~Sys() { sim_set_on(old); } };
struct Off { int old; Off() : old(sim_set_on(0)) {} ~Off() { sim_set_on(old); } };
struct Reg { Reg(const char* p, const char* n, sim_scenario_fn f, int w = 1) { sim_register(p, n, f, w); } };
}
#define SIM_SCENARIO(prop, name, weight) \
  static void scen_##prop##_##name(); \
  static sim::Reg reg_##prop##_##name(#prop, #name, scen_##prop##_##name, weight); \
  static void scen_##prop##_##name()
