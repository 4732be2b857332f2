// Deterministic simulator: one OS thread runs every logical thread as a fiber;
// replaces libgomp and libtsan (the code under test is compiled with
// -fopenmp -fsanitize=thread and linked without either library).
// Deliberately free of STL containers: nothing here may be merged with
// instrumented template instantiations of the harness.
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <new>
#include <exception>
#include <typeinfo>
#include <iostream>
#include <streambuf>
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <pthread.h>
#include "sim.h"

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef uintptr_t uptr;
#define NOINL __attribute__((noinline))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

namespace {

// ------------------------------------------------------------------ layout
const uptr ARENA = 0x10000000000ull, ARENA_SZ = 32ull << 30, ARENA_HALF = 16ull << 30;   // A: under test, B: harness
const uptr VSHADOW = 0x20000000000ull;                  // validity, 1 byte per 8
const uptr STACKS = 0x30000000000ull; const uptr STK_SZ = 1 << 20; const int MAXT = 48;
const uptr STACKS_SZ = STK_SZ * (MAXT + 1);
const uptr RSHADOW = 0x40000000000ull;                  // race cells, 64 bytes per 8

enum { ST_NONE = 0, ST_OK = 1, ST_VIOL = 2, ST_INCONC = 3, ST_TIMEOUT = 4, ST_DIED = 5 };
enum Fault { F_SHORT_READ, F_SHORT_WRITE, F_EINTR, F_ENOSPC, F_EIO_WRITE, F_EIO_READ, F_OPEN_FAIL, F_MKDIR_FAIL, F_CLOSE_FAIL,
  F_ALLOC, F_CLOCK_JUMP, F_PREEMPT, F_STALL, F_SMALL_TEAM, F_HEAP_DIRT, F_TORN, F_DAMAGE, F_TASK_DEFER, F_N };
const char* fault_names[F_N] = {"short_read", "short_write", "eintr", "disk_full", "write_error", "read_error", "open_failure", "mkdir_failure",
  "close_failure", "allocation_failure", "clock_jump", "preemption", "stalled_thread", "smaller_team", "dirty_heap", "torn_file", "damaged_byte", "deferred_task"};

struct Probe { char name[48]; u32 n; };
struct Result {
  int status; int scenario; u64 seed;
  char key[256]; char msg[6144]; char desc[16384]; int ndesc;
  u64 hash, ihash, whash; u64 steps, steps_mt; u32 switches, teams, tasks, barriers, maxlive, maxthreads;
  u64 allocs, simns; u32 faults[F_N]; Probe probes[96]; int nprobe;
  uptr bt[24]; int nbt; uptr bt2; u32 nstream[3];
};
Result* R;

// ------------------------------------------------------------------ streams
const u32 CAP[3] = {1u << 20, 1u << 23, 1u << 20};
struct Rng { u64 s; u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } };
u32* strm[3]; u32 nrec[3]; const u32* replay[3]; u32 nreplay[3]; bool replaying = false; Rng srng[3];

inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }

u32 draw(int k, u32 n) {
  u32 v;
  u32 i = nrec[k];
  if (n <= 1) return 0;
  if (i >= CAP[k]) return 0;
  if (replaying) v = i < nreplay[k] ? replay[k][i] % n : 0;
  else v = (u32)(((srng[k].next() >> 32) * (u64) n) >> 32);
  strm[k][i] = v; nrec[k] = i + 1;
  return v;
}
// ------------------------------------------------------------------ logical threads
struct Task;
struct Team;
struct Ctx { Team* team; int id; u32 wsn, singn; Task* task; long is_, ie_; struct WS* ws; u64 ws_static_pos; };
struct Fiber {
  void* sp; int slot; int state; // 0 free 1 run 2 blocked 3 done
  bool (*pred)(void*); void* arg;
  void (*fn)(void*); void* fnarg;
  u64 eh[2]; int on; Ctx ctx; u32 vc[MAXT]; u8* tls; bool tls_init; bool started; const char* why;
  void* retval;
};
Fiber fib[MAXT];
Fiber* cur = nullptr; void* base_sp; 
int nlive = 0;
int g_on = 0;
int g_mt = 0;           // active multi-thread regions
bool g_race = true;
u64 g_steps = 0, g_next = ~0ull, g_limit = 400000000ull, g_preempt_at = ~0ull, g_steps_mt = 0;
u64 g_h = 1, g_ih = 1;
int g_nthreads = 1;
int g_policy_forced = -1, g_policy = 0, g_pbits = 0, g_stalled = -1;
bool g_in_child = false, g_done = false;
uptr data_lo, data_hi;
u8* tls_base = nullptr; u64 tls_size = 0; u8* tls_template = nullptr;

void finish(int status) __attribute__((noreturn));
void violation(const char* key, uptr pc, void* fp, const char* fmt, ...) __attribute__((noreturn));

int find_slot(uptr a) { return (a >= STACKS && a < STACKS + STACKS_SZ) ? (int)((a - STACKS) / STK_SZ) : -1; }

void backtrace_from(uptr pc, void* fp) {
  R->nbt = 0;
  if (pc) R->bt[R->nbt++] = pc;
  uptr f = (uptr) fp;
  uptr lo = f, hi = f;
  int s = find_slot(f);
  if (s >= 0) hi = STACKS + (s + 1) * STK_SZ - 64; else return;
  while (R->nbt < 24 && f >= lo && f < hi && !(f & 7)) {
    uptr ra = ((uptr*) f)[1], nf = ((uptr*) f)[0];
    if (!ra) break;
    if (R->nbt == 0 || ra != R->bt[R->nbt - 1]) R->bt[R->nbt++] = ra;
    if (nf <= f) break;
    f = nf;
  }
}

void sync_result() {
  R->hash = mix(mix(g_h, g_ih), g_steps); R->ihash = g_ih; R->steps = g_steps; R->steps_mt = g_steps_mt;
  for (int k = 0; k < 3; k++) R->nstream[k] = nrec[k];
  u64 w = 7; for (u32 i = 0; i < nrec[0]; i++) w = mix(w, strm[0][i]); R->whash = w;
}
void finish(int status) {
  sync_result();
  if (status == ST_VIOL) { u64 h = R->hash; for (char* p = R->key; *p; p++) h = mix(h, *p); R->hash = h; }
  R->status = status;
  _exit(0);
}
void violation(const char* key, uptr pc, void* fp, const char* fmt, ...) {
  g_on = 0;
  if (!g_in_child) { va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); fprintf(stderr, "\n"); _exit(99); }
  if (g_done) _exit(0);
  g_done = true;
  snprintf(R->key, sizeof R->key, "%s", key);
  va_list ap; va_start(ap, fmt); int n = vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap); (void) n;
  backtrace_from(pc, fp);
  finish(ST_VIOL);
}
#define HERE (uptr) __builtin_return_address(0), __builtin_frame_address(0)

extern "C" void sim_switch(void** save, void* to);
asm(R"(
.pushsection .text
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  push %rbp
  push %rbx
  push %r12
  push %r13
  push %r14
  push %r15
  mov %rsp,(%rdi)
  mov %rsi,%rsp
  pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbx
  pop %rbp
  ret
.popsection
)");

void raw_copy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); }
void raw_set(void* d, int c, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); }

void set_next() { g_next = g_preempt_at < g_limit ? g_preempt_at : g_limit; }
void draw_interval() {
  g_preempt_at = ~0ull;
  if (g_mt && g_policy >= 2 && nlive > 1) {
    u32 v = draw(1, 1u << g_pbits);
    if (v) g_preempt_at = g_steps + v;
  }
  set_next();
}
void switch_to(Fiber* f) {
  if (f == cur) { draw_interval(); return; }
  Fiber* old = cur;
  u64* eh = (u64*) abi::__cxa_get_globals();
  old->eh[0] = eh[0]; ((u32*) &old->eh[1])[0] = ((u32*) (eh + 1))[0];
  old->on = g_on;
  if (tls_size) raw_copy(old->tls, tls_base, tls_size);
  cur = f;
  eh[0] = f->eh[0]; ((u32*) (eh + 1))[0] = ((u32*) &f->eh[1])[0];
  if (tls_size) {
    if (!f->tls_init) { f->tls_init = true; raw_copy(f->tls, tls_template, tls_size); }
    raw_copy(tls_base, f->tls, tls_size);
  }
  g_on = f->on;
  R->switches++;
  g_ih = mix(g_ih, ((u64) f->slot << 32) ^ g_h);
  draw_interval();
  sim_switch(&old->sp, f->sp);
}
// choose who runs next; cur may stay if may_stay
void reschedule(bool may_stay) {
  Fiber* c[MAXT]; int n = 0; Fiber* st = nullptr;
  bool cur_ok = may_stay;
  if (!may_stay && cur->state == 2 && cur->pred(cur->arg)) cur_ok = true;
  if (cur_ok) { if (cur->slot == g_stalled) st = cur; else c[n++] = cur; }
  for (int i = 0; i < MAXT; i++) {
    Fiber* f = &fib[i];
    if (f == cur) continue;
    bool ok = f->state == 1 || (f->state == 2 && f->pred(f->arg));
    if (!ok) continue;
    if (f->slot == g_stalled) st = f; else c[n++] = f;
  }
  if (n == 0) {
    if (!st) {
      char b[1024]; int k = 0; b[0] = 0;
      for (int i = 0; i < MAXT; i++) if (fib[i].state == 2) k += snprintf(b + k, sizeof b - k, " thread %d waits for %s;", i, fib[i].why ? fib[i].why : "?");
      violation("deadlock", HERE, "no logical thread can make progress:%s", b);
    }
    c[n++] = st;
  } else if (st) R->faults[F_STALL]++;
  u32 v = 0;
  if (n > 1 && g_policy >= 1) v = draw(1, n);
  Fiber* f = c[v];
  if (f->state == 2) f->state = 1;
  switch_to(f);
}
void sync_point() { if (nlive > 1) reschedule(true); }
void block_on(bool (*pred)(void*), void* arg, const char* why) {
  if (pred(arg)) { sync_point(); if (pred(arg)) return; }
  while (!pred(arg)) {
    cur->state = 2; cur->pred = pred; cur->arg = arg; cur->why = why;
    reschedule(false);
    cur->state = 1;
  }
}
inline void vc_join(u32* a, const u32* b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
inline void vc_tick() { cur->vc[cur->slot]++; }

void fiber_main() noexcept;
extern "C" void sim_fiber_entry() { fiber_main(); }
asm(R"(
.pushsection .text
.text
sim_fiber_start:
  xor %ebp,%ebp
  call sim_fiber_entry
  hlt
.popsection
)");
extern "C" void sim_fiber_start();
void fiber_main() noexcept {
  Fiber* f = cur;
  f->fn(f->fnarg);
  g_on = 0;
  if (f->slot == 0) { // run finished
    void* dummy; sim_switch(&dummy, base_sp);
    __builtin_unreachable();
  }
  f->state = 3; nlive--;
  vc_tick();
  // find someone else
  cur->pred = nullptr;
  Fiber* self = cur;
  // emulate reschedule without staying
  Fiber* c[MAXT]; int n = 0; Fiber* st = nullptr;
  for (int i = 0; i < MAXT; i++) {
    Fiber* g = &fib[i]; if (g == self) continue;
    bool ok = g->state == 1 || (g->state == 2 && g->pred(g->arg));
    if (!ok) continue;
    if (g->slot == g_stalled) st = g; else c[n++] = g;
  }
  if (!n && !st) violation("deadlock", HERE, "no logical thread can make progress after a thread finished");
  if (!n) c[n++] = st;
  u32 v = (n > 1 && g_policy >= 1) ? draw(1, n) : 0;
  Fiber* g = c[v]; if (g->state == 2) g->state = 1;
  switch_to(g);
  __builtin_unreachable();
}
Fiber* spawn(void (*fn)(void*), void* arg, int on) {
  int s = -1;
  for (int i = 0; i < MAXT; i++) if (fib[i].state == 0) { s = i; break; }
  if (s < 0) { finish(ST_INCONC); }
  Fiber* f = &fib[s];
  uptr top = STACKS + (s + 1) * STK_SZ - 64;
  void** sp = (void**) (top & ~15ull);
  *--sp = nullptr; *--sp = nullptr;       // end of the frame chain
  *--sp = (void*) sim_fiber_start;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  f->sp = sp; f->state = 1; f->fn = fn; f->fnarg = arg; f->on = on; f->eh[0] = f->eh[1] = 0; f->tls_init = false; f->pred = nullptr; f->why = nullptr;
  Ctx z = {}; f->ctx = z;
  if (cur) { for (int i = 0; i < MAXT; i++) if (cur->vc[i] > f->vc[i]) f->vc[i] = cur->vc[i]; vc_tick(); }
  f->vc[s]++;
  nlive++;
  if (nlive > (int) R->maxlive) R->maxlive = nlive;
  return f;
}
void reap(Fiber* f) { vc_join(cur->vc, f->vc); f->state = 0; }

// ------------------------------------------------------------------ race detector
struct Cell { u32 epoch; u8 tid, off, sz, fl; u32 pc; u32 pad; };   // fl: 1 write 2 atomic
inline Cell* cells(uptr a) {
  uptr g;
  if (a - ARENA < ARENA_SZ) g = a - ARENA;
  else if (a - STACKS < STACKS_SZ) g = ARENA_SZ + (a - STACKS);
  else if (a >= data_lo && a < data_hi) g = ARENA_SZ + STACKS_SZ + (a - (data_lo & ~7ull));
  else return nullptr;
  return (Cell*) (RSHADOW + (g >> 3) * 64);
}
bool in_tls(uptr a) { return tls_size && a >= (uptr) tls_base && a < (uptr) tls_base + tls_size; }
NOINL void race_report(Cell* c, uptr a, unsigned sz, int fl, uptr pc, void* fp) {
  R->bt2 = c->pc;
  violation("race", pc, fp, "data race: logical thread %d %s %u bytes at %p, unordered with an earlier %s of %u bytes by logical thread %d",
    cur->slot, fl & 1 ? "writes" : "reads", sz, (void*) a, c->fl & 1 ? "write" : "read", c->sz, c->tid);
}
inline void race_granule(uptr a, unsigned sz, int fl, uptr pc, void* fp) {
  Cell* c = cells(a);
  if (!c) return;
  unsigned off = a & 7; int me = cur->slot; u32* vc = cur->vc;
  int store = -1;
  for (int i = 0; i < 4; i++) {
    Cell& k = c[i];
    if (!k.epoch) { if (store < 0) store = i; break; }
    if (k.off < off + sz && off < (unsigned) k.off + k.sz) {
      if (k.tid == me) {
        if (k.off == off && k.sz == sz && (k.fl == fl || ((fl & 1) && !(k.fl & 2)))) store = i;
        continue;
      }
      if (!((k.fl | fl) & 1)) continue;
      if ((k.fl & fl) & 2) continue;
      if (k.epoch > vc[k.tid]) race_report(&k, a, sz, fl, pc, fp);
      if (store < 0 && (fl & 1) && k.off >= off && k.off + k.sz <= off + sz) store = i;  // dominated
    }
  }
  if (store < 0) store = (g_steps + (a >> 3)) & 3;
  Cell& k = c[store];
  k.epoch = vc[me]; k.tid = me; k.off = off; k.sz = sz; k.fl = fl; k.pc = (u32) pc;
}
NOINL void race_access(uptr a, unsigned sz, int fl, uptr pc, void* fp) {
  g_steps_mt++;
  if (!g_race) return;
  while (sz) {
    unsigned room = 8 - (a & 7), n = sz < room ? sz : room;
    race_granule(a, n, fl, pc, fp);
    a += n; sz -= n;
  }
}
void race_clear(uptr a, uptr n) {
  if (!g_mt) return;
  Cell* c = cells(a); if (!c) return;
  uptr bytes = ((n + 7) >> 3) * 64;
  raw_set(c, 0, bytes);
}
// ------------------------------------------------------------------ heap
struct Hdr { u64 size; u32 magic, seq; u64 site; u32 cls; u32 half; };
const u32 LIVE = 0xA110CA7E, DEAD = 0xDEADF7EE;
const int NCLS = 160;
struct Half { uptr base, top, end; uptr qhead[NCLS], qtail[NCLS]; u64 qbytes[NCLS]; };
Half half[2];
u32 alloc_seq = 1; long alloc_n = 0; long fail_at = -1; int fail_sticky = 0; long failed_n = 0;
int fill_kind = 0; u64 fill_seed = 1;

int cls_of(u64 size, u64* cap) {
  u64 s = (size + 15) & ~15ull; if (!s) s = 16;
  if (s <= 1024) { *cap = s; return (int)(s / 16); }
  int lg = 63 - __builtin_clzll(s - 1) + 1;  // ceil log2
  *cap = 1ull << lg; return 65 + lg;
}
inline u8* vsh(uptr a) { return (u8*) (VSHADOW + ((a - ARENA) >> 3)); }
void set_valid(uptr a, u64 n) { u8* s = vsh(a); u64 q = n >> 3; raw_set(s, 8, q); if (n & 7) s[q] = n & 7; }
void set_invalid(uptr a, u64 n, int v) { raw_set(vsh(a), v, (n + 7) >> 3); }

void map_fixed(uptr a, u64 n);
void heap_init() {
  map_fixed(ARENA, ARENA_SZ); map_fixed(VSHADOW, ARENA_SZ >> 3);
  for (int i = 0; i < 2; i++) { half[i].base = half[i].top = ARENA + i * ARENA_HALF + 64; half[i].end = ARENA + (i + 1) * ARENA_HALF; }
}
void* heap_alloc(u64 size, u64 align, uptr site, void* fp) {
  (void) fp;
  int h = (g_on && g_in_child) ? 0 : 1;
  if (h == 0) {
    long k = alloc_n++;
    if (fail_at >= 0 && (k == fail_at || (fail_sticky && k > fail_at))) { failed_n++; R->faults[F_ALLOC]++; return nullptr; }
    if (size > (1ull << 30)) return nullptr;
  }
  if (unlikely(!half[0].base)) heap_init();
  Half& H = half[h];
  u64 cap; int cl = cls_of(size + (align > 16 ? align : 0), &cap);
  uptr blk;
  if (H.qbytes[cl] > (h == 0 ? (4u << 20) : (256u << 10))) {
    blk = H.qhead[cl]; H.qhead[cl] = *(uptr*) (blk + 32); if (!H.qhead[cl]) H.qtail[cl] = 0; H.qbytes[cl] -= cap;
  } else {
    blk = H.top; H.top += 32 + cap + 16;
    if (H.top > H.end) { if (g_in_child) finish(ST_INCONC); _exit(98); }
  }
  Hdr* hd = (Hdr*) blk;
  hd->size = size; hd->magic = LIVE; hd->seq = alloc_seq++; hd->site = site; hd->cls = cl; hd->half = h;
  uptr p = blk + 32;
  if (align > 16) { p = (p + align - 1) & ~(align - 1); if (p != blk + 32) { ((u64*) p)[-1] = blk; ((u64*) p)[-2] = 0x5117ull; } }
  if (h == 0) {
    raw_set((void*) vsh(blk), 0, (32 + cap + 16) >> 3);
    if (fill_kind == 0) raw_set((void*) p, 0, size);
    else if (fill_kind == 1) raw_set((void*) p, 0xFF, size);
    else if (fill_kind == 2) { Rng r{fill_seed ^ hd->seq}; u64 i = 0; for (; i + 8 <= size; i += 8) *(u64*) (p + i) = r.next(); for (; i < size; i++) *(u8*) (p + i) = (u8) r.next(); }
    else if (fill_kind == 3) { for (u64 i = 0; i + 8 <= size; i += 8) *(u64*) (p + i) = 1 + (hd->seq & 3); for (u64 i = size & ~7ull; i < size; i++) *(u8*) (p + i) = 1; }
    else raw_set((void*) p, 0xCD, size);
  }
  set_valid(p, size);
  if (g_mt) race_clear(p, size);
  return (void*) p;
}
NOINL void heap_free(void* vp, uptr site, void* fp) {
  if (!vp) return;
  uptr p = (uptr) vp;
  if (p - ARENA >= ARENA_SZ) { violation("bad-free", site, fp, "delete of a pointer that was never allocated: %p", vp); }
  uptr blk = p - 32;
  if (((u64*) p)[-2] == 0x5117ull) blk = ((u64*) p)[-1];
  Hdr* hd = (Hdr*) blk;
  if (hd->magic == DEAD) violation("double-free", site, fp, "block %p of %llu bytes freed twice", vp, (unsigned long long) hd->size);
  if (hd->magic != LIVE) violation("bad-free", site, fp, "delete of a pointer that is not the start of a block: %p", vp);
  u64 cap; u64 size = hd->size; (void) cls_of; int cl = hd->cls; cap = cl <= 64 ? (u64) cl * 16 : 1ull << (cl - 65);
  if (g_mt && g_on && size) race_access(p, size > 64 ? 64 : (unsigned) size, 1, site, fp);
  hd->magic = DEAD;
  set_invalid(p, size ? size : 1, 0x80);
  if (hd->half == 0) raw_set((void*) p, 0xDD, size);
  Half& H = half[hd->half];
  *(uptr*) (blk + 32) = 0;
  if (H.qtail[cl]) *(uptr*) (H.qtail[cl] + 32) = blk; else H.qhead[cl] = blk;
  H.qtail[cl] = blk; H.qbytes[cl] += cap;
}
NOINL void bad_access(uptr a, unsigned sz, int fl, uptr pc, void* fp) {
  u8 s = *vsh(a); if (s == 8 || (s && s < 8 && (a & 7) + 1 <= s)) { for (unsigned i = 0; i < sz; i++) { u8 t = *vsh(a + i); if (t == 0 || t == 0x80 || ((a + i) & 7) >= t) { s = t; break; } } }
  const char* what = s == 0x80 ? "use-after-free" : "heap-out-of-bounds";
  violation(what, pc, fp, "%s: %s of %u bytes at %p", what, fl & 1 ? "write" : "read", sz, (void*) a);
}
inline bool valid(uptr a, unsigned sz) {
  u8 s = *vsh(a);
  if (likely((a & 7) + sz <= 8)) return s <= 8 && (a & 7) + sz <= s;
  unsigned n = 8 - (a & 7);
  if (s != 8) return false;
  a += n; sz -= n;
  while (sz) { unsigned m = sz < 8 ? sz : 8; u8 t = *vsh(a); if (t > 8 || t < m) return false; a += m; sz -= m; }
  return true;
}
NOINL void slow_event(void* fp, uptr pc) {
  if (g_steps >= g_limit) violation("no-progress", pc, fp, "no completion within %llu instrumented steps", (unsigned long long) g_limit);
  if (g_steps >= g_preempt_at) {
    g_preempt_at = ~0ull; set_next();
    if (nlive > 1) { R->faults[F_PREEMPT]++; reschedule(true); }
  }
}
inline __attribute__((always_inline)) void access(uptr a, unsigned sz, int fl, uptr pc, void* fp) {
  if (!g_on) return;
  g_h = g_h * 0x9E3779B97F4A7C15ull + pc;
  if (likely(a - ARENA < ARENA_SZ)) { if (unlikely(!valid(a, sz))) bad_access(a, sz, fl, pc, fp); }
  if (unlikely(g_mt)) { if (!in_tls(a)) race_access(a, sz, fl, pc, fp); }
  if (unlikely(++g_steps >= g_next)) slow_event(fp, pc);
}
NOINL void access_range(uptr a, u64 n, int fl, uptr pc, void* fp) {
  if (!g_on || !n) return;
  g_h = g_h * 0x9E3779B97F4A7C15ull + pc;
  if (a - ARENA < ARENA_SZ) {
    for (u64 i = 0; i < n;) { unsigned m = 8 - ((a + i) & 7); if (m > n - i) m = n - i; if (!valid(a + i, m)) bad_access(a + i, m, fl, pc, fp); i += m; }
  }
  if (g_mt && !in_tls(a)) { for (u64 i = 0; i < n;) { unsigned m = 8 - ((a + i) & 7); if (m > n - i) m = n - i; race_access(a + i, m, fl, pc, fp); i += m; } }
  g_steps += 1 + n / 8;
  if (g_steps >= g_next) slow_event(fp, pc);
}
} // namespace

#include "tsan.inc"
#include "heap.inc"
#include "omp.inc"
#include "io.inc"
#include "main.inc"
