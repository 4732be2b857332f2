// The OpenMP runtime the compiler targets (libgomp's entry points), on fibers.
namespace {
struct Task { void (*fn)(void*); void* data; Task* parent; int nchild; u32 vc[MAXT]; u32 childvc[MAXT]; struct Group* grp; bool queued, done; Task* next; bool implicit; };
struct Group { Group* up; int n; u32 vc[MAXT]; };
struct WS { bool init; int done; int kind; bool up; long start, end, incr, chunk; u64 next, total; u64 ustart, uincr; bool single_taken; void* copyp; u32 copyvc[MAXT]; long ordered_next; };
const int NWS = 8192;
struct Team {
  int n; Fiber* f[MAXT]; Team* up; void (*fn)(void*); void* data;
  int arrived; u32 gen; Task* q; int nq; int outstanding; WS* ws; u32 nws; Group* grp0;
  void* mem; u64 mem_sz; int exited; bool cancelled; int npart;
};
inline Ctx& cx() { return cur->ctx; }
inline int team_size() { return cur && cx().team ? cx().team->n : 1; }
inline int thread_num() { return cur && cx().team ? cx().id : 0; }

int g_run_sched_kind = 2; long g_run_sched_chunk = 1;
int g_max_levels = 1;

int team_pick_size(unsigned req) {
  int n = req ? (int) req : g_nthreads;
  if (n > 32) n = 32;
  int level = 0; for (Team* t = cx().team; t; t = t->up) if (t->n > 1) level++;
  if (level >= g_max_levels) return 1;
  if (n > 1 && g_policy_forced != 0) { // a runtime may deliver fewer threads than asked for
    u32 v = draw(1, 16);
    if (v == 15) { n = 1 + (int) draw(1, n); R->faults[F_SMALL_TEAM]++; }
  }
  return n;
}
void draw_policy() {
  if (g_policy_forced >= 0) { g_policy = g_policy_forced; g_pbits = 6; }
  else {
    u32 v = draw(1, 8);           // 0: sequential order
    g_policy = v == 0 ? 0 : v == 1 ? 1 : 2;
    g_pbits = 0;
    if (g_policy == 2) g_pbits = 1 + (int) draw(1, 14);
  }
  g_stalled = -1;
  if (g_policy && draw(1, 6) == 5) g_stalled = (int) draw(1, 8);
}

Task* new_task() { Task* t = (Task*) calloc(1, sizeof(Task)); return t; }
void run_task(Task* t) {   // on the current logical thread
  Team* tm = cx().team;
  Task* saved = cx().task;
  cx().task = t;
  vc_join(cur->vc, t->vc); vc_tick();
  int on = cur->on; g_on = 1;
  t->fn(t->data);
  g_on = 1; (void) on;
  cx().task = saved;
  t->done = true;
  vc_tick();
  if (t->parent) { vc_join(t->parent->childvc, cur->vc); t->parent->nchild--; }
  if (t->grp) { vc_join(t->grp->vc, cur->vc); t->grp->n--; }
  if (tm) tm->outstanding--;
  vc_tick();
}
Task* take_task(Team* tm, Task* parent_only, Group* grp_only) {
  int n = 0;
  for (Task* t = tm->q; t; t = t->next) if ((!parent_only || t->parent == parent_only) && (!grp_only || t->grp == grp_only)) n++;
  if (!n) return nullptr;
  int k = g_policy ? (int) draw(1, n) : 0;
  Task** pp = &tm->q;
  for (; *pp; pp = &(*pp)->next) {
    Task* t = *pp;
    if ((!parent_only || t->parent == parent_only) && (!grp_only || t->grp == grp_only)) { if (k-- == 0) { *pp = t->next; tm->nq--; t->queued = false; return t; } }
  }
  return nullptr;
}
struct BarWait { Team* t; u32 gen; };
bool bar_ready(void* p) { BarWait* b = (BarWait*) p; return b->t->gen != b->gen || b->t->q || (b->t->arrived == b->t->n && b->t->outstanding == 0); }
void barrier() {
  Team* t = cx().team;
  if (!t) return;
  R->barriers++;
  if (t->n == 1) { while (Task* k = take_task(t, nullptr, nullptr)) run_task(k); return; }
  vc_tick();
  BarWait b{t, t->gen};
  t->arrived++;
  for (;;) {
    if (t->gen != b.gen) break;
    if (t->q) { if (Task* k = take_task(t, nullptr, nullptr)) { int on = g_on; run_task(k); g_on = on; sync_point(); continue; } }
    if (t->arrived == t->n && t->outstanding == 0) {
      u32 all[MAXT]; raw_set(all, 0, sizeof all);
      for (int i = 0; i < t->n; i++) vc_join(all, t->f[i]->vc);
      for (int i = 0; i < t->n; i++) { vc_join(t->f[i]->vc, all); t->f[i]->vc[t->f[i]->slot]++; }
      t->arrived = 0; t->gen++;
      sync_point();
      break;
    }
    block_on(bar_ready, &b, "a barrier");
  }
}
struct Start { Team* t; int id; };
void worker_main(void* p) {
  Start s = *(Start*) p;
  Task it; raw_set(&it, 0, sizeof it); it.implicit = true;
  cx().team = s.t; cx().id = s.id; cx().task = &it; cx().wsn = 0; cx().singn = 0;
  s.t->fn(s.t->data);
  g_on = 1;
  barrier();
  s.t->exited++;
  vc_tick();
}
bool all_exited(void* p) { Team* t = (Team*) p; if (t->exited < t->n - 1) return false; for (int i = 1; i < t->n; i++) if (t->f[i]->state != 3) return false; return true; }
void team_end() {
  Team* t = cx().team;
  barrier();
  if (t->n > 1) {
    int st = g_stalled; g_stalled = -1;
    block_on(all_exited, t, "the end of a parallel region");
    g_stalled = st;
    for (int i = 1; i < t->n; i++) reap(t->f[i]);
    g_mt--;
    if (nlive == 1) { g_preempt_at = ~0ull; set_next(); g_stalled = -1; }
    vc_tick();
  }
}
void run_team(void (*fn)(void*), void* data, int n, void (*prep)(Team*), void* prep_arg, int worker_on) {
  Team* t = (Team*) calloc(1, sizeof(Team));
  t->n = n; t->fn = fn; t->data = data; t->ws = (WS*) mmap(nullptr, sizeof(WS) * NWS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  t->up = cx().team;
  if (prep) { t->mem = prep_arg; prep(t); }
  R->teams++; if (n > (int) R->maxthreads) R->maxthreads = n;
  Ctx saved = cx();
  Task it; raw_set(&it, 0, sizeof it); it.implicit = true;
  Ctx c = {}; c.team = t; c.id = 0; c.task = &it;
  cur->ctx = c;
  t->f[0] = cur;
  Start st[MAXT];
  int on = g_on;
  if (n > 1) {
    if (!g_mt) draw_policy();
    g_mt++;
    for (int i = 1; i < n; i++) { st[i].t = t; st[i].id = i; t->f[i] = spawn(worker_main, &st[i], worker_on); }
    draw_interval();
    reschedule(true);
  }
  fn(data);
  g_on = on;
  team_end();
  cur->ctx = saved;
  munmap(t->ws, sizeof(WS) * NWS);
  free(t);
}
// ---- work sharing
WS* ws_get() {
  Team* t = cx().team;
  static WS lone;
  if (!t) { raw_set(&lone, 0, sizeof lone); return &lone; }
  u32 k = cx().wsn++;
  if (k >= NWS) finish(ST_INCONC);
  return &t->ws[k];
}
enum { SK_STATIC = 1, SK_DYNAMIC = 2, SK_GUIDED = 3 };
void ws_init(WS* w, int kind, u64 total, long chunk, u64 start, u64 incr) {
  if (w->init) return;
  w->init = true; w->kind = kind; w->total = total; w->chunk = chunk; w->ustart = start; w->uincr = incr; w->next = 0;
}
bool ws_next(u64* ps, u64* pe) { // iteration-number range
  WS* w = cx().ws; u64 n = team_size(), id = thread_num();
  if (w->kind == SK_STATIC) {
    u64 k = cx().ws_static_pos++;
    if (w->chunk <= 0) {
      if (k) return false;
      u64 q = w->total / n, r = w->total % n;
      if (id < r) { q++; r = 0; }
      *ps = q * id + r; *pe = *ps + q; return *ps < *pe;
    }
    u64 s = (k * n + id) * (u64) w->chunk; if (s >= w->total) return false;
    *ps = s; *pe = s + w->chunk < w->total ? s + w->chunk : w->total; return true;
  }
  sync_point();
  if (w->next >= w->total) return false;
  u64 c = w->chunk > 0 ? w->chunk : 1;
  if (w->kind == SK_GUIDED) { u64 q = (w->total - w->next + n - 1) / n; if (q > c) c = q; }
  *ps = w->next; *pe = w->next + c < w->total ? w->next + c : w->total; w->next = *pe;
  return true;
}
void resolve_kind(int& kind, long& chunk) { if (kind == 0) { kind = g_run_sched_kind; chunk = g_run_sched_chunk; } }
bool loop_next_l(long* is, long* ie) {
  u64 a, b; if (!ws_next(&a, &b)) return false;
  WS* w = cx().ws; *is = (long) (w->ustart + a * w->uincr); *ie = (long) (w->ustart + b * w->uincr);
  if (b == w->total && w->uincr != 0) *ie = w->end; // last chunk ends exactly at the bound
  return true;
}
u64 trip(long s, long e, long inc) { if (inc > 0) return s < e ? ((u64) e - (u64) s + inc - 1) / inc : 0; return s > e ? ((u64) s - (u64) e + (-inc) - 1) / (u64) (-inc) : 0; }
bool loop_start_l(int kind, long s, long e, long inc, long chunk, long* is, long* ie) {
  WS* w = ws_get(); resolve_kind(kind, chunk);
  ws_init(w, kind, trip(s, e, inc), chunk, (u64) s, (u64) inc); w->end = e;
  cx().ws = w; cx().ws_static_pos = 0;
  if (!is) return true;
  return loop_next_l(is, ie);
}
typedef unsigned long long ull;
bool loop_next_u(ull* is, ull* ie) {
  u64 a, b; if (!ws_next(&a, &b)) return false;
  WS* w = cx().ws; *is = w->ustart + a * w->uincr; *ie = w->ustart + b * w->uincr; if (b == w->total) *ie = (ull) w->end; return true;
}
bool loop_start_u(int kind, bool up, ull s, ull e, ull inc, ull chunk, ull* is, ull* ie) {
  WS* w = ws_get(); long ch = (long) chunk; resolve_kind(kind, ch);
  u64 total = up ? (s < e ? (e - s + inc - 1) / inc : 0) : (s > e ? (s - e + (-inc) - 1) / (-inc) : 0);
  ws_init(w, kind, total, ch, s, inc); w->end = (long) e;
  cx().ws = w; cx().ws_static_pos = 0;
  return loop_next_u(is, ie);
}
struct LoopPrep { int kind; long s, e, inc, chunk; };
void loop_prep(Team* t) { LoopPrep* p = (LoopPrep*) t->mem; int k = p->kind; long c = p->chunk; resolve_kind(k, c); ws_init(&t->ws[0], k, trip(p->s, p->e, p->inc), c, (u64) p->s, (u64) p->inc); t->ws[0].end = p->e; t->npart = 1; }
struct LoopData { void (*fn)(void*); void* data; };
void loop_body(void* p) { LoopData* d = (LoopData*) p; cx().wsn = 1; cx().ws = &cx().team->ws[0]; cx().ws_static_pos = 0; d->fn(d->data); }
void parallel_loop(void (*fn)(void*), void* data, unsigned nt, int kind, long s, long e, long inc, long chunk) {
  LoopPrep lp{kind, s, e, inc, chunk}; LoopData ld{fn, data};
  run_team(loop_body, &ld, team_pick_size(nt), loop_prep, &lp, 1);
}
// ---- locks
bool sync_free(void* p) { return ((Sync*) p)->owner < 0; }
void lock_addr(uptr a, const char* why) {
  if (!cur) return;
  Sync* s = sync_of(a);
  if (s->owner == cur->slot) violation("deadlock", HERE, "a thread acquires %s it already holds", why);
  sync_point();
  block_on(sync_free, s, why);
  s->owner = cur->slot; acq(s);
}
bool trylock_addr(uptr a) { if (!cur) return true; sync_point(); Sync* s = sync_of(a); if (s->owner >= 0) return false; s->owner = cur->slot; acq(s); return true; }
void unlock_addr(uptr a) { if (!cur) return; Sync* s = sync_of(a); s->owner = -1; rel(s); sync_point(); }
char crit_default, atomic_default;
} // namespace

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { run_team(fn, data, team_pick_size(nt), nullptr, nullptr, 1); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned nt, unsigned) { int n = team_pick_size(nt); run_team(fn, data, n, nullptr, nullptr, 1); return n; }
void GOMP_parallel_loop_static(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { parallel_loop(fn, d, nt, SK_STATIC, s, e, i, c); }
void GOMP_parallel_loop_dynamic(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { parallel_loop(fn, d, nt, SK_DYNAMIC, s, e, i, c); }
void GOMP_parallel_loop_guided(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { parallel_loop(fn, d, nt, SK_GUIDED, s, e, i, c); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { parallel_loop(fn, d, nt, SK_DYNAMIC, s, e, i, c); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { parallel_loop(fn, d, nt, SK_GUIDED, s, e, i, c); }
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { parallel_loop(fn, d, nt, 0, s, e, i, 1); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { parallel_loop(fn, d, nt, 0, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { parallel_loop(fn, d, nt, 0, s, e, i, 1); }
#define LOOPS(name, kind) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start_l(kind, s, e, i, c, is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { return loop_next_l(is, ie); } \
  bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { return loop_start_u(kind, up, s, e, i, c, is, ie); } \
  bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { return loop_next_u(is, ie); }
LOOPS(static, SK_STATIC) LOOPS(dynamic, SK_DYNAMIC) LOOPS(guided, SK_GUIDED) LOOPS(nonmonotonic_dynamic, SK_DYNAMIC) LOOPS(nonmonotonic_guided, SK_GUIDED)
#define LOOPR(name) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long* is, long* ie) { return loop_start_l(0, s, e, i, 1, is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { return loop_next_l(is, ie); } \
  bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull* is, ull* ie) { return loop_start_u(0, up, s, e, i, 1, is, ie); } \
  bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { return loop_next_u(is, ie); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
bool GOMP_loop_start(long s, long e, long i, long sched, long c, long* is, long* ie, uptr*, void** mem) {
  int kind = (int) (sched & 0xff); if (kind > 3) kind = 1;
  if (mem) { Team* t = cx().team; if (t) { if (!t->mem_sz) { t->mem_sz = (u64) *mem; t->mem = calloc(1, t->mem_sz); } *mem = t->mem; } else *mem = calloc(1, (u64) *mem); }
  return loop_start_l(kind, s, e, i, c, is, ie);
}
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier(); return false; }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_single_start() { sync_point(); WS* w = ws_get(); if (w->single_taken) return false; w->single_taken = true; return true; }
struct CopyWait { WS* w; };
void* GOMP_single_copy_start() {
  WS* w = ws_get(); cx().ws = w;
  if (!w->single_taken) { w->single_taken = true; return nullptr; }
  struct P { static bool ready(void* p) { return ((WS*) p)->copyp != nullptr; } };
  block_on(P::ready, w, "a copyprivate value"); vc_join(cur->vc, w->copyvc); return w->copyp;
}
void GOMP_single_copy_end(void* d) { WS* w = cx().ws; w->copyp = d; raw_copy(w->copyvc, cur->vc, sizeof w->copyvc); vc_tick(); }
void GOMP_critical_start() { lock_addr((uptr) &crit_default, "a critical section"); }
void GOMP_critical_end() { unlock_addr((uptr) &crit_default); }
void GOMP_critical_name_start(void** p) { lock_addr((uptr) p, "a named critical section"); }
void GOMP_critical_name_end(void** p) { unlock_addr((uptr) p); }
void GOMP_atomic_start() { lock_addr((uptr) &atomic_default, "an atomic update"); }
void GOMP_atomic_end() { unlock_addr((uptr) &atomic_default); }
void GOMP_ordered_start() { lock_addr((uptr) &crit_default + 0, "an ordered region"); }
void GOMP_ordered_end() { unlock_addr((uptr) &crit_default + 0); }
unsigned GOMP_sections_start(unsigned n) { WS* w = ws_get(); ws_init(w, SK_DYNAMIC, n, 1, 1, 1); cx().ws = w; u64 a, b; return ws_next(&a, &b) ? (unsigned) a + 1 : 0; }
unsigned GOMP_sections_next() { u64 a, b; return ws_next(&a, &b) ? (unsigned) a + 1 : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned count, unsigned) { parallel_loop(fn, d, nt, SK_DYNAMIC, 1, (long) count + 1, 1, 1); }

static void* task_copy(void* data, void (*cpy)(void*, void*), long sz, long al) {
  char* b = (char*) malloc(sz + al + 16); b = (char*) (((uptr) b + al) & ~(uptr) (al - 1)); if (al < 1) al = 1;
  if (cpy) { cpy(b, data); } else raw_copy(b, data, sz);
  return b;
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool if_clause, unsigned flags, void**, int, void*) {
  Team* t = cx().team; R->tasks++;
  bool defer = t && t->n > 1 && if_clause && !(flags & 8) && t->nq < 64 * t->n;
  if (defer && g_policy && draw(1, 4) == 3) defer = false;       // a runtime may run any task undeferred
  if (flags & 8) { extern void GOMP_taskwait(); GOMP_taskwait(); }
  if (!defer) {
    Task* k = new_task(); k->parent = nullptr; raw_copy(k->vc, cur->vc, sizeof k->vc);
    Task* saved = cx().task; 
    k->parent = saved; if (saved) saved->nchild++;
    k->grp = nullptr; cx().task = k;
    void* d = task_copy(data, cpy, sz, al < 1 ? 1 : al);
    int on = g_on; g_on = 1;
    fn(d);
    g_on = on;
    cx().task = saved; if (saved) { saved->nchild--; }
    return;
  }
  R->faults[F_TASK_DEFER]++;
  Task* k = new_task(); k->fn = fn; k->data = task_copy(data, cpy, sz, al < 1 ? 1 : al);
  k->parent = cx().task; if (k->parent) k->parent->nchild++;
  k->grp = t->grp0; for (Group* g = k->grp; g; g = nullptr) g->n++;
  vc_tick(); raw_copy(k->vc, cur->vc, sizeof k->vc); vc_tick();
  k->queued = true; t->outstanding++; t->nq++;
  Task** pp = &t->q; while (*pp) pp = &(*pp)->next; *pp = k;
  sync_point();
}
struct TW { Team* t; Task* self; Group* g; };
static bool tw_ready(void* p) { TW* w = (TW*) p; if (w->g ? w->g->n == 0 : w->self->nchild == 0) return true; for (Task* k = w->t->q; k; k = k->next) if (w->g ? k->grp == w->g : k->parent == w->self) return true; return false; }
void GOMP_taskwait() {
  Team* t = cx().team; Task* self = cx().task;
  if (!t || !self) return;
  TW w{t, self, nullptr};
  while (self->nchild) {
    if (Task* k = take_task(t, self, nullptr)) { int on = g_on; run_task(k); g_on = on; sync_point(); continue; }
    block_on(tw_ready, &w, "its child tasks");
  }
  vc_join(cur->vc, self->childvc); vc_tick();
}
void GOMP_taskwait_depend(void**) { GOMP_taskwait(); }
void GOMP_taskyield() { Team* t = cx().team; if (t && t->q && g_policy && draw(1, 2)) { if (Task* k = take_task(t, cx().task, nullptr)) { int on = g_on; run_task(k); g_on = on; } } sync_point(); }
void GOMP_taskgroup_start() { Team* t = cx().team; if (!t) return; Group* g = (Group*) calloc(1, sizeof(Group)); g->up = t->grp0; t->grp0 = g; }
void GOMP_taskgroup_end() {
  Team* t = cx().team; if (!t || !t->grp0) return; Group* g = t->grp0; TW w{t, cx().task, g};
  while (g->n) { if (Task* k = take_task(t, nullptr, g)) { int on = g_on; run_task(k); g_on = on; sync_point(); continue; } block_on(tw_ready, &w, "a task group"); }
  vc_join(cur->vc, g->vc); vc_tick(); t->grp0 = g->up;
}
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, unsigned flags, unsigned long num_tasks, int, long s, long e, long st) {
  u64 n = trip(s, e, st); if (!n) return;
  u64 nt = num_tasks ? num_tasks : (u64) team_size(); if (flags & (1 << 9)) nt = num_tasks ? (n + num_tasks - 1) / num_tasks : nt; if (nt > n) nt = n; if (nt < 1) nt = 1;
  bool nogroup = flags & (1 << 11);
  if (!nogroup) GOMP_taskgroup_start();
  char* buf = (char*) task_copy(data, nullptr, sz, al < 1 ? 1 : al);
  for (u64 i = 0; i < nt; i++) {
    u64 a = n * i / nt, b = n * (i + 1) / nt;
    ((long*) data)[0] = s + (long) a * st; ((long*) data)[1] = s + (long) b * st;
    GOMP_task(fn, data, cpy, sz, al, true, 0, nullptr, 0, nullptr);
  }
  free(nullptr); (void) buf;
  if (!nogroup) GOMP_taskgroup_end();
}
int omp_get_thread_num() { return thread_num(); }
int omp_get_num_threads() { return team_size(); }
int omp_get_max_threads() { return g_nthreads; }
void omp_set_num_threads(int n) { if (n > 0) g_nthreads = n > 32 ? 32 : n; }
int omp_get_num_procs() { return 16; }
int omp_in_parallel() { for (Team* t = cur ? cx().team : nullptr; t; t = t->up) if (t->n > 1) return 1; return 0; }
int omp_get_dynamic() { return 0; } void omp_set_dynamic(int) {} int omp_get_nested() { return g_max_levels > 1; } void omp_set_nested(int n) { g_max_levels = n ? 4 : 1; }
void omp_set_max_active_levels(int n) { g_max_levels = n; } int omp_get_max_active_levels() { return g_max_levels; }
int omp_get_level() { int l = 0; for (Team* t = cur ? cx().team : nullptr; t; t = t->up) l++; return l; }
int omp_get_active_level() { int l = 0; for (Team* t = cur ? cx().team : nullptr; t; t = t->up) l += t->n > 1; return l; }
int omp_get_ancestor_thread_num(int) { return 0; } int omp_get_team_size(int) { return team_size(); }
int omp_get_thread_limit() { return 32; } int omp_get_cancellation() { return 0; } int omp_in_final() { return 0; }
void omp_set_schedule(int k, int c) { g_run_sched_kind = k & 0xff; g_run_sched_chunk = c; }
void omp_get_schedule(int* k, int* c) { *k = g_run_sched_kind; *c = (int) g_run_sched_chunk; }
typedef struct { unsigned char x[4]; } olock;
void omp_init_lock(olock*) {} void omp_destroy_lock(olock*) {}
void omp_set_lock(olock* l) { lock_addr((uptr) l, "an OpenMP lock"); } void omp_unset_lock(olock* l) { unlock_addr((uptr) l); } int omp_test_lock(olock* l) { return trylock_addr((uptr) l); }
void omp_init_nest_lock(void*) {} void omp_destroy_nest_lock(void*) {}
void omp_set_nest_lock(void* l) { Sync* s = sync_of((uptr) l); if (s->owner == cur->slot) { s->depth++; return; } lock_addr((uptr) l, "an OpenMP nest lock"); s->depth = 1; }
void omp_unset_nest_lock(void* l) { Sync* s = sync_of((uptr) l); if (--s->depth == 0) unlock_addr((uptr) l); }
int omp_test_nest_lock(void* l) { Sync* s = sync_of((uptr) l); if (s->owner == cur->slot) return ++s->depth; if (!trylock_addr((uptr) l)) return 0; s->depth = 1; return 1; }

// ---- the harness' own concurrent readers
struct TeamCall { void (*fn)(int, void*); void* arg; };
static void team_call(void* p) { TeamCall* c = (TeamCall*) p; c->fn(cx().id, c->arg); }
void sim_team(int n, void (*fn)(int, void*), void* arg) { TeamCall c{fn, arg}; run_team(team_call, &c, n, nullptr, nullptr, g_on); }
void sim_set_threads(int n) { g_nthreads = n; }
int sim_max_threads() { return g_nthreads; }
void sim_draw_threads(int lo, int hi) { g_nthreads = lo + (int) draw(1, hi - lo + 1); }
void sim_policy(int p) { g_policy_forced = p; }
void sim_race_detect(int on) { g_race = on; }

// ---- pthreads, in case the code under test ever uses them directly
struct PStart { void* (*fn)(void*); void* arg; void* ret; Fiber* f; bool joined; };
static PStart pst[MAXT];
static void pthread_main(void* p) { PStart* s = (PStart*) p; g_on = 1; s->ret = s->fn(s->arg); vc_tick(); }
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (!cur) return EAGAIN;
  if (!g_mt) draw_policy();
  g_mt++;
  int k = -1; for (int i = 0; i < MAXT; i++) if (!pst[i].f) { k = i; break; }
  if (k < 0) return EAGAIN;
  pst[k].fn = fn; pst[k].arg = arg; pst[k].f = spawn(pthread_main, &pst[k], 1);
  *t = (pthread_t) (k + 1);
  sync_point();
  return 0;
}
int pthread_join(pthread_t t, void** ret) {
  PStart* s = &pst[(u64) t - 1];
  struct P { static bool done(void* p) { return ((PStart*) p)->f->state == 3; } };
  block_on(P::done, s, "another thread to finish"); if (ret) *ret = s->ret; reap(s->f); s->f = nullptr; g_mt--; return 0;
}
int pthread_detach(pthread_t) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (!cur) return 0; lock_addr((uptr) m, "a mutex"); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!cur) return 0; return trylock_addr((uptr) m) ? 0 : EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!cur) return 0; unlock_addr((uptr) m); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  Sync* s = sync_of((uptr) c); u64 v = s->val; struct W { Sync* s; u64 v; } w{s, v};
  struct P { static bool changed(void* p) { W* w = (W*) p; return w->s->val != w->v; } };
  unlock_addr((uptr) m); block_on(P::changed, &w, "a condition variable"); acq(s); lock_addr((uptr) m, "a mutex"); return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { if (!cur) return 0; Sync* s = sync_of((uptr) c); s->val++; rel(s); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { return pthread_cond_signal(c); }
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!cur) { if (*(int*) o == 0) { *(int*) o = 2; fn(); } return 0; }
  struct P { static bool idle(void* p) { return *(volatile int*) p != 1; } };
  block_on(P::idle, o, "a once flag");
  if (*(int*) o == 2) { if (g_mt) acq(sync_of((uptr) o)); return 0; }
  *(int*) o = 1; fn(); *(int*) o = 2; rel(sync_of((uptr) o)); return 0;
}
}
