// driver of one worker process: every run is a child forked from a pristine parent
extern "C" {
uint32_t sim_pick(uint32_t n) { return draw(0, n); }
uint32_t sim_spick(uint32_t n) { return draw(1, n); }
uint32_t sim_fpick(uint32_t n) { return draw(2, n); }
void sim_fail(const char* key, const char* fmt, ...) {
  g_on = 0; char b[5000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  violation(key, 0, nullptr, "%s", b);
}
void sim_inconclusive(const char* fmt, ...) { g_on = 0; va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap); finish(ST_INCONC); }
void sim_probe(const char* name) {
  for (int i = 0; i < R->nprobe; i++) if (!strncmp(R->probes[i].name, name, 47)) { R->probes[i].n++; return; }
  if (R->nprobe < 96) { strncpy(R->probes[R->nprobe].name, name, 47); R->probes[R->nprobe].n = 1; R->nprobe++; }
}
void sim_note(uint64_t v) { g_h = mix(g_h, v); }
void sim_desc(const char* fmt, ...) { int left = (int) sizeof R->desc - R->ndesc; if (left < 2) return; va_list ap; va_start(ap, fmt); int n = vsnprintf(R->desc + R->ndesc, left, fmt, ap); va_end(ap); if (n > 0) R->ndesc += n < left ? n : left - 1; }
int sim_set_on(int on) { int o = g_on; g_on = on; return o; }
uint64_t sim_steps() { return g_steps; }
void sim_step_limit(uint64_t n) { g_limit = g_steps + n; set_next(); }
uint64_t sim_mix(uint64_t h, uint64_t v) { return mix(h, v); }
}
namespace {
struct Scen { const char* prop; const char* name; sim_scenario_fn fn; int w; };
Scen scens[128]; int nscen = 0;
void on_terminate() {
  int was_on = g_on; g_on = 0;
  char b[1500]; const char* tn = "(none)"; int st = 0;
  const char* what = "";
  char wb[600]; wb[0] = 0;
  std::type_info* t = abi::__cxa_current_exception_type();
  char* dem = t ? abi::__cxa_demangle(t->name(), nullptr, nullptr, &st) : nullptr;
  if (t) tn = dem ? dem : t->name();
  if (t) { try { throw; } catch (std::exception& e) { snprintf(wb, sizeof wb, "%s", e.what()); what = wb; } catch (...) {} }
  snprintf(b, sizeof b, "std::terminate called%s with exception %s \"%s\"", g_mt ? " inside parallel work" : "", tn, what);
  violation(was_on ? "terminate" : "terminate-in-check", HERE, "%s", b);
}
void on_signal(int sig, siginfo_t* si, void* uc) {
  ucontext_t* u = (ucontext_t*) uc;
  int was_on = g_on; g_on = 0;
  uptr pc = u->uc_mcontext.gregs[REG_RIP]; void* fp = (void*) u->uc_mcontext.gregs[REG_RBP];
  const char* n = sig == SIGSEGV ? "segv" : sig == SIGFPE ? "fpe" : sig == SIGABRT ? "abort" : sig == SIGBUS ? "bus" : "ill";
  uptr a = (uptr) si->si_addr;
  int slot = -1; uptr sp = u->uc_mcontext.gregs[REG_RSP];
  for (int i = 0; i < MAXT; i++) if (a >= STACKS + i * STK_SZ && a < STACKS + i * STK_SZ + 4096 && sp >= a - 65536 && sp < a + 65536) slot = i;
  char key[64]; snprintf(key, sizeof key, "%s%s", slot >= 0 ? "stack-overflow" : n, was_on ? "" : "-in-check");
  violation(key, pc, fp, "%s at address %p", slot >= 0 ? "stack overflow" : n, (void*) a);
}
int cur_scen = 0;
void run_entry(void*) { scens[cur_scen].fn(); }
void child_run(int sc, u64 seed) {
  g_in_child = true;
  for (int k = 0; k < 3; k++) { srng[k].s = mix(mix(0x51e5 + k, seed), seed ^ (k * 0x1234567ull)); nrec[k] = 0; }
  cur_scen = sc;
  sim_io_reset();
  Fiber* f = spawn(run_entry, nullptr, 0);
  cur = f; g_next = g_limit;
  if (tls_size) { f->tls_init = true; }
  R->maxthreads = 1;
  sim_switch(&base_sp, f->sp);
  g_on = 0;
  finish(ST_OK);
}
int phdr_cb(struct dl_phdr_info* i, size_t, void*) {
  if (i->dlpi_name && i->dlpi_name[0]) return 0;
  data_lo = ~0ull; data_hi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr)& p = i->dlpi_phdr[k];
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { uptr a = i->dlpi_addr + p.p_vaddr; if (a < data_lo) data_lo = a; if (a + p.p_memsz > data_hi) data_hi = a + p.p_memsz; }
    if (p.p_type == PT_TLS && i->dlpi_tls_data) { tls_base = (u8*) i->dlpi_tls_data; tls_size = p.p_memsz; tls_template = (u8*) calloc(1, p.p_memsz + 1); memcpy(tls_template, (void*) (i->dlpi_addr + p.p_vaddr), p.p_filesz); }
  }
  return 1;
}
void map_fixed(uptr a, u64 n) { void* p = mmap((void*) a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void*) a) { fprintf(stderr, "simrt: cannot map %p: %s\n", (void*) a, strerror(errno)); _exit(97); } }
double now_s() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }
void jstr(FILE* o, const char* s) { fputc('"', o); for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(o, "\\%c", c); else if (c < 32 || c > 126) fprintf(o, "\\u%04x", c); else fputc(c, o); } fputc('"', o); }
void emit(FILE* o, bool full, double wall) {
  static const char* sn[] = {"none", "ok", "violation", "inconclusive", "timeout", "died"};
  fprintf(o, "{\"seed\":%llu,\"scen\":\"%s\",\"st\":\"%s\",\"hash\":\"%016llx\",\"ih\":\"%016llx\",\"wh\":\"%016llx\",\"steps\":%llu,\"mt\":%llu,\"sw\":%u,\"teams\":%u,\"tasks\":%u,\"bar\":%u,\"live\":%u,\"thr\":%u,\"simns\":%llu,\"wall\":%.4f,\"ns\":[%u,%u,%u]",
    (unsigned long long) R->seed, scens[R->scenario].name, sn[R->status], (unsigned long long) R->hash, (unsigned long long) R->ihash, (unsigned long long) R->whash, (unsigned long long) R->steps, (unsigned long long) R->steps_mt,
    R->switches, R->teams, R->tasks, R->barriers, R->maxlive, R->maxthreads, (unsigned long long) R->simns, wall, R->nstream[0], R->nstream[1], R->nstream[2]);
  fprintf(o, ",\"f\":{"); bool first = true;
  for (int i = 0; i < F_N; i++) if (R->faults[i]) { fprintf(o, "%s\"%s\":%u", first ? "" : ",", fault_names[i], R->faults[i]); first = false; }
  fprintf(o, "},\"p\":{");
  for (int i = 0; i < R->nprobe; i++) { if (i) fputc(',', o); jstr(o, R->probes[i].name); fprintf(o, ":%u", R->probes[i].n); }
  fprintf(o, "}");
  if (full || R->status != ST_OK) {
    fprintf(o, ",\"key\":"); jstr(o, R->key); fprintf(o, ",\"msg\":"); jstr(o, R->msg); fprintf(o, ",\"desc\":"); jstr(o, R->desc);
    fprintf(o, ",\"bt\":["); for (int i = 0; i < R->nbt; i++) fprintf(o, "%s\"0x%lx\"", i ? "," : "", (unsigned long) R->bt[i]); fprintf(o, "],\"bt2\":\"0x%lx\"", (unsigned long) R->bt2);
  }
  fprintf(o, "}\n"); fflush(o);
}
}
extern "C" void sim_register(const char* p, const char* n, sim_scenario_fn f, int w) { if (nscen < 128) scens[nscen++] = Scen{p, n, f, w}; }
extern "C" void sim_warmup();

int main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE); if (!getenv("SIM_REEXEC")) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
  // a fixed environment: nothing of the caller's environment reaches a run
  clearenv();
  const char* prop = ""; const char* only = nullptr; u64 from = 0, count = 1, stride = 1; const char* streams = nullptr; const char* dump = nullptr; double deadline = 0; bool full = false, list = false; double tmo = 120; long mem_mb = 3000;
  for (int i = 1; i < argc; i++) {
    auto is = [&](const char* n) { return !strcmp(argv[i], n) && i + 1 < argc; };
    if (is("--prop")) prop = argv[++i]; else if (is("--scenario")) only = argv[++i]; else if (is("--from")) from = strtoull(argv[++i], 0, 10);
    else if (is("--count")) count = strtoull(argv[++i], 0, 10); else if (is("--stride")) stride = strtoull(argv[++i], 0, 10); else if (is("--streams")) streams = argv[++i]; else if (is("--dump")) dump = argv[++i];
    else if (is("--deadline")) deadline = atof(argv[++i]); else if (is("--timeout")) tmo = atof(argv[++i]); else if (!strcmp(argv[i], "--full")) full = true; else if (!strcmp(argv[i], "--list")) list = true;
  }
  (void) mem_mb;
  if (list) { for (int i = 0; i < nscen; i++) printf("%s %s %d\n", scens[i].prop, scens[i].name, scens[i].w); return 0; }
  extern char __libc_single_threaded; __libc_single_threaded = 0;
  R = (Result*) mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int k = 0; k < 3; k++) strm[k] = (u32*) mmap(nullptr, CAP[k] * 4ull, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  map_fixed(STACKS, STACKS_SZ);
  for (int i = 0; i <= MAXT; i++) mprotect((void*) (STACKS + i * STK_SZ), 4096, PROT_NONE);
  syncs = (Sync*) mmap(nullptr, sizeof(Sync) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  files = (SFile*) calloc(NFILE, sizeof(SFile));
  dl_iterate_phdr(phdr_cb, nullptr);
  map_fixed(RSHADOW, ((ARENA_SZ + STACKS_SZ + (data_hi - data_lo) + 4096) >> 3) * 64);
  for (int i = 0; i < MAXT; i++) { fib[i].slot = i; fib[i].tls = (u8*) calloc(1, tls_size + 16); }
  std::set_terminate(on_terminate);
  static char alt[65536]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  nullbuf = new NullBuf; capbuf = new CapBuf;
  sim_warmup();
  std::cout.rdbuf(nullbuf); std::cerr.rdbuf(capbuf); std::clog.rdbuf(nullbuf);
  u32* rep[3] = {0, 0, 0}; u32 nrep[3] = {0, 0, 0}; char rscen[128] = ""; u64 rseed = 0;
  if (streams) {
    FILE* f = fopen(streams, "r"); if (!f) { fprintf(stderr, "cannot open %s\n", streams); return 2; }
    if (fscanf(f, "%127s %lu", rscen, (unsigned long*) &rseed) != 2) return 2;
    for (int k = 0; k < 3; k++) { unsigned n; if (fscanf(f, "%u", &n) != 1) return 2; rep[k] = (u32*) malloc(4ull * n + 4); for (unsigned i = 0; i < n; i++) if (fscanf(f, "%u", &rep[k][i]) != 1) return 2; nrep[k] = n; }
    fclose(f); only = rscen; count = 1; from = rseed;
  }
  int idx[128], nidx = 0;
  for (int i = 0; i < nscen; i++) if ((!prop[0] || !strcmp(prop, scens[i].prop)) && (!only || !strcmp(only, scens[i].name))) for (int w = 0; w < (only ? 1 : scens[i].w); w++) if (nidx < 128) idx[nidx++] = i;
  if (!nidx) { fprintf(stderr, "no scenario\n"); return 2; }
  double t_end = deadline > 0 ? now_s() + deadline : 1e300;
  sigset_t chld; sigemptyset(&chld); sigaddset(&chld, SIGCHLD); sigprocmask(SIG_BLOCK, &chld, nullptr);
  for (u64 i = 0; i < count && now_s() < t_end; i++) {
    u64 seed = from + i * stride;
    int sc = idx[nidx == 1 ? 0 : mix(0xabcdef, seed) % nidx];
    raw_set(R, 0, sizeof(Result)); R->seed = seed; R->scenario = sc;
    double t0 = now_s();
    pid_t pid = fork();
    if (pid == 0) {
      replaying = streams != nullptr; for (int k = 0; k < 3; k++) { replay[k] = rep[k]; nreplay[k] = nrep[k]; }
      int dn = (int) syscall(SYS_open, "/dev/null", O_WRONLY); if (dn >= 0) syscall(SYS_dup2, dn, 1);
      child_run(sc, seed);
    }
    int st = 0;
    for (;;) {
      pid_t w = waitpid(pid, &st, WNOHANG); if (w == pid) break;
      double left = tmo - (now_s() - t0);
      if (left <= 0) { kill(pid, SIGKILL); waitpid(pid, &st, 0); R->status = ST_TIMEOUT; break; }
      struct timespec ts; ts.tv_sec = (time_t) (left > 1 ? 1 : 0); ts.tv_nsec = left > 1 ? 0 : 10000000; sigtimedwait(&chld, nullptr, &ts);
    }
    if (R->status == ST_NONE) { R->status = ST_DIED; snprintf(R->msg, sizeof R->msg, "child ended with wait status 0x%x", st); }
    emit(stdout, full, now_s() - t0);
    if (dump) {
      FILE* f = fopen(dump, "w"); fprintf(f, "%s %llu\n", scens[sc].name, (unsigned long long) seed);
      for (int k = 0; k < 3; k++) { fprintf(f, "%u\n", R->nstream[k]); for (u32 j = 0; j < R->nstream[k]; j++) fprintf(f, "%u ", strm[k][j]); fprintf(f, "\n"); }
      fclose(f);
    }
  }
  return 0;
}
