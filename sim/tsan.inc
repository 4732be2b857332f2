// callbacks the compiler inserts at every memory access of the code under test
extern "C" {
#define RA (uptr) __builtin_return_address(0)
#define FP __builtin_frame_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* p) { access((uptr) p, n, 0, RA, FP); } \
  void __tsan_write##n(void* p) { access((uptr) p, n, 1, RA, FP); } \
  void __tsan_unaligned_read##n(void* p) { access((uptr) p, n, 0, RA, FP); } \
  void __tsan_unaligned_write##n(void* p) { access((uptr) p, n, 1, RA, FP); } \
  void __tsan_volatile_read##n(void* p) { access((uptr) p, n, 0, RA, FP); } \
  void __tsan_volatile_write##n(void* p) { access((uptr) p, n, 1, RA, FP); } \
  void __tsan_read_write##n(void* p) { access((uptr) p, n, 1, RA, FP); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access_range((uptr) p, n, 0, RA, FP); }
void __tsan_write_range(void* p, unsigned long n) { access_range((uptr) p, n, 1, RA, FP); }
void __tsan_vptr_update(void** p, void* nv) { if (*p != nv) access((uptr) p, 8, 1, RA, FP); else access((uptr) p, 8, 0, RA, FP); }
void __tsan_vptr_read(void** p) { access((uptr) p, 8, 0, RA, FP); }

// libc block operations called from instrumented code (renamed by objcopy)
void* simlib_memcpy(void* d, const void* s, size_t n) { access_range((uptr) s, n, 0, RA, FP); access_range((uptr) d, n, 1, RA, FP); return memcpy(d, s, n); }
void* simlib_memmove(void* d, const void* s, size_t n) { access_range((uptr) s, n, 0, RA, FP); access_range((uptr) d, n, 1, RA, FP); return memmove(d, s, n); }
void* simlib_memset(void* d, int c, size_t n) { access_range((uptr) d, n, 1, RA, FP); return memset(d, c, n); }
int simlib_memcmp(const void* a, const void* b, size_t n) { access_range((uptr) a, n, 0, RA, FP); access_range((uptr) b, n, 0, RA, FP); return memcmp(a, b, n); }
}
namespace {
// ---- synchronisation objects by address
struct Sync { uptr a; u32 vc[MAXT]; int owner; int depth; u32 waiters; u64 val; };
const int NSYNC = 4096;
Sync* syncs; // NSYNC entries, allocated before fork
Sync* sync_of(uptr a) {
  u32 i = (u32)((a >> 2) * 0x9E3779B1u) % NSYNC;
  for (int k = 0; k < NSYNC; k++, i = (i + 1) % NSYNC) {
    if (syncs[i].a == a) return &syncs[i];
    if (!syncs[i].a) { syncs[i].a = a; syncs[i].owner = -1; return &syncs[i]; }
  }
  finish(ST_INCONC);
}
inline void acq(Sync* s) { vc_join(cur->vc, s->vc); }
inline void rel(Sync* s) { vc_join(s->vc, cur->vc); vc_tick(); }
void atomic_pre(uptr a, unsigned sz, int fl, int mo, bool load, bool store, uptr pc, void* fp) {
  if (!g_on || !cur) return;
  if (nlive > 1) sync_point();
  access(a, sz, fl | 2, pc, fp);
  if (!g_mt) return;
  bool A = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  bool Rl = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  Sync* s = sync_of(a);
  if (load && A) acq(s);
  if (store && Rl) rel(s);
}
}
extern "C" {
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) { atomic_pre((uptr) p, bits / 8, 0, mo, true, false, RA, FP); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { atomic_pre((uptr) p, bits / 8, 1, mo, false, true, RA, FP); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { atomic_pre((uptr) p, bits / 8, 1, mo, true, true, RA, FP); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { atomic_pre((uptr) p, bits / 8, 1, mo, true, true, RA, FP); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { atomic_pre((uptr) p, bits / 8, 1, mo, true, true, RA, FP); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { atomic_pre((uptr) p, bits / 8, 1, mo, true, true, RA, FP); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { atomic_pre((uptr) p, bits / 8, 1, mo, true, true, RA, FP); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { atomic_pre((uptr) p, bits / 8, 1, mo, true, true, RA, FP); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { atomic_pre((uptr) p, bits / 8, 1, mo, true, true, RA, FP); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { atomic_pre((uptr) p, bits / 8, 1, mo, true, true, RA, FP); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { atomic_pre((uptr) p, bits / 8, 1, mo, true, true, RA, FP); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { atomic_pre((uptr) p, bits / 8, 1, mo, true, true, RA, FP); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- function-local statics
int __cxa_guard_acquire(u64* g) {
  if (*(volatile u8*) g) { if (g_mt && cur) acq(sync_of((uptr) g)); return 0; }
  if (!cur) { if (((u8*) g)[1]) return 0; ((u8*) g)[1] = 1; return 1; }
  struct P { static bool free_(void* p) { return ((volatile u8*) p)[1] == 0; } };
  block_on(P::free_, g, "static initialisation");
  if (*(volatile u8*) g) { if (g_mt) acq(sync_of((uptr) g)); return 0; }
  ((u8*) g)[1] = 1; return 1;
}
void __cxa_guard_release(u64* g) { ((u8*) g)[1] = 0; *(u8*) g = 1; if (cur) rel(sync_of((uptr) g)); }
void __cxa_guard_abort(u64* g) { ((u8*) g)[1] = 0; }
}
