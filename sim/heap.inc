// operator new/delete of the whole program
#define OPNEW_FAIL throw std::bad_alloc()
void* operator new(size_t n) { void* p = heap_alloc(n, 16, RA, FP); if (!p) OPNEW_FAIL; return p; }
void* operator new[](size_t n) { void* p = heap_alloc(n, 16, RA, FP); if (!p) OPNEW_FAIL; return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return heap_alloc(n, 16, RA, FP); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return heap_alloc(n, 16, RA, FP); }
void* operator new(size_t n, std::align_val_t a) { void* p = heap_alloc(n, (u64) a, RA, FP); if (!p) OPNEW_FAIL; return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = heap_alloc(n, (u64) a, RA, FP); if (!p) OPNEW_FAIL; return p; }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return heap_alloc(n, (u64) a, RA, FP); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return heap_alloc(n, (u64) a, RA, FP); }
void operator delete(void* p) noexcept { heap_free(p, RA, FP); }
void operator delete[](void* p) noexcept { heap_free(p, RA, FP); }
void operator delete(void* p, size_t) noexcept { heap_free(p, RA, FP); }
void operator delete[](void* p, size_t) noexcept { heap_free(p, RA, FP); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap_free(p, RA, FP); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap_free(p, RA, FP); }
void operator delete(void* p, std::align_val_t) noexcept { heap_free(p, RA, FP); }
void operator delete[](void* p, std::align_val_t) noexcept { heap_free(p, RA, FP); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { heap_free(p, RA, FP); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { heap_free(p, RA, FP); }

extern "C" {
long sim_alloc_count() { return alloc_n; }
void sim_alloc_fail_at(long k) { fail_at = k < 0 ? -1 : alloc_n + k; }
void sim_alloc_fail_every(int on) { fail_sticky = on; }
long sim_alloc_failed() { return failed_n; }
void sim_alloc_disarm() { fail_at = -1; fail_sticky = 0; }
long sim_leak_mark() { return alloc_seq; }
long sim_leaked_since(long token, u64* first, uptr* site) {
  long n = 0; uptr a = half[0].base;
  while (a < half[0].top) {
    Hdr* h = (Hdr*) a; u64 cap = h->cls <= 64 ? (u64) h->cls * 16 : 1ull << (h->cls - 65);
    if (h->magic == LIVE && (long) h->seq >= token) { if (!n) { if (first) *first = h->size; if (site) *site = h->site; } n++; }
    a += 32 + cap + 16;
  }
  return n;
}
void sim_heap_fill(int kind, u64 seed) { fill_kind = kind; fill_seed = seed; if (kind && g_in_child) R->faults[F_HEAP_DIRT]++; }
}
