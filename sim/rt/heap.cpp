// Simulated allocator and the instrumentation callbacks.
#include <execinfo.h>
#include "internal.h"
#include <cstring>
#include <cstdio>
#include <cerrno>
#include <sys/mman.h>
#include <unistd.h>
#include <new>
#include <cstdlib>
namespace sim {
static char* const A_BASE = (char*)0x100000000000ull;
static const size_t A_SIZE = 24ull << 30;
static uint8_t* const S_BASE = (uint8_t*)0x110000000000ull;     // 1 shadow byte per 8 bytes
static char* a_top; static char* a_hi;
static bool h_on = false, h_armed = false;
static long h_armed_count = 0;
static long g_live_bytes = 0, g_live_blocks = 0;
long heap_live_bytes() { return g_live_bytes; }
long heap_live_blocks() { return g_live_blocks; }
static const size_t MAX_ONE = 1ull << 30;
struct Hdr { uint32_t magic; uint32_t off; uint64_t size; };
enum { M_LIVE = 0x5afe11fe, M_DEAD = 0xdeadf4ee };
struct FreeNode { FreeNode* next; };
static FreeNode* freelist[4097];
struct QEnt { char* blk; uint32_t cls; };
static const int QN = 1 << 15;
static QEnt* q; static int qh, qt; static size_t qbytes;
static Rng grng(1);
static uint64_t gword() {
  double d; uint64_t u;
  switch (g_opt.garbage) {
    case 0: return 0;
    case 1: return 0xbebebebebebebebeull;
    case 2: d = grng.uni(); memcpy(&u, &d, 8); return u;
    case 3: return grng.next();
    case 4: return 0x7ff8000000000000ull | (grng.next() & 0xffff);
    case 5: return (grng.next() & 7) | ((grng.next() & 7) << 32);
    default: d = 1e30 * (grng.uni() - 0.5); memcpy(&u, &d, 8); return u;
  }
}
static void garbage(void* p, size_t n) {
  if (g_opt.garbage == 0) { memset(p, 0, n); return; }
  uint64_t pat[64]; size_t i = 0; char* c = (char*)p;
  if (n <= 512) { while (i < n) { uint64_t w = gword(); size_t k = n - i < 8 ? n - i : 8; memcpy(c + i, &w, k); i += k; } return; }
  for (auto& w : pat) w = gword();
  while (i < n) { size_t k = n - i < 512 ? n - i : 512; memcpy(c + i, pat, k); i += k; }
}
void stack_scrub() {
  volatile char* p = (volatile char*)__builtin_alloca(192 * 1024);
  garbage((void*)p, 192 * 1024);
  asm volatile("" ::"r"(p) : "memory");
}
static inline uint8_t* shp(const void* p) { return S_BASE + (((uintptr_t)p - (uintptr_t)A_BASE) >> 3); }
static void heap_init() {
  static bool done = false; if (done) return; done = true;
  void* a = mmap(A_BASE, A_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* s = mmap(S_BASE, A_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  q = (QEnt*)mmap(0, QN * sizeof(QEnt), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (a != A_BASE || s != (void*)S_BASE || q == MAP_FAILED) { fprintf(stderr, "heap mmap failed\n"); _exit(99); }
  madvise(A_BASE, A_SIZE, MADV_NOHUGEPAGE); madvise(S_BASE, A_SIZE / 8, MADV_NOHUGEPAGE);
  a_top = A_BASE + 64;
}
struct HeapInit { HeapInit() { heap_init(); } };
static HeapInit hi_ __attribute__((init_priority(101)));
void heap_on(const LifeOpt& o) { heap_init(); grng = Rng(o.garbage_seed ^ 0x6ab); h_on = true; h_armed = false; h_armed_count = 0; }
void heap_off_for_exit() { h_armed = false; }
void alloc_arm(bool on) { h_armed = on; }
bool g_bt = getenv("SIM_BT") != nullptr;   // debugging aid: where the injected failure hits
bool alloc_armed() { return h_armed; }
static inline bool mine(const void* p) { return (uintptr_t)p - (uintptr_t)A_BASE < A_SIZE; }
static void poison(char* p, size_t n, uint8_t v) { memset(shp(p), v, n >> 3); }
// Eigen's resize frees the old block and only then allocates, and leaves a dangling pointer behind when that
// fails. It is not part of the code under test: a plain malloc right after a free does not fail (the failure
// is passed on to the next allocation). Allocations by operator new always may fail.
static bool g_after_free = false, h_from_new = false;
// debugging aid: what was allocated since heap_trace_begin() and is still held
struct Trc { void* p; void* f[24]; int k; }; static Trc* trc; static int ntrc = -1; static bool in_trc = false;
static void trace_add(void* p) { if (ntrc < 0 || ntrc >= 100000 || in_trc) return; in_trc = true; trc[ntrc].p = p; trc[ntrc].k = backtrace(trc[ntrc].f, 24); ntrc++; in_trc = false; }
static void trace_del(void* p) { for (int i = ntrc - 1; i >= 0; --i) if (trc[i].p == p) { trc[i].p = nullptr; return; } }
void heap_trace_begin() { if (!g_bt) return; if (!trc) trc = (Trc*)mmap(0, 100000 * sizeof(Trc), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ntrc = 0; }
void heap_trace_end() { if (ntrc < 0) return; int n = ntrc; ntrc = -1; for (int i = 0; i < n; ++i) if (trc[i].p) { dprintf(2, "-- held: %zu bytes\n", (size_t)((Hdr*)((char*)trc[i].p - 16))->size); backtrace_symbols_fd(trc[i].f, trc[i].k, 2); } }
static void* h_alloc(size_t size, size_t align, bool zero, bool countit) {
  bool after_free = g_after_free, from_new = h_from_new; g_after_free = h_from_new = false;
  if (countit) {
    g_allocs++;
    if (h_armed) {
      long i = h_armed_count++;
      if (after_free && countit && !from_new && g_opt.alloc_fail_at >= 0 && i == g_opt.alloc_fail_at) g_opt.alloc_fail_at++;   // see h_from_new
      else if (g_opt.alloc_fail_at >= 0 && (i == g_opt.alloc_fail_at || (g_opt.alloc_fail_sticky && i >= g_opt.alloc_fail_at && (from_new || !after_free)))) {
        sh->t_allocfail++; sh->fired++; if (g_bt && i == g_opt.alloc_fail_at) { h_armed = false; void* f[40]; int k = backtrace(f, 40); backtrace_symbols_fd(f, k, 2); h_armed = true; } if (i == g_opt.alloc_fail_at) ev(0xa110c + i); errno = ENOMEM; return nullptr;
      }
    }
  }
  if (size > MAX_ONE) { errno = ENOMEM; return nullptr; }
  size_t rsz = (size + 15) & ~(size_t)15; if (!rsz) rsz = 16;
  size_t need = 32 + rsz + 16 + (align > 16 ? align : 0);
  uint32_t cls = need / 16; char* blk = nullptr;
  if (cls <= 4096 && freelist[cls]) { blk = (char*)freelist[cls]; freelist[cls] = freelist[cls]->next; }
  else {
    if (cls > 4096) need = (need + 4095) & ~(size_t)4095;
    blk = a_top; a_top += need;
    if (a_top > A_BASE + A_SIZE - 4096) life_abort(L_HARNESS, "simulated heap exhausted");
    if (need > (64 << 20)) {}
  }
  char* u = blk + 32;
  if (align > 16) u = (char*)(((uintptr_t)u + align - 1) & ~(uintptr_t)(align - 1));
  Hdr* h = (Hdr*)(u - 16); h->magic = M_LIVE; h->off = u - blk; h->size = size; g_live_bytes += (long)size; g_live_blocks++; if (ntrc >= 0) trace_add(u);
  poison(blk, u - blk, 0xfa);
  memset(shp(u), 0, size >> 3);
  char* e = u + (size & ~(size_t)7);
  char* end = u + rsz + 16;
  if (size & 7) { *shp(e) = size & 7; e += 8; }
  if (end > e) poison(e, end - e, 0xfa);
  if (zero) memset(u, 0, size); else garbage(u, size);
  if (mt_active) mt_shadow_reset(u, size);
  return u;
}
static void h_free(void* p, void* pc) {
  if (!p) return;
  Hdr* h = (Hdr*)((char*)p - 16);
  if (((uintptr_t)p & 15) || h->magic != M_LIVE) {
    life_abort(L_MEMERR, h->magic == M_DEAD ? "double free" : "free of a pointer that was not allocated");
  }
  h->magic = M_DEAD; g_live_bytes -= (long)h->size; g_live_blocks--; if (ntrc >= 0) trace_del(p);
  size_t size = h->size, rsz = (size + 15) & ~(size_t)15; if (!rsz) rsz = 16;
  poison((char*)p, rsz, 0xfd);
  if (mt_active) mt_shadow_reset(p, size);
  char* blk = (char*)p - h->off; size_t need = h->off + rsz + 16;
  // For over-aligned blocks the tail slack is lost when the offset is smaller than the maximum.
  if (rsz > 256 * 1024) {
    char* a = (char*)(((uintptr_t)p + 4095) & ~4095ull); char* b = (char*)(((uintptr_t)p + rsz) & ~4095ull);
    if (b > a) madvise(a, b - a, MADV_DONTNEED);
    return;
  }
  memset(p, 0xdd, size > 256 ? 256 : size);
  uint32_t cls = need / 16;
  if (cls > 4096 || h->off != 32) return;
  q[qh].blk = blk; q[qh].cls = cls; qh = (qh + 1) % QN; qbytes += need;
  while (qh == qt || qbytes > (8 << 20) || (qh + 1) % QN == qt) {
    QEnt e = q[qt]; qt = (qt + 1) % QN; qbytes -= (size_t)e.cls * 16;
    FreeNode* f = (FreeNode*)e.blk; f->next = freelist[e.cls]; freelist[e.cls] = f;
    if (qh == qt) break;
  }
}
bool heap_check(const void* p, size_t n) {
  if (!mine(p)) return true;
  uintptr_t a = (uintptr_t)p, e = a + n;
  if ((char*)e > a_top) return false;
  for (uintptr_t g = a & ~7ull; g < e; g += 8) {
    uint8_t s = *shp((void*)g); if (!s) continue;
    if (s >= 8) return false;
    uintptr_t last = e < g + 8 ? e : g + 8;
    if (last - g > s) return false;
  }
  return true;
}
void check_range(const void* p, size_t n, bool w) {
  if (!h_on || !n) return;
  if (!heap_check(p, n)) bad_access(p, n, w, __builtin_return_address(0));
}
void* heap_alloc_raw(size_t n) { return h_alloc(n, 16, false, false); }
}  // namespace sim
using namespace sim;

static void* dlsym_new() { void* (*f)(size_t) = &::operator new; return (void*)f; }
SIM_EXPORT void* malloc(size_t n) { { static const uintptr_t nw = (uintptr_t)dlsym_new(); sim::h_from_new = (uintptr_t)__builtin_return_address(0) - nw < 96; } return h_on ? h_alloc(n, 16, false, true) : __libc_malloc(n); }
SIM_EXPORT void* sim_third_party_malloc(size_t n) { return h_on ? h_alloc(n, 16, false, false) : __libc_malloc(n); }
SIM_EXPORT void free(void* p) { if (!p) return; sim::g_after_free = true; if (sim::mine(p)) { int e = errno; h_free(p, __builtin_return_address(0)); errno = e; } else if (!h_on) __libc_free(p); /* blocks from before the life are simply dropped */ }
SIM_EXPORT void* calloc(size_t a, size_t b) {
  if (!h_on) return __libc_calloc(a, b);
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return h_alloc(n, 16, true, true);
}
SIM_EXPORT size_t malloc_usable_size(void* p) { if (!p) return 0; if (sim::mine(p)) return ((Hdr*)((char*)p - 16))->size; return ((size_t*)p)[-1] & ~7ull; }
SIM_EXPORT void* realloc(void* p, size_t n) {
  if (!h_on) return sim::mine(p) ? nullptr : __libc_realloc(p, n);
  if (!p) return h_alloc(n, 16, false, true);
  size_t old = sim::mine(p) ? ((Hdr*)((char*)p - 16))->size : (((size_t*)p)[-1] & ~7ull) - 8;
  if (sim::mine(p) && ((Hdr*)((char*)p - 16))->magic != M_LIVE) life_abort(L_MEMERR, "realloc of a pointer that is not allocated");
  void* r = h_alloc(n, 16, false, true); if (!r) return r;
  memcpy(r, p, old < n ? old : n); free(p); return r;
}
SIM_EXPORT void* memalign(size_t al, size_t n) { return h_on ? h_alloc(n, al, false, true) : __libc_memalign(al, n); }
SIM_EXPORT void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
SIM_EXPORT int posix_memalign(void** o, size_t al, size_t n) { void* r = memalign(al, n); if (!r) return ENOMEM; *o = r; return 0; }
SIM_EXPORT void* valloc(size_t n) { return memalign(4096, n); }

// ------------------------------------------------------------------ instrumentation callbacks
long sim::g_steps = 0; long sim::g_budget = 1L << 62; long sim::g_allocs = 0;
long sim::alloc_count() { return sim::g_allocs; }
SIM_EXPORT void __sanitizer_cov_trace_pc() {
  if (__builtin_expect(++g_steps > g_budget, 0)) { if (g_life) life_abort(L_HANG, "step budget of %ld exceeded", g_budget); else g_budget = 1L << 62; }
}
static inline __attribute__((always_inline)) void acc(void* p, unsigned n, bool w, void* pc) {
  if (__builtin_expect(sim::mine(p) && h_on, 1)) {
    uint8_t s = *shp(p);
    if (__builtin_expect(s != 0 || (((uintptr_t)p & 7) + n > 8) || (char*)p + n > a_top, 0)) { if (!heap_check(p, n)) bad_access(p, n, w, pc); }
  }
  if (__builtin_expect(mt_active, 0)) mt_access(p, n, w, false, pc);
}
#define PC __builtin_return_address(0)
#define RW(N) \
  SIM_EXPORT void __tsan_read##N(void* p) { acc(p, N, false, PC); } \
  SIM_EXPORT void __tsan_write##N(void* p) { acc(p, N, true, PC); } \
  SIM_EXPORT void __tsan_unaligned_read##N(void* p) { acc(p, N, false, PC); } \
  SIM_EXPORT void __tsan_unaligned_write##N(void* p) { acc(p, N, true, PC); } \
  SIM_EXPORT void __tsan_volatile_read##N(void* p) { acc(p, N, false, PC); } \
  SIM_EXPORT void __tsan_volatile_write##N(void* p) { acc(p, N, true, PC); } \
  SIM_EXPORT void __tsan_read##N##_pc(void* p, void*) { acc(p, N, false, PC); } \
  SIM_EXPORT void __tsan_write##N##_pc(void* p, void*) { acc(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
SIM_EXPORT void __tsan_read_range(void* p, size_t n) {
  if (!n) return; if (h_on && !heap_check(p, n)) bad_access(p, n, false, PC);
  if (mt_active) for (size_t i = 0; i < n; i += 8) mt_access((char*)p + i, n - i < 8 ? n - i : 8, false, false, PC);
}
SIM_EXPORT void __tsan_write_range(void* p, size_t n) {
  if (!n) return; if (h_on && !heap_check(p, n)) bad_access(p, n, true, PC);
  if (mt_active) for (size_t i = 0; i < n; i += 8) mt_access((char*)p + i, n - i < 8 ? n - i : 8, true, false, PC);
}
SIM_EXPORT void __tsan_vptr_update(void** p, void* v) { if (h_on && !heap_check(p, 8)) bad_access(p, 8, true, PC); if (mt_active && *p != v) mt_access(p, 8, true, false, PC); }
SIM_EXPORT void __tsan_vptr_read(void** p) { acc(p, 8, false, PC); }
SIM_EXPORT void __tsan_init() {}
SIM_EXPORT void __tsan_func_entry(void*) {}
SIM_EXPORT void __tsan_func_exit() {}
// memory functions referenced from instrumented objects are redirected here by -Wl,--wrap
static inline void rng(const void* p, size_t n, bool w, void* pc) {
  if (!n || !h_on) return;
  if (!heap_check(p, n)) bad_access(p, n, w, pc);
  if (mt_active) { uintptr_t a = (uintptr_t)p, e = a + n; while (a < e) { unsigned k = 8 - (a & 7); if (k > e - a) k = e - a; mt_access((void*)a, k, w, false, pc); a += k; } }
}
SIM_EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) { rng(s, n, false, PC); rng(d, n, true, PC); return memmove(d, s, n); }
SIM_EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) { rng(s, n, false, PC); rng(d, n, true, PC); return memmove(d, s, n); }
SIM_EXPORT void* __wrap_memset(void* d, int c, size_t n) { rng(d, n, true, PC); return memset(d, c, n); }
