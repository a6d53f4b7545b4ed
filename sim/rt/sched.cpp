// Seeded cooperative scheduler, OpenMP runtime, synchronisation seams, race detector.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.h"
#include <cstring>
#include <cstdio>
#include <cerrno>
#include <climits>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <time.h>

namespace sim {
enum { MAXT = 16 };
enum TState { T_FREE, T_IDLE, T_RUN, T_BLOCK, T_DONE };
struct VC { uint32_t c[MAXT]; };
static inline void vc_join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
struct WS { bool init; long next, end, incr, chunk; bool up; unsigned long unext, uend; int single; int sect, nsect; void* copy; };
struct Team { int n; void (*fn)(void*); void* data; WS ws[64]; int bar_count, bar_gen; VC bar_vc; int running; Team* parent; int ws_used; };
struct Thr {
  int state; int fut; VC vc; pthread_t pt; bool has_pt;
  std::function<void()>* job; 
  Team* team; int tnum; int wsidx; int level;
  const void* wait_on; int join_target; uint32_t prio; char* stk_lo; char* stk_hi;
};
static Thr T[MAXT];
static int cur = 0; static __thread int self = 0;
bool mt_active = false;
static int n_live = 0;           // threads that take part now
static long points = 0, countdown = 1;
static Rng srng(1);
static int stall_thr = -1; static long stall_until = 0;
static int rr = 0;
std::map<int, SwPlan> g_swplan;
static SwPlan* plan = nullptr;
static int omp_n = 1;
static int lifeno = 0;

static void fwait(int* f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
static void fwake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void new_countdown() {
  if (g_opt.sched.policy == 1) { countdown = 1L << g_opt.sched.mean_log2; return; }
  double u = srng.uni(); double m = (double)(1L << g_opt.sched.mean_log2);
  long c = (long)(-m * __builtin_log(1 - u)); countdown = c < 1 ? 1 : c;
}
static int runnable(int* out) { int n = 0; for (int i = 0; i < MAXT; ++i) if (T[i].state == T_RUN) out[n++] = i; return n; }
static int choose(bool voluntary) {     // pick the next thread among the runnable ones
  int r[MAXT]; int n = runnable(r);
  if (n == 0) return -1;
  if (plan) {
    auto it = plan->at.find(points);
    if (it != plan->at.end() && T[it->second].state == T_RUN) return it->second;
    if (T[cur].state == T_RUN && !voluntary) return cur;
    return r[0];
  }
  if (n == 1) return r[0];
  switch (g_opt.sched.policy) {
    case 1: { for (int k = 1; k <= MAXT; ++k) { int t = (rr + k) % MAXT; if (T[t].state == T_RUN) { rr = t; return t; } } return r[0]; }
    case 2: case 3: {
      if (points < stall_until) { int m = 0, q[MAXT]; for (int i = 0; i < n; ++i) if (r[i] != stall_thr) q[m++] = r[i]; if (m) return q[srng.below(m)]; }
      else if (g_opt.sched.policy == 2 && srng.chance(0.02)) { stall_thr = r[srng.below(n)]; stall_until = points + 1 + srng.below(64L << g_opt.sched.mean_log2); }
      return r[srng.below(n)]; }
    case 4: { // priorities, changed at random points
      int b = r[0]; for (int i = 1; i < n; ++i) if (T[r[i]].prio > T[b].prio) b = r[i];
      if (srng.chance(0.25)) T[b].prio = srng.below(1000);
      return b; }
  }
  return r[srng.below(n)];
}
static void switch_to(int t) {
  if (t == cur) return;
  int me = self;
  sh->switches++; sh->t_switches++;
  if (sh->nsw < MAXSW) { SwitchRec& s = sh->sw[sh->nsw++]; s.life = lifeno; s.thr = t; s.point = points; }
  ev(0x5c00 + t); ev(points);
  cur = t; fwake(&T[t].fut); fwait(&T[me].fut);
}
static void deadlock() { life_abort(L_DEADLOCK, "no thread can run"); }
static void block(const void* on) {       // current thread waits until somebody makes it runnable
  points++;
  T[cur].state = T_BLOCK; T[cur].wait_on = on;
  int t = choose(true); if (t < 0) deadlock();
  switch_to(t);
}
static void wake_all(const void* on) { for (int i = 0; i < MAXT; ++i) if (T[i].state == T_BLOCK && T[i].wait_on == on) T[i].state = T_RUN; }
void mt_point() {
  if (!mt_active || self != cur) return;
  points++;
  int t;
  if (plan) t = choose(false); else { if (--countdown > 0 && srng.below(4)) return; new_countdown(); t = choose(true); }
  if (t >= 0) switch_to(t);
}
static inline void maybe_preempt() {
  points++;
  if (plan) { if (plan->at.count(points)) { int t = choose(false); if (t >= 0) switch_to(t); } return; }
  if (--countdown > 0) return;
  new_countdown(); int t = choose(true); if (t >= 0) switch_to(t);
}

// ------------------------------------------------------------------ race detector (4 cells per 8 bytes)
struct Cell { uint32_t clk; uint8_t tid, mask, flags, pad; void* pc; };   // flags: 1 write, 2 atomic, 4 used
struct Chunk { uintptr_t key; Cell* cells; Chunk* next; };
enum { HB = 1 << 14 };
static Chunk* htab[HB];
static char* chunk_pool; static size_t chunk_left;
static struct { uintptr_t key; Cell* cells; } ccache[64];
static void* raw(size_t n) { if (chunk_left < n) { size_t k = 64 << 20; chunk_pool = (char*)mmap(0, k, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); chunk_left = k; } void* p = chunk_pool; chunk_pool += n; chunk_left -= n; return p; }
static Cell* cells_of(uintptr_t a, bool mk) {     // a: granule address; chunk covers 4 KiB = 512 granules
  uintptr_t k = a >> 12; auto& c = ccache[k & 63];
  if (c.key == k && c.cells) return c.cells + ((a >> 3) & 511) * 4;
  Chunk** h = &htab[(k * 0x9e3779b97f4a7c15ull) >> 50];
  for (Chunk* x = *h; x; x = x->next) if (x->key == k) { c.key = k; c.cells = x->cells; return x->cells + ((a >> 3) & 511) * 4; }
  if (!mk) return nullptr;
  Chunk* x = (Chunk*)raw(sizeof(Chunk) + 512 * 4 * sizeof(Cell)); x->key = k; x->cells = (Cell*)(x + 1); x->next = *h; *h = x;
  c.key = k; c.cells = x->cells; return x->cells + ((a >> 3) & 511) * 4;
}
void mt_shadow_reset(const void* p, size_t n) {
  if (!g_opt.sched.race) return;
  uintptr_t a = (uintptr_t)p & ~7ull, e = (uintptr_t)p + n;
  while (a < e) { Cell* c = cells_of(a, false); uintptr_t next = (a & ~4095ull) + 4096; if (next > e) next = (e + 7) & ~7ull; if (c) memset(c, 0, ((next - a) >> 3) * 4 * sizeof(Cell)); a = next; }
}
static std::string where(void* pc) {
  Dl_info i; char b[300];
  if (dladdr(pc, &i) && i.dli_fname) { const char* f = strrchr(i.dli_fname, '/'); snprintf(b, sizeof b, "%s+0x%lx(%s)", f ? f + 1 : i.dli_fname, (long)((char*)pc - (char*)i.dli_fbase), i.dli_sname ? i.dli_sname : "?"); return b; }
  return "?";
}
static void race_report(void* p, bool w, bool at, void* pc, Cell& o) {
  life_abort(L_RACE, "data race: %s%s by thread %d at %s with %s%s by thread %d at %s", at ? "atomic " : "", w ? "write" : "read", cur, where(pc).c_str(), o.flags & 2 ? "atomic " : "", o.flags & 1 ? "write" : "read", (int)o.tid, where(o.pc).c_str());
}
static void race_access(uintptr_t a, unsigned n, bool w, bool at, void* pc) {
  uintptr_t g = a & ~7ull; unsigned off = a & 7;
  if (off + n > 8) { race_access(a, 8 - off, w, at, pc); race_access(g + 8, n - (8 - off), w, at, pc); return; }
  uint8_t mask = ((1u << n) - 1) << off; uint8_t fl = 4 | (w ? 1 : 0) | (at ? 2 : 0);
  Cell* c = cells_of(g, true); VC& v = T[cur].vc; int slot = -1, empty = -1;
  for (int i = 0; i < 4; ++i) {
    Cell& o = c[i];
    if (!(o.flags & 4)) { if (empty < 0) empty = i; continue; }
    if (o.tid == cur) { if (o.mask == mask && (o.flags & 2) == (fl & 2) && ((o.flags & 1) <= (fl & 1))) slot = i; else if (o.mask == mask && o.clk == v.c[cur] && (o.flags & 1) && !(fl & 1) && (o.flags & 2) == (fl & 2)) return; continue; }
    if ((o.mask & mask) && ((o.flags | fl) & 1) && !((o.flags & 2) && (fl & 2)) && o.clk > v.c[o.tid]) race_report((void*)a, w, at, pc, o);
  }
  if (slot < 0) slot = empty;
  if (slot < 0) { // drop a cell that is ordered before us, or any
    for (int i = 0; i < 4; ++i) if (c[i].clk <= v.c[c[i].tid] && c[i].tid != cur) { slot = i; break; }
    if (slot < 0) slot = (points ^ (g >> 3)) & 3;
  }
  Cell& o = c[slot]; o.clk = v.c[cur]; o.tid = cur; o.mask = mask; o.flags = fl; o.pc = pc;
}
void mt_access(const void* p, unsigned n, bool w, bool at, void* pc) {
  if (self != cur) return;            // a thread we do not manage
  maybe_preempt();
  if (g_opt.sched.race) race_access((uintptr_t)p, n, w, at, pc);
}
// synchronisation variables
struct Sync { const void* k; VC vc; Sync* next; };
static Sync* stab[1024];
static Sync* sync_of(const void* k) {
  Sync** h = &stab[(mix64((uint64_t)k)) & 1023];
  for (Sync* s = *h; s; s = s->next) if (s->k == k) return s;
  Sync* s = (Sync*)raw(sizeof(Sync)); memset(s, 0, sizeof *s); s->k = k; s->next = *h; *h = s; return s;
}
static void acquire(const void* k) { vc_join(T[cur].vc, sync_of(k)->vc); }
static void release(const void* k) { vc_join(sync_of(k)->vc, T[cur].vc); T[cur].vc.c[cur]++; }

// ------------------------------------------------------------------ threads
static void* thr_main(void* a) {
  int id = (int)(long)a; self = id;
  fwait(&T[id].fut);
  for (;;) {
    std::function<void()>* j = T[id].job;
    if (!j) break;
    (*j)(); T[id].job = nullptr;
    // finished: become idle, hand over
    release(&T[id]);
    T[id].state = T_IDLE; n_live--; wake_all(&T[id]);
    points++;
    int t = choose(true); if (t < 0) deadlock();
    sh->switches++; sh->t_switches++; if (sh->nsw < MAXSW) { SwitchRec& s = sh->sw[sh->nsw++]; s.life = lifeno; s.thr = t; s.point = points; }
    ev(0x5c00 + t); cur = t; fwake(&T[t].fut); fwait(&T[id].fut);
  }
  return nullptr;
}
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int spawn(std::function<void()>* job) {
  int id = -1; for (int i = 1; i < MAXT; ++i) if (T[i].state == T_IDLE || T[i].state == T_FREE) { id = i; break; }
  if (id < 0) return -1;
  if (!mt_active) { mt_active = true; T[0].state = T_RUN; cur = 0; self = 0; for (auto& c : T[0].vc.c) c = 0; T[0].vc.c[0] = 1; T[0].prio = srng.below(1000); n_live = 1; }
  if (T[id].state == T_FREE) {
    if (!real_create) real_create = (decltype(real_create))real_sym("pthread_create");
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16 << 20);
    if (real_create(&T[id].pt, &at, thr_main, (void*)(long)id)) return -1;
    pthread_attr_destroy(&at); T[id].has_pt = true; T[id].vc.c[id] = 1;
  }
  T[id].job = job; T[id].state = T_RUN; T[id].team = nullptr; T[id].level = 0; T[id].prio = srng.below(1000); n_live++;
  // fork edge
  vc_join(T[id].vc, T[cur].vc); T[id].vc.c[id]++; T[cur].vc.c[cur]++;
  if (g_opt.sched.policy == 3 && stall_thr < 0 && srng.chance(0.5)) { stall_thr = id; stall_until = points + srng.below(256L << g_opt.sched.mean_log2); }
  return id;
}
static void join(int id) { mt_point(); while (T[id].state != T_IDLE) block(&T[id]); acquire(&T[id]); }
void sched_life_begin() {
  lifeno = sh->life; srng = Rng(g_opt.sched.seed ^ 0x5ced); omp_n = g_opt.sched.nthreads; points = 0; mt_active = false; stall_thr = -1; stall_until = 0; rr = 0;
  memset((void*)T, 0, sizeof T); T[0].state = T_RUN; cur = 0; self = 0;
  plan = nullptr; auto it = g_swplan.find(lifeno); if (it != g_swplan.end()) plan = &it->second;
  new_countdown();
}
void par_run(int n, const std::function<void(int)>& fn) {
  std::vector<std::function<void()>> jobs(n); std::vector<int> ids(n);
  for (int i = 0; i < n; ++i) { jobs[i] = [i, &fn] { fn(i); }; }
  for (int i = 0; i < n; ++i) { ids[i] = spawn(&jobs[i]); if (ids[i] < 0) life_abort(L_HARNESS, "cannot spawn"); mt_point(); }
  for (int i = 0; i < n; ++i) join(ids[i]);
  sh->points = points;
}

// ------------------------------------------------------------------ OpenMP
static Thr& me() { return T[mt_active ? cur : 0]; }
static Team* team() { return me().team; }
static void run_member(Team* t, int num, int level) { Thr& m = me(); Team* o = m.team; int on = m.tnum, ow = m.wsidx, ol = m.level; m.team = t; m.tnum = num; m.wsidx = 0; m.level = level; t->fn(t->data); Thr& m2 = me(); m2.team = o; m2.tnum = on; m2.wsidx = ow; m2.level = ol; }
static void do_parallel(void (*fn)(void*), void* data, unsigned n, const WS* preset) {
  int nt = n ? (int)n : omp_n; if (nt > MAXT - 1) nt = MAXT - 1; if (nt < 1) nt = 1;
  int lvl = me().level;
  if (lvl > 0 || !g_life) nt = 1;
  Team t; memset((void*)&t, 0, sizeof t); t.fn = fn; t.data = data; t.n = nt;
  if (preset) { t.ws[0] = *preset; t.ws[0].init = true; }
  if (nt == 1) { run_member(&t, 0, lvl + 1); return; }
  std::vector<std::function<void()>> jobs(nt - 1); std::vector<int> ids(nt - 1);
  Team* tp = &t;
  for (int i = 1; i < nt; ++i) jobs[i - 1] = [tp, i, lvl] { run_member(tp, i, lvl + 1); };
  int got = 0; for (int i = 1; i < nt; ++i) { int id = spawn(&jobs[i - 1]); if (id < 0) life_abort(L_HARNESS, "cannot spawn"); ids[got++] = id; }
  mt_point();
  run_member(&t, 0, lvl + 1);
  for (int i = 0; i < got; ++i) join(ids[i]);
  sh->points = points;
}
static void barrier() {
  Team* t = team(); if (!t || t->n <= 1) return;
  mt_point();
  vc_join(t->bar_vc, T[cur].vc); T[cur].vc.c[cur]++;
  int g = t->bar_gen;
  if (++t->bar_count == t->n) { t->bar_count = 0; t->bar_gen++; wake_all(&t->bar_gen); }
  else while (t->bar_gen == g) block(&t->bar_gen);
  vc_join(T[cur].vc, t->bar_vc);
}
static WS* ws() { Team* t = team(); return &t->ws[me().wsidx % 64]; }
static Team solo; 
static WS* ws_enter() { if (!team()) { memset((void*)&solo, 0, sizeof solo); solo.n = 1; me().team = &solo; me().wsidx = 0; } return ws(); }
static void ws_leave(bool wait) { if (wait) { Team* t = team(); if (t->n > 1) { barrier(); if (me().tnum == 0) { } } } Thr& m = me(); WS* w = &team()->ws[m.wsidx % 64]; (void)w; m.wsidx++; if (team() == &solo) { memset((void*)&solo.ws[0], 0, sizeof solo.ws); m.wsidx = 0; } }
static bool dyn_next(long* a, long* b) {
  mt_point(); WS* w = ws(); long rem = w->incr > 0 ? w->end - w->next : w->next - w->end;
  if (rem <= 0) return false;
  long st = w->incr > 0 ? w->incr : -w->incr; long k = w->chunk * st; if (k > rem || k <= 0) k = rem;
  *a = w->next; w->next += w->incr > 0 ? k : -k; *b = w->next; return true;
}
static bool dyn_start(long s, long e, long in, long ch, long* a, long* b) { WS* w = ws_enter(); if (!w->init) { w->init = true; w->next = s; w->end = e; w->incr = in; w->chunk = ch < 1 ? 1 : ch; } return dyn_next(a, b); }
static bool udyn_next(unsigned long long* a, unsigned long long* b) { long x, y; if (!dyn_next(&x, &y)) return false; *a = x; *b = y; return true; }

// locks
struct Lock { const void* k; int owner; int depth; Lock* next; };
static Lock* ltab[256];
static Lock* lock_of(const void* k) { Lock** h = &ltab[mix64((uint64_t)k) & 255]; for (Lock* l = *h; l; l = l->next) if (l->k == k) return l; Lock* l = (Lock*)raw(sizeof(Lock)); l->k = k; l->owner = -1; l->depth = 0; l->next = *h; *h = l; return l; }
static void lk(const void* k, bool rec) { if (!mt_active || self != cur) return; mt_point(); Lock* l = lock_of(k); if (l->owner == cur && rec) { l->depth++; return; } while (l->owner >= 0) block(l); l->owner = cur; l->depth = 1; acquire(k); }
static bool trylk(const void* k, bool rec) { if (!mt_active || self != cur) return true; mt_point(); Lock* l = lock_of(k); if (l->owner == cur && rec) { l->depth++; return true; } if (l->owner >= 0) return false; l->owner = cur; l->depth = 1; acquire(k); return true; }
static void unlk(const void* k) { if (!mt_active || self != cur) return; Lock* l = lock_of(k); if (l->owner != cur) return; if (--l->depth > 0) return; release(k); l->owner = -1; wake_all(l); mt_point(); }
static char crit_default, atomic_default;
}  // namespace sim
using namespace sim;

SIM_EXPORT void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { do_parallel(fn, d, n, nullptr); }
#define PLOOP(NAME) SIM_EXPORT void NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long in, long ch, unsigned) { WS w; memset(&w, 0, sizeof w); w.next = s; w.end = e; w.incr = in; w.chunk = ch < 1 ? 1 : ch; do_parallel(fn, d, n, &w); }
PLOOP(GOMP_parallel_loop_dynamic) PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic) PLOOP(GOMP_parallel_loop_guided) PLOOP(GOMP_parallel_loop_nonmonotonic_guided) PLOOP(GOMP_parallel_loop_static)
#define PLOOPR(NAME) SIM_EXPORT void NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long in, unsigned) { WS w; memset(&w, 0, sizeof w); w.next = s; w.end = e; w.incr = in; w.chunk = 1; do_parallel(fn, d, n, &w); }
PLOOPR(GOMP_parallel_loop_runtime) PLOOPR(GOMP_parallel_loop_nonmonotonic_runtime) PLOOPR(GOMP_parallel_loop_maybe_nonmonotonic_runtime)
#define LOOP(K) \
  SIM_EXPORT bool GOMP_loop_##K##_start(long s, long e, long in, long ch, long* a, long* b) { return dyn_start(s, e, in, ch, a, b); } \
  SIM_EXPORT bool GOMP_loop_##K##_next(long* a, long* b) { return dyn_next(a, b); } \
  SIM_EXPORT bool GOMP_loop_ull_##K##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long in, unsigned long long ch, unsigned long long* a, unsigned long long* b) { long x, y; bool r = dyn_start(s, e, up ? (long)in : (long)in, ch, &x, &y); if (r) { *a = x; *b = y; } return r; } \
  SIM_EXPORT bool GOMP_loop_ull_##K##_next(unsigned long long* a, unsigned long long* b) { return udyn_next(a, b); }
LOOP(dynamic) LOOP(nonmonotonic_dynamic) LOOP(guided) LOOP(nonmonotonic_guided) LOOP(static)
#define LOOPR(K) \
  SIM_EXPORT bool GOMP_loop_##K##_start(long s, long e, long in, long* a, long* b) { return dyn_start(s, e, in, 1, a, b); } \
  SIM_EXPORT bool GOMP_loop_##K##_next(long* a, long* b) { return dyn_next(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
SIM_EXPORT void GOMP_loop_end() { ws_leave(true); }
SIM_EXPORT void GOMP_loop_end_nowait() { ws_leave(false); }
SIM_EXPORT void GOMP_barrier() { barrier(); }
SIM_EXPORT bool GOMP_single_start() { WS* w = ws_enter(); mt_point(); bool f = !w->single; w->single = 1; me().wsidx++; return f; }
SIM_EXPORT void* GOMP_single_copy_start() { WS* w = ws_enter(); mt_point(); if (!w->single) { w->single = 1; return nullptr; } barrier(); void* r = w->copy; me().wsidx++; return r; }
SIM_EXPORT void GOMP_single_copy_end(void* d) { ws()->copy = d; barrier(); me().wsidx++; }
SIM_EXPORT void GOMP_critical_start() { lk(&crit_default, false); }
SIM_EXPORT void GOMP_critical_end() { unlk(&crit_default); }
SIM_EXPORT void GOMP_critical_name_start(void** p) { lk(p, false); }
SIM_EXPORT void GOMP_critical_name_end(void** p) { unlk(p); }
SIM_EXPORT void GOMP_atomic_start() { lk(&atomic_default, false); }
SIM_EXPORT void GOMP_atomic_end() { unlk(&atomic_default); }
SIM_EXPORT unsigned GOMP_sections_next() { WS* w = ws(); mt_point(); if (w->sect >= w->nsect) return 0; return ++w->sect; }
SIM_EXPORT unsigned GOMP_sections_start(unsigned n) { WS* w = ws_enter(); if (!w->init) { w->init = true; w->nsect = n; w->sect = 0; } return GOMP_sections_next(); }
SIM_EXPORT void GOMP_sections_end() { ws_leave(true); }
SIM_EXPORT void GOMP_sections_end_nowait() { ws_leave(false); }
SIM_EXPORT void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) { WS w; memset(&w, 0, sizeof w); w.nsect = count; do_parallel(fn, d, n, &w); }
SIM_EXPORT void GOMP_ordered_start() { life_abort(L_HARNESS, "omp ordered is not simulated"); }
SIM_EXPORT void GOMP_ordered_end() {}
SIM_EXPORT void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
  if (cpy) { char* b = (char*)__builtin_alloca(sz + al); char* p = (char*)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpy(p, data); fn(p); } else fn(data);
}
SIM_EXPORT void GOMP_taskwait() {}
SIM_EXPORT void GOMP_taskyield() { mt_point(); }
SIM_EXPORT void GOMP_taskgroup_start() {}
SIM_EXPORT void GOMP_taskgroup_end() {}
SIM_EXPORT bool GOMP_cancel(int, bool) { return false; }
SIM_EXPORT bool GOMP_cancellation_point(int) { return false; }
SIM_EXPORT int omp_get_num_threads() { Team* t = team(); return t ? t->n : 1; }
SIM_EXPORT int omp_get_thread_num() { return team() ? me().tnum : 0; }
SIM_EXPORT int omp_get_max_threads() { return me().level > 0 ? 1 : omp_n; }
SIM_EXPORT int omp_get_num_procs() { return omp_n; }
SIM_EXPORT int omp_in_parallel() { Team* t = team(); return t && t->n > 1; }
SIM_EXPORT void omp_set_num_threads(int n) { if (n > 0) omp_n = n > MAXT - 1 ? MAXT - 1 : n; }
SIM_EXPORT int omp_get_level() { return me().level; }
SIM_EXPORT int omp_get_active_level() { return omp_in_parallel(); }
SIM_EXPORT void omp_set_dynamic(int) {}
SIM_EXPORT int omp_get_dynamic() { return 0; }
SIM_EXPORT void omp_set_nested(int) {}
SIM_EXPORT int omp_get_nested() { return 0; }
SIM_EXPORT int omp_get_thread_limit() { return MAXT - 1; }
SIM_EXPORT void omp_set_schedule(int, int) {}
SIM_EXPORT double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
SIM_EXPORT void omp_init_lock(void* l) { *(int*)l = 0; }
SIM_EXPORT void omp_destroy_lock(void*) {}
SIM_EXPORT void omp_set_lock(void* l) { lk(l, false); }
SIM_EXPORT void omp_unset_lock(void* l) { unlk(l); }
SIM_EXPORT int omp_test_lock(void* l) { return trylk(l, false); }
SIM_EXPORT void omp_init_nest_lock(void*) {}
SIM_EXPORT void omp_destroy_nest_lock(void*) {}
SIM_EXPORT void omp_set_nest_lock(void* l) { lk(l, true); }
SIM_EXPORT void omp_unset_nest_lock(void* l) { unlk(l); }

// ------------------------------------------------------------------ pthread seams
SIM_EXPORT int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!g_life) { static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))real_sym("pthread_create"); return real(t, a, fn, arg); }
  auto* j = new std::function<void()>([fn, arg] { fn(arg); });
  int id = spawn(j); if (id < 0) return EAGAIN; *t = (pthread_t)(0x7100000 + id); mt_point(); return 0;
}
SIM_EXPORT int pthread_join(pthread_t t, void** r) {
  if (t >= 0x7100000 && t < 0x7100000 + MAXT) { join(t - 0x7100000); if (r) *r = nullptr; return 0; }
  static auto real = (int (*)(pthread_t, void**))real_sym("pthread_join"); return real(t, r);
}
SIM_EXPORT int pthread_detach(pthread_t t) { if (t >= 0x7100000 && t < 0x7100000 + MAXT) return 0; static auto real = (int (*)(pthread_t))real_sym("pthread_detach"); return real(t); }
static bool rec_mutex(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
SIM_EXPORT int pthread_mutex_lock(pthread_mutex_t* m) { if (mt_active && g_life) { lk(m, rec_mutex(m)); return 0; } return 0; }
SIM_EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) { if (mt_active && g_life) return trylk(m, rec_mutex(m)) ? 0 : EBUSY; return 0; }
SIM_EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) { if (mt_active && g_life) unlk(m); return 0; }
SIM_EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!mt_active) return 0; unlk(m); block(c); lk(m, false); return 0; }
SIM_EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { if (!mt_active) return ETIMEDOUT; unlk(m); mt_point(); lk(m, false); return ETIMEDOUT; }
SIM_EXPORT int pthread_cond_signal(pthread_cond_t* c) { if (mt_active) { mt_point(); for (int i = 0; i < MAXT; ++i) if (T[i].state == T_BLOCK && T[i].wait_on == c) { T[i].state = T_RUN; break; } } return 0; }
SIM_EXPORT int pthread_cond_broadcast(pthread_cond_t* c) { if (mt_active) { mt_point(); wake_all(c); } return 0; }
SIM_EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (mt_active && g_life) lk(m, false); return 0; }
SIM_EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (mt_active && g_life) lk(m, false); return 0; }
SIM_EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (mt_active && g_life) unlk(m); return 0; }
SIM_EXPORT int sched_yield() { mt_point(); return 0; }
// function-local statics
SIM_EXPORT int __cxa_guard_acquire(long long* g) {
  unsigned char* b = (unsigned char*)g;
  if (mt_active && g_life) { for (;;) { mt_point(); if (b[0]) { acquire(g); return 0; } if (!b[1]) { b[1] = 1; return 1; } block(g); } }
  if (b[0]) return 0; b[1] = 1; return 1;
}
SIM_EXPORT void __cxa_guard_release(long long* g) { unsigned char* b = (unsigned char*)g; b[0] = 1; b[1] = 0; if (mt_active && g_life) { release(g); wake_all(g); } }
SIM_EXPORT void __cxa_guard_abort(long long* g) { unsigned char* b = (unsigned char*)g; b[1] = 0; if (mt_active && g_life) wake_all(g); }

// ------------------------------------------------------------------ atomics of the instrumented code
#define ATPC __builtin_return_address(0)
static inline void at_pre(const volatile void* p, unsigned n, bool w, int mo, void* pc) {
  if (!heap_check((void*)p, n)) bad_access((void*)p, n, w, pc);
  if (!mt_active) return;
  mt_access((void*)p, n, w, true, pc);
  if (mo != 0 && mo != 3) acquire((void*)p);
}
static inline void at_post(const volatile void* p, bool w, int mo) { if (mt_active && w && mo >= 3) release((void*)p); }
#define AT(B, TY) \
  SIM_EXPORT TY __tsan_atomic##B##_load(const volatile TY* p, int mo) { at_pre(p, sizeof(TY), false, mo, ATPC); return *p; } \
  SIM_EXPORT void __tsan_atomic##B##_store(volatile TY* p, TY v, int mo) { at_pre(p, sizeof(TY), true, 0, ATPC); at_post(p, true, mo); *p = v; } \
  SIM_EXPORT TY __tsan_atomic##B##_exchange(volatile TY* p, TY v, int mo) { at_pre(p, sizeof(TY), true, mo, ATPC); TY o = *p; at_post(p, true, mo); *p = v; return o; } \
  SIM_EXPORT TY __tsan_atomic##B##_fetch_add(volatile TY* p, TY v, int mo) { at_pre(p, sizeof(TY), true, mo, ATPC); TY o = *p; at_post(p, true, mo); *p = o + v; return o; } \
  SIM_EXPORT TY __tsan_atomic##B##_fetch_sub(volatile TY* p, TY v, int mo) { at_pre(p, sizeof(TY), true, mo, ATPC); TY o = *p; at_post(p, true, mo); *p = o - v; return o; } \
  SIM_EXPORT TY __tsan_atomic##B##_fetch_and(volatile TY* p, TY v, int mo) { at_pre(p, sizeof(TY), true, mo, ATPC); TY o = *p; at_post(p, true, mo); *p = o & v; return o; } \
  SIM_EXPORT TY __tsan_atomic##B##_fetch_or(volatile TY* p, TY v, int mo) { at_pre(p, sizeof(TY), true, mo, ATPC); TY o = *p; at_post(p, true, mo); *p = o | v; return o; } \
  SIM_EXPORT TY __tsan_atomic##B##_fetch_xor(volatile TY* p, TY v, int mo) { at_pre(p, sizeof(TY), true, mo, ATPC); TY o = *p; at_post(p, true, mo); *p = o ^ v; return o; } \
  SIM_EXPORT TY __tsan_atomic##B##_fetch_nand(volatile TY* p, TY v, int mo) { at_pre(p, sizeof(TY), true, mo, ATPC); TY o = *p; at_post(p, true, mo); *p = ~(o & v); return o; } \
  SIM_EXPORT bool __tsan_atomic##B##_compare_exchange_strong(volatile TY* p, TY* e, TY v, int mo, int) { at_pre(p, sizeof(TY), true, mo, ATPC); TY o = *p; if (o == *e) { at_post(p, true, mo); *p = v; return true; } *e = o; return false; } \
  SIM_EXPORT bool __tsan_atomic##B##_compare_exchange_weak(volatile TY* p, TY* e, TY v, int mo, int) { at_pre(p, sizeof(TY), true, mo, ATPC); TY o = *p; if (o == *e) { at_post(p, true, mo); *p = v; return true; } *e = o; return false; } \
  SIM_EXPORT TY __tsan_atomic##B##_compare_exchange_val(volatile TY* p, TY e, TY v, int mo, int) { at_pre(p, sizeof(TY), true, mo, ATPC); TY o = *p; if (o == e) { at_post(p, true, mo); *p = v; } return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, unsigned __int128)
SIM_EXPORT void __tsan_atomic_thread_fence(int) { if (mt_active) { acquire(&sim::sh); release(&sim::sh); } }
SIM_EXPORT void __tsan_atomic_signal_fence(int) {}
