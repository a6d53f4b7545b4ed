// Loader, environment, clock and random seams.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <sys/syscall.h>
#include "internal.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <dlfcn.h>
#include <time.h>
#include <sys/time.h>
#include <sys/random.h>
#include <unistd.h>
namespace sim {
static int64_t mono, wall; static uint64_t rstate, dstate;
static char dlerr[256]; static bool has_dlerr, real_err;
static long dl_idx;
void misc_life_begin() { mono = g_opt.mono_start; wall = g_opt.wall_start; rstate = g_opt.rand_seed; dstate = mix64(g_opt.rand_seed ^ 0xdee); }
void dl_life_begin() { has_dlerr = real_err = false; dl_idx = 0; sh->dlreq = 0; }
long dl_op_count() { return dl_idx; }
void clock_advance(int64_t ns) { mono += ns; wall += ns; sh->t_simns += ns; }
void wall_jump(int64_t ns) { wall += ns; }
void set_rand(uint64_t s) { rstate = s; dstate = mix64(s ^ 0xdee); }
void dl_default(bool on) { sh->dl_def = on; }
void dl_clear() { sh->ndl = 0; }
void dl_put(const std::string& p, int what, const std::string& real) {
  int i; for (i = 0; i < sh->ndl; ++i) if (p == sh->dl[i].path) break;
  if (i == MAXDL) life_abort(L_HARNESS, "dl table full");
  if (i == sh->ndl) sh->ndl++;
  DlRec& r = sh->dl[i]; memset(&r, 0, sizeof r); strncpy(r.path, p.c_str(), sizeof r.path - 1); strncpy(r.real, real.c_str(), sizeof r.real - 1); r.what = what;
}
int dl_requests() { return sh->dlreq; }
void env_set(const char* n, const char* v) {
  int i; for (i = 0; i < sh->nenv; ++i) if (!strcmp(sh->env[i].name, n)) break;
  if (i == sh->nenv) sh->nenv++;
  strncpy(sh->env[i].name, n, 63); sh->env[i].set = v; if (v) strncpy(sh->env[i].val, v, 1023);
}
static auto real_dlopen() { static auto f = (void* (*)(const char*, int))real_sym("dlopen"); return f; }
static void set_err(const char* m, const char* p) { snprintf(dlerr, sizeof dlerr, "%s: %s", p, m); has_dlerr = true; real_err = false; }
static std::string normp(const char* p) { std::string o; for (; *p; ++p) if (!(*p == '/' && !o.empty() && o.back() == '/')) o += *p; return o; }
}  // namespace sim
using namespace sim;
SIM_EXPORT void* dlopen(const char* path, int flags) {
  if (!g_life || !path) return real_dlopen()(path, flags);
  has_dlerr = false;   // as in glibc, every call replaces the previous error state
  std::string p = normp(path); sh->dlreq++;
  const char* base = strrchr(p.c_str(), '/'); base = base ? base + 1 : p.c_str();
  int what = DL_MISSING; std::string real;
  bool hit = false;
  for (int i = 0; i < sh->ndl; ++i) if (p == sh->dl[i].path) { hit = true; what = sh->dl[i].what; real = sh->dl[i].real; }
  if (!hit && sh->dl_def) { what = DL_REAL; real = base; }
  sh->nops[OP_DL]++; sh->t_ops[OP_DL]++; long i = dl_idx++; ev(0xd1); ev(what);
  for (auto& f : g_opt.faults) if (f.cls == OP_DL && (f.idx == i || (f.sticky && i >= f.idx))) { sh->t_fired[f.kind]++; sh->fired++; if (sh->nfired < MAXFIRED) { FiredRec& r = sh->firedlog[sh->nfired++]; r.life = sh->life; r.cls = OP_DL; r.idx = i; r.kind = f.kind; r.arg = 0; strncpy(r.path, p.c_str(), 71); } set_err("cannot open shared object file: transient loader error", p.c_str()); return nullptr; }
  if (what == DL_MISSING) { set_err("cannot open shared object file: No such file or directory", p.c_str()); return nullptr; }
  if (what == DL_CORRUPT) { set_err("file too short", p.c_str()); return nullptr; }
  std::string full = dl_dir() + "/" + real;
  if (syscall(SYS_access, full.c_str(), R_OK) != 0) { set_err("cannot open shared object file: No such file or directory", p.c_str()); return nullptr; }
  bool l = g_life; void* h;
  bool armed = alloc_armed(); alloc_arm(false);   // the dynamic loader's own failures are injected above
  h = real_dlopen()(full.c_str(), flags); (void)l;
  alloc_arm(armed);
  if (!h) { static auto re = (char* (*)())real_sym("dlerror"); char* m = re(); life_abort(L_HARNESS, "real dlopen failed: %s", m ? m : "?"); }
  return h;
}
SIM_EXPORT void* dlsym(void* h, const char* n) {
  void* vp = dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.34"); if (!vp) vp = dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.2.5");
  static auto rs = (void* (*)(void*, const char*))vp;
  if (g_life) has_dlerr = false;
  void* r = rs(h, n);
  if (g_life && !r) { static auto re = (char* (*)())real_sym("dlerror"); re(); set_err("undefined symbol", n); }
  return r;
}
SIM_EXPORT char* dlerror() {
  if (!g_life) { static auto re = (char* (*)())real_sym("dlerror"); return re(); }
  if (has_dlerr) { has_dlerr = false; return dlerr; }
  return nullptr;
}
SIM_EXPORT int dlclose(void* h) { if (!g_life) { static auto f = (int (*)(void*))real_sym("dlclose"); return f(h); } return 0; }
SIM_EXPORT char* getenv(const char* n) {
  if (!sh || !g_life) { extern char** environ; size_t l = strlen(n); if (environ) for (char** e = environ; *e; ++e) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1; return nullptr; }
  for (int i = 0; i < sh->nenv; ++i) if (!strcmp(sh->env[i].name, n)) return sh->env[i].set ? sh->env[i].val : nullptr;
  return nullptr;
}
SIM_EXPORT char* secure_getenv(const char* n) { return getenv(n); }
static int64_t tick() { sim::mono += 137; sim::wall += 137; return sim::mono; }
static int64_t cpu_ns() { return sim::g_steps * 3; }   // processor time: only the work done counts, not the time waited
SIM_EXPORT int clock_gettime(clockid_t c, struct timespec* t) {
  if (!g_life) { static auto f = (int (*)(clockid_t, struct timespec*))real_sym("clock_gettime"); return f(c, t); }
  tick(); int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? sim::wall : (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME) ? sim::mono : cpu_ns();
  t->tv_sec = v / 1000000000LL; t->tv_nsec = v % 1000000000LL; return 0;
}
SIM_EXPORT int gettimeofday(struct timeval* t, void* z) {
  if (!g_life) { static auto f = (int (*)(struct timeval*, void*))real_sym("gettimeofday"); return f(t, z); }
  tick(); t->tv_sec = sim::wall / 1000000000LL; t->tv_usec = sim::wall % 1000000000LL / 1000; return 0;
}
SIM_EXPORT time_t time(time_t* t) { if (!g_life) { static auto f = (time_t (*)(time_t*))real_sym("time"); return f(t); } tick(); time_t v = sim::wall / 1000000000LL; if (t) *t = v; return v; }
SIM_EXPORT clock_t clock() { if (!g_life) { static auto f = (clock_t (*)())real_sym("clock"); return f(); } tick(); return cpu_ns() / 1000; }
SIM_EXPORT int nanosleep(const struct timespec* a, struct timespec*) { if (!g_life) { static auto f = (int (*)(const struct timespec*, struct timespec*))real_sym("nanosleep"); return f(a, nullptr); } clock_advance(a->tv_sec * 1000000000LL + a->tv_nsec); mt_point(); return 0; }
SIM_EXPORT int usleep(useconds_t u) { if (!g_life) { struct timespec a = {u / 1000000, (long)(u % 1000000) * 1000}; static auto f = (int (*)(const struct timespec*, struct timespec*))real_sym("nanosleep"); return f(&a, nullptr); } clock_advance(u * 1000LL); mt_point(); return 0; }
SIM_EXPORT unsigned sleep(unsigned s) { if (g_life) { clock_advance(s * 1000000000LL); mt_point(); } return 0; }
static uint32_t rnext() { sim::rstate = sim::rstate * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(mix64(sim::rstate) >> 33); }
SIM_EXPORT int rand() { if (mt_active) mt_point(); return (int)rnext(); }
SIM_EXPORT void srand(unsigned s) { sim::rstate = s; }
SIM_EXPORT long random() { return rnext(); }
SIM_EXPORT void srandom(unsigned s) { sim::rstate = s; }
SIM_EXPORT int rand_r(unsigned* s) { *s = *s * 1103515245u + 12345u; return (int)(mix64(*s) >> 33); }
SIM_EXPORT double drand48() { return rnext() / 2147483648.0; }
SIM_EXPORT void srand48(long s) { sim::rstate = s; }
SIM_EXPORT long lrand48() { return rnext(); }
SIM_EXPORT ssize_t getrandom(void* b, size_t n, unsigned) { for (size_t i = 0; i < n; ++i) ((char*)b)[i] = rnext(); return n; }
// std::random_device
SIM_EXPORT unsigned _ZNSt13random_device9_M_getvalEv(void*) { if (mt_active) mt_point(); sim::dstate += 0x9e3779b97f4a7c15ull; return (unsigned)mix64(sim::dstate); }
SIM_EXPORT unsigned _ZNSt13random_device16_M_getval_pretr1Ev(void* d) { return _ZNSt13random_device9_M_getvalEv(d); }
SIM_EXPORT void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
SIM_EXPORT void _ZNSt13random_device7_M_initEPKcm(void*, const void*, size_t) {}
SIM_EXPORT void _ZNSt13random_device7_M_finiEv(void*) {}
SIM_EXPORT int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }
int (*sim::tool_main(const std::string& name))(int, char**) {
  struct Disarm { bool was = alloc_armed(); Disarm() { alloc_arm(false); } ~Disarm() { alloc_arm(was); } } disarm;
  static auto re = (char* (*)())real_sym("dlerror");
  void* vp = dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.34"); auto rs = (void* (*)(void*, const char*))vp;
  void* h = real_dlopen()((dl_dir() + "/soft_" + name + ".so").c_str(), RTLD_NOW); if (!h) life_abort(L_HARNESS, "tool %s: %s", name.c_str(), re());
  void* m = rs(h, "main"); if (!m) life_abort(L_HARNESS, "tool %s has no main", name.c_str());
  return (int (*)(int, char**))m;
}
