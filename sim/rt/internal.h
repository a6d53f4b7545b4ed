#pragma once
#include "rt.h"
#include <atomic>
namespace sim {
struct OutRec { uint32_t klen, vlen; int life; };
struct KnobRec { char name[40]; long val, lo, hi; };
struct FiredRec { int life; int cls; long idx; int kind; long arg; char path[72]; };
struct SwitchRec { int life; int thr; long point; };
struct DlRec { char path[120]; int what; char real[64]; };
enum { MAXF = 192, MAXKNOB = 2048, MAXFIRED = 512, MAXSW = 400000, MAXDL = 96, OUTSZ = 96 << 20, NOTESZ = 1 << 16, MAXCNT = 128 };
struct FileRec { char name[160]; bool used; bool dir; long off, cap, len; long bad_from; };
struct Shared {
  uint64_t hash; 
  // run
  int verdict; char tag[64]; char vmsg[4096]; int is_nontrivial; 
  // life result
  int life; int lkind; char lmsg[2048]; long steps, allocs; long nops[OP_NCLASS]; int fired; long points, switches, cap_hits; int done; int rc;
  // totals
  long t_lives, t_ops[OP_NCLASS], t_steps, t_fired[F_NKIND], t_allocfail, t_capfull, t_switches, t_points, t_noise, t_simns, t_kinds[L_NKIND];
  int nknob; KnobRec knobs[MAXKNOB];
  int nfired; FiredRec firedlog[MAXFIRED];
  long nsw; SwitchRec sw[MAXSW];
  int ndl; bool dl_def; DlRec dl[MAXDL]; int dlreq;
  int nfiles; FileRec files[MAXF]; long disk_top;
  long outlen; 
  int ncnt; struct { char name[64]; long n; } cnt[MAXCNT];
  char notes[NOTESZ]; int notelen;
  int nenv; struct { char name[64]; char val[1024]; bool set; } env[16];
};
extern Shared* sh;
extern char* outbuf;
extern char* disk;
static const long DISK_SZ = 3L << 30;
extern bool g_life;            // inside a life
extern LifeOpt g_opt;
bool alloc_armed();
void heap_on(const LifeOpt&);
void heap_off_for_exit();
void vfs_life_begin();
void sched_life_begin();
void misc_life_begin();
void dl_life_begin();
extern long g_steps, g_budget;
extern long g_allocs;
extern bool mt_active;
void mt_access(const void* p, unsigned n, bool w, bool atomic, void* pc);
void mt_point();               // possible preemption at a synchronisation operation
void mt_shadow_reset(const void* p, size_t n);
bool heap_check(const void* p, size_t n);    // true if fine
void bad_access(const void* p, size_t n, bool w, void* pc);
struct SwPlan { std::map<long,int> at; bool explicit_plan = false; };
extern std::map<int, SwPlan> g_swplan;
long out_life_filter();
void* real_sym(const char* name);
// raw memory (not the simulated heap)
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t); void* __libc_memalign(size_t,size_t); }
}
#define SIM_EXPORT extern "C" __attribute__((visibility("default")))
