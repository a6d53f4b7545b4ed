// Controller: runs seeds, forks runners and lives, records verdicts.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.h"
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <exception>
#include <new>
#include <ios>
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <set>
#include <string>

namespace sim {
const char* const fault_names[] = {"none", "eio", "enospc", "eacces", "emfile", "short", "eintr", "torn_eio", "torn_enospc", "crash", "enoent"};
const char* const life_names[] = {"done", "signal", "hang", "memory-error", "race", "crashed", "deadlock", "wall-timeout", "harness-error"};
Shared* sh; char* outbuf; char* disk; bool g_life = false; LifeOpt g_opt;
static uint64_t g_seed = 1, g_run_seed; static long g_run = 0; static bool g_thorough = false; static bool g_verbose = false;
static std::map<std::string, long> g_over;       // knob overrides
static std::map<std::string, int> g_knobn;
static std::string g_dldir;
std::string dl_dir() { return g_dldir; }
uint64_t run_seed() { return g_run_seed; }
long run_index() { return g_run; }
bool thorough() { return g_thorough; }
bool in_life() { return g_life; }
int life_index() { return sh->life; }
long cur_steps() { return g_steps; }
void ev(uint64_t v) { if (sh) sh->hash = mix64(sh->hash ^ v) + 0x1234567; }
void evs(const char* s) { while (*s) ev((unsigned char)*s++); }
static uint64_t hstr(const char* s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return h; }

long K(const char* name, long lo, long hi) {
  if (g_life) life_abort(L_HARNESS, "knob %s drawn inside a life", name);
  if (hi < lo) hi = lo;
  int n = g_knobn[name]++;
  char full[64]; snprintf(full, sizeof full, "%.50s#%d", name, n);
  uint64_t r = mix64(g_run_seed ^ mix64(hstr(full)));
  long v = lo + (long)(r % (uint64_t)(hi - lo + 1));
  auto it = g_over.find(full); if (it != g_over.end()) { v = it->second; if (v < lo) v = lo; if (v > hi) v = hi; }
  if (sh->nknob < MAXKNOB) { KnobRec& k = sh->knobs[sh->nknob++]; strncpy(k.name, full, sizeof k.name - 1); k.val = v; k.lo = lo; k.hi = hi; }
  ev(v); return v;
}
void note(const char* f, ...) { va_list a; va_start(a, f); int k = vsnprintf(sh->notes + sh->notelen, NOTESZ - 2 - sh->notelen, f, a); va_end(a); if (k > 0) { sh->notelen += k; if (sh->notelen > NOTESZ - 3) sh->notelen = NOTESZ - 3; sh->notes[sh->notelen++] = '\n'; sh->notes[sh->notelen] = 0; } }
void count(const char* w, long n) { for (int i = 0; i < sh->ncnt; ++i) if (!strcmp(sh->cnt[i].name, w)) { sh->cnt[i].n += n; return; } if (sh->ncnt < MAXCNT) { strncpy(sh->cnt[sh->ncnt].name, w, 63); sh->cnt[sh->ncnt++].n = n; } }
void nontrivial() { sh->is_nontrivial = 1; }
enum { V_OK = 0, V_VIOL = 1, V_DISCARD = 2, V_HARNESS = 3 };
void violation(const char* tag, const char* f, ...) { va_list a; va_start(a, f); vsnprintf(sh->vmsg, sizeof sh->vmsg, f, a); va_end(a); strncpy(sh->tag, tag, 63); sh->verdict = V_VIOL; evs(tag); _exit(1); }
void discard(const char* why) { strncpy(sh->vmsg, why, sizeof sh->vmsg - 1); sh->verdict = V_DISCARD; _exit(0); }
static void harness(const char* f, ...) { va_list a; va_start(a, f); vsnprintf(sh->vmsg, sizeof sh->vmsg, f, a); va_end(a); sh->verdict = V_HARNESS; _exit(3); }

void life_abort(int kind, const char* f, ...) {
  va_list a; va_start(a, f); char b[2000]; vsnprintf(b, sizeof b, f, a); va_end(a);
  if (!g_life) { fprintf(stderr, "sim: %s\n", b); _exit(98); }
  strncpy(sh->lmsg, b, sizeof sh->lmsg - 1); sh->lkind = kind; sh->steps = g_steps; sh->done = 1; _exit(77);
}
static std::string sym(void* pc) { Dl_info i; char b[300]; if (dladdr(pc, &i) && i.dli_fname) { const char* f = strrchr(i.dli_fname, '/'); snprintf(b, sizeof b, "%s+0x%lx(%s)", f ? f + 1 : i.dli_fname, (long)((char*)pc - (char*)i.dli_fbase), i.dli_sname ? i.dli_sname : "?"); return b; } return "?"; }
void bad_access(const void* p, size_t n, bool w, void* pc) { std::string s = sym(pc); (void)p; life_abort(L_MEMERR, "invalid heap %s of %zu bytes at %s", w ? "write" : "read", n, s.c_str()); }
std::string LifeRes::str() const { char b[2300]; snprintf(b, sizeof b, "%s code=%d %s", life_names[kind], code, msg.c_str()); return b; }

// ---- result exchange
void out_put(const std::string& k, const std::string& v) {
  long need = sizeof(OutRec) + k.size() + v.size();
  if (sh->outlen + need > OUTSZ) { if (g_life) life_abort(L_HARNESS, "result area full"); harness("result area full"); }
  OutRec r; r.klen = k.size(); r.vlen = v.size(); r.life = sh->life; char* p = outbuf + sh->outlen; memcpy(p, &r, sizeof r); memcpy(p + sizeof r, k.data(), k.size()); memcpy(p + sizeof r + k.size(), v.data(), v.size()); sh->outlen += need;
  uint64_t h = v.size(); for (size_t i = 0; i < v.size(); ++i) h = h * 31 + (unsigned char)v[i]; ev(h);
}
void out_num(const std::string& k, double v) { out_put(k, std::string((char*)&v, 8)); }
void out_vec(const std::string& k, const double* v, size_t n) { check_range(v, n * 8, false); out_put(k, std::string((const char*)v, n * 8)); }
static bool out_find(const std::string& k, std::string* v) { long o = 0; bool f = false; while (o < sh->outlen) { OutRec r; memcpy(&r, outbuf + o, sizeof r); const char* p = outbuf + o + sizeof r; if (r.klen == k.size() && !memcmp(p, k.data(), r.klen)) { f = true; if (v) v->assign(p + r.klen, r.vlen); } o += sizeof r + r.klen + r.vlen; } return f; }
bool out_has(const std::string& k) { return out_find(k, nullptr); }
std::string out_get(const std::string& k) { std::string v; out_find(k, &v); return v; }
void out_clear() { sh->outlen = 0; }

// ---- lives
// Second line of defence behind the step budget: a life that makes no end in wall time.  If instrumented code
// advances, it is a hang of the code under test; if not, the time goes into a third-party library.
static long g_alarm_steps = -1; static uint64_t g_life_hash;
static void on_alarm(int) {
  if (g_alarm_steps < 0) { g_alarm_steps = g_steps; alarm(5); return; }
  bool adv = g_steps - g_alarm_steps > 1000000; sh->hash = g_life_hash; sh->steps = 0; memset(sh->nops, 0, sizeof sh->nops); sh->allocs = 0;
  sh->lkind = adv ? L_HANG : L_WALL; strcpy(sh->lmsg, adv ? "no end within the wall-clock limit" : ""); sh->done = 1; _exit(79);
}
static void on_exit_hook() { if (g_life && !sh->done) { sh->steps = g_steps; sh->allocs = g_allocs; } }
LifeRes life(const LifeOpt& o, const std::function<int()>& body) {
  sh->lkind = L_DONE; sh->lmsg[0] = 0; sh->steps = 0; sh->allocs = 0; memset(sh->nops, 0, sizeof sh->nops); sh->fired = 0; sh->points = sh->switches = sh->cap_hits = 0; sh->done = 0; sh->rc = 0; 
  ev(0x11fe);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) harness("fork failed: %s", strerror(errno));
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, SIG_DFL);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    g_alarm_steps = -1; g_life_hash = sh->hash; signal(SIGALRM, on_alarm); alarm(o.wall_limit_s);
    if (!g_verbose) { int d = ::open("/dev/null", O_WRONLY); dup2(d, 1); dup2(d, 2); }
    g_opt = o; g_opt.faults.reserve(64);
    g_life = true;
    vfs_life_begin(); sched_life_begin(); misc_life_begin(); dl_life_begin();
    atexit(on_exit_hook);
    g_steps = 0; g_budget = o.step_budget; g_allocs = 0;
    heap_on(g_opt);
    stack_scrub();
    int rc; errno = o.start_errno;
    try { rc = body(); }
    catch (const std::exception& e) { snprintf(sh->lmsg, sizeof sh->lmsg, "exception %s", e.what()); rc = 200; }
    catch (...) { snprintf(sh->lmsg, sizeof sh->lmsg, "exception of another type"); rc = 201; }
    sh->rc = rc; sh->steps = g_steps; sh->allocs = g_allocs;
    if (o.cli_exit) exit(rc);
    sh->done = 1; _exit(rc & 0xff);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  LifeRes r; r.kind = sh->lkind; r.code = 0; r.msg = sh->lmsg; 
  if (r.kind == L_DONE) { if (WIFSIGNALED(st)) { r.kind = L_SIGNAL; r.code = WTERMSIG(st); if (r.code == SIGKILL) harness("a life was killed from outside"); } else r.code = WEXITSTATUS(st); }
  r.steps = sh->steps; memcpy(r.nops, sh->nops, sizeof r.nops); r.allocs = sh->allocs; r.fired = sh->fired; r.points = sh->points; r.switches = sh->switches; r.cap_hits = sh->cap_hits;
  sh->t_lives++; sh->t_steps += r.steps; sh->t_kinds[r.kind]++; sh->t_points += r.points;
  ev(r.kind); ev(r.code); ev(r.steps); ev(r.allocs);
  { char b[400]; snprintf(b, sizeof b, "life %d: %s steps=%ld ops=o%ld/r%ld/w%ld/c%ld fired=%d switches=%ld", sh->life, r.str().substr(0, 200).c_str(), r.steps, r.nops[0], r.nops[1], r.nops[2], r.nops[3], r.fired, r.switches); note("%s", b); }
  sh->life++;
  if (r.kind == L_HARNESS) harness("%s", r.msg.c_str());
  if (r.kind == L_WALL) { if (o.wall_is_discard) discard("a third-party library does not return within the wall-clock limit"); harness("wall-clock limit of a life"); }
  return r;
}
}  // namespace sim
using namespace sim;

struct Tot { long lives = 0, ops[OP_NCLASS] = {0}, steps = 0, fired[F_NKIND] = {0}, allocfail = 0, capfull = 0, switches = 0, points = 0, noise = 0, simns = 0, kinds[L_NKIND] = {0}; std::map<std::string, long> cnt; };
static void reset_shared() {
  sh->hash = g_run_seed; sh->verdict = 0; sh->tag[0] = 0; sh->vmsg[0] = 0; sh->is_nontrivial = 0; sh->life = 0; sh->nknob = 0; sh->nfired = 0; sh->nsw = 0; sh->ndl = 0; sh->dl_def = true; sh->nfiles = 0; sh->disk_top = 0; sh->outlen = 0; sh->ncnt = 0; sh->notelen = 0; sh->notes[0] = 0; sh->nenv = 0;
  sh->t_lives = sh->t_steps = sh->t_allocfail = sh->t_capfull = sh->t_switches = sh->t_points = sh->t_noise = sh->t_simns = 0; memset(sh->t_ops, 0, sizeof sh->t_ops); memset(sh->t_fired, 0, sizeof sh->t_fired); memset(sh->t_kinds, 0, sizeof sh->t_kinds);
}
static int run_one() {
  reset_shared(); g_knobn.clear();
  env_set("ALTA_PLUGIN_PATH", "/plugins");
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    try { scenario(); } catch (const std::exception& e) { fprintf(stderr, "harness exception: %s\n", e.what()); snprintf(sh->vmsg, 300, "harness exception %s", e.what()); sh->verdict = V_HARNESS; _exit(3); }
    _exit(0);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) { sh->verdict = V_HARNESS; snprintf(sh->vmsg, sizeof sh->vmsg, "runner died with signal %d", WTERMSIG(st)); }
  else if (WEXITSTATUS(st) > 1 && sh->verdict == 0) { sh->verdict = V_HARNESS; snprintf(sh->vmsg, sizeof sh->vmsg, "runner exit %d", WEXITSTATUS(st)); }
  if (sh->disk_top > (64 << 20)) madvise(disk, sh->disk_top, MADV_REMOVE);
  if (sh->outlen > (32 << 20)) madvise(outbuf, sh->outlen, MADV_REMOVE);
  return sh->verdict;
}
static void add_tot(Tot& t) {
  t.lives += sh->t_lives; t.steps += sh->t_steps; t.allocfail += sh->t_allocfail; t.capfull += sh->t_capfull; t.switches += sh->t_switches; t.points += sh->t_points; t.noise += sh->t_noise; t.simns += sh->t_simns;
  for (int i = 0; i < OP_NCLASS; ++i) t.ops[i] += sh->t_ops[i]; for (int i = 0; i < F_NKIND; ++i) t.fired[i] += sh->t_fired[i]; for (int i = 0; i < L_NKIND; ++i) t.kinds[i] += sh->t_kinds[i];
  for (int i = 0; i < sh->ncnt; ++i) t.cnt[sh->cnt[i].name] += sh->cnt[i].n;
}
static std::string jesc(const char* s) { std::string o; for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static void emit_run(FILE* f, const char* type) {
  fprintf(f, "{\"type\":\"%s\",\"run\":%ld,\"verdict\":%d,\"hash\":\"%016lx\",\"tag\":\"%s\",\"msg\":\"%s\",\"knobs\":[", type, g_run, sh->verdict, sh->hash, jesc(sh->tag).c_str(), jesc(sh->vmsg).c_str());
  for (int i = 0; i < sh->nknob; ++i) fprintf(f, "%s[\"%s\",%ld,%ld,%ld]", i ? "," : "", sh->knobs[i].name, sh->knobs[i].val, sh->knobs[i].lo, sh->knobs[i].hi);
  fprintf(f, "],\"sched\":["); long n = sh->nsw; if (!(sh->verdict == V_VIOL)) n = n > 50 ? 50 : n; for (long i = 0; i < n; ++i) fprintf(f, "%s[%d,%ld,%d]", i ? "," : "", sh->sw[i].life, sh->sw[i].point, sh->sw[i].thr);
  fprintf(f, "],\"fired\":["); for (int i = 0; i < sh->nfired; ++i) fprintf(f, "%s[%d,%d,%ld,\"%s\",%ld,\"%s\"]", i ? "," : "", sh->firedlog[i].life, sh->firedlog[i].cls, sh->firedlog[i].idx, fault_names[sh->firedlog[i].kind], sh->firedlog[i].arg, jesc(sh->firedlog[i].path).c_str());
  fprintf(f, "],\"notes\":\"%s\"}\n", jesc(sh->notes).c_str()); fflush(f);
}
int main(int argc, char** argv) {
  if (!getenv("SIM_NOASLR")) { if (personality(ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); } }
  static char obuf[4096]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf);   // or its allocation falls into the first life that prints
  long from = 0, n = 1, stride = 1, maxviol = 3; double tmax = 1e9; const char* outf = nullptr; std::string replay; bool one = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--seed") g_seed = strtoull(nx().c_str(), 0, 10); else if (a == "--from") from = atol(nx().c_str()); else if (a == "--n") n = atol(nx().c_str()); else if (a == "--stride") stride = atol(nx().c_str());
    else if (a == "--time") tmax = atof(nx().c_str()); else if (a == "--out") { static std::string o; o = nx(); outf = o.c_str(); } else if (a == "--replay") replay = nx(); else if (a == "--thorough") g_thorough = true;
    else if (a == "--dldir") { char rp[4096]; std::string d = nx(); g_dldir = realpath(d.c_str(), rp) ? rp : d; } else if (a == "--verbose") g_verbose = true; else if (a == "--one") one = true; else if (a == "--maxviol") maxviol = atol(nx().c_str());
  }
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  outbuf = (char*)mmap(0, OUTSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  disk = (char*)mmap(0, DISK_SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED || outbuf == MAP_FAILED || disk == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); return 99; }
  FILE* f = outf ? fopen(outf, "w") : stdout;
  if (!replay.empty()) {
    FILE* rf = fopen(replay.c_str(), "r"); if (!rf) { fprintf(stderr, "no replay file\n"); return 99; }
    char line[65536]; 
    while (fgets(line, sizeof line, rf)) {
      char nm[80]; long v, life, pt, th;
      if (line[0] == '#') continue;
      if (sscanf(line, "seed %lu", &g_seed) == 1) {} else if (sscanf(line, "run %ld", &g_run) == 1) {} else if (sscanf(line, "thorough %ld", &v) == 1) g_thorough = v;
      else if (sscanf(line, "knob %79s %ld", nm, &v) == 2) g_over[nm] = v;
      else if (sscanf(line, "sched %ld %ld %ld", &life, &pt, &th) == 3) { g_swplan[life].explicit_plan = true; g_swplan[life].at[pt] = th; }
      else if (sscanf(line, "explicit_sched %ld", &life) == 1) g_swplan[life].explicit_plan = true;
    }
    fclose(rf);
    g_run_seed = mix64(g_seed ^ mix64(hstr(scenario_id) ^ mix64(g_run)));
    run_one(); emit_run(f, "replay"); return 0;
  }
  Tot t; long done = 0, nt = 0, disc = 0, viol = 0, harn = 0; std::set<uint64_t> hashes; 
  struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); double el = 0;
  for (long i = 0; i < n; ++i) {
    g_run = from + i * stride; g_run_seed = mix64(g_seed ^ mix64(hstr(scenario_id) ^ mix64(g_run)));
    int v = run_one(); done++; add_tot(t);
    if (v == V_OK || v == V_VIOL) { if (sh->is_nontrivial) { nt++; hashes.insert(sh->hash); } }
    else if (v == V_DISCARD) disc++;
    if (v == V_VIOL) { viol++; emit_run(f, "violation"); if (viol >= maxviol) break; }
    else if (v == V_HARNESS) { harn++; emit_run(f, "harness"); if (harn >= 3) break; }
    else if (i < 2 || one) emit_run(f, "sample");
    clock_gettime(CLOCK_MONOTONIC, &t1); el = (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec);
    if (el > tmax) break;
  }
  fprintf(f, "{\"type\":\"summary\",\"runs\":%ld,\"nontrivial\":%ld,\"discarded\":%ld,\"violations\":%ld,\"harness\":%ld,\"distinct\":%zu,\"wall\":%.3f,\"lives\":%ld,\"steps\":%ld,\"allocfail\":%ld,\"capfull\":%ld,\"switches\":%ld,\"points\":%ld,\"noise\":%ld,\"sim_ns\":%ld,", done, nt, disc, viol, harn, hashes.size(), el, t.lives, t.steps, t.allocfail, t.capfull, t.switches, t.points, t.noise, t.simns);
  fprintf(f, "\"ops\":{\"open\":%ld,\"read\":%ld,\"write\":%ld,\"close\":%ld,\"seek\":%ld,\"meta\":%ld,\"dlopen\":%ld},\"faults\":{", t.ops[0], t.ops[1], t.ops[2], t.ops[3], t.ops[4], t.ops[5], t.ops[6]);
  for (int i = 1; i < F_NKIND; ++i) fprintf(f, "%s\"%s\":%ld", i > 1 ? "," : "", fault_names[i], t.fired[i]);
  fprintf(f, "},\"life_ends\":{"); for (int i = 0; i < L_NKIND; ++i) fprintf(f, "%s\"%s\":%ld", i ? "," : "", life_names[i], t.kinds[i]);
  fprintf(f, "},\"counters\":{"); bool first = true; for (auto& k : t.cnt) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", jesc(k.first.c_str()).c_str(), k.second); first = false; }
  fprintf(f, "},\"hashes\":["); first = true; for (auto h : hashes) { fprintf(f, "%s\"%lx\"", first ? "" : ",", h); first = false; }
  fprintf(f, "]}\n"); if (f != stdout) fclose(f);
  return 0;
}
