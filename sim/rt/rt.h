// Runtime of the deterministic simulator.  The runtime itself is never instrumented and never
// includes a header of the code under test.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- PRNG
inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi - lo + 1)); }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  bool chance(double p) { return uni() < p; }
};

// ---------------------------------------------------------------- knobs (controller side only)
// A knob is a named decision. Its value is a pure function of (seed, run, name, occurrence),
// unless the replay file overrides it.
long K(const char* name, long lo, long hi);
inline double KD(const char* name, double lo, double hi) { return lo + (hi - lo) * (double)K(name, 0, 1000000) / 1e6; }
inline bool KB(const char* name, long percent) { return K(name, 0, 99) >= 100 - percent; }   // 0 = "no": shrinks to false
uint64_t run_seed();      // seed of this run (mix of VERIF_SEED, property and run index)
bool thorough();
long run_index();

// ---------------------------------------------------------------- faults
enum OpClass { OP_OPEN = 0, OP_READ, OP_WRITE, OP_CLOSE, OP_SEEK, OP_META, OP_DL, OP_NCLASS };
enum FaultKind {
  F_NONE = 0, F_EIO, F_ENOSPC, F_EACCES, F_EMFILE, F_SHORT /*transparent*/, F_EINTR /*transparent*/,
  F_TORN_EIO /*part of the transfer, then EIO*/, F_TORN_ENOSPC, F_CRASH /*part of the transfer, then the process dies*/,
  F_ENOENT, F_NKIND
};
extern const char* const fault_names[];
struct Fault { int cls; long idx; int kind; long arg; bool sticky; };   // idx: index within its class in that life

struct SchedOpt {
  int nthreads = 1;         // default OpenMP team size
  int mean_log2 = 6;        // mean distance between preemptions, as a power of two
  int policy = 0;           // 0 random, 1 round robin, 2 stall one thread, 3 start late, 4 PCT-like priorities
  uint64_t seed = 0;
  bool race = true;
};

struct LifeOpt {
  int garbage = 0;                 // memory image: 0 zero, 1 bytes 0xbe, 2 plausible doubles, 3 random, 4 NaN, 5 small ints, 6 huge doubles
  uint64_t garbage_seed = 1;
  int noise_read = 0, noise_write = 0, noise_eintr = 0;   // per mille of transfers shortened / interrupted
  uint64_t noise_seed = 1;
  long noise_limit = 1 << 30;      // only the first n transfers are disturbed
  long max_transfer = 0;           // cap of every transfer (0: none)
  std::vector<Fault> faults;
  long disk_cap = -1;              // bytes the disk still takes in this life; -1: unlimited
  long step_budget = 400000000;
  long alloc_fail_at = -1; bool alloc_fail_sticky = false;   // index among allocations after alloc_arm()
  uint64_t rand_seed = 1;
  int64_t mono_start = 1000LL * 1000000000LL, wall_start = 1700000000LL * 1000000000LL;
  SchedOpt sched;
  int wall_limit_s = 40; bool wall_is_discard = false;   // discard: lives that run third-party optimisers
  int start_errno = 0;             // what errno happens to hold
  bool cli_exit = false;           // leave through exit() (as a tool's main does)
};
enum LifeKind { L_DONE = 0, L_SIGNAL, L_HANG, L_MEMERR, L_RACE, L_CRASHED, L_DEADLOCK, L_WALL, L_HARNESS, L_NKIND };
extern const char* const life_names[];
struct LifeRes {
  int kind; int code;              // code: exit status or signal
  std::string msg;
  long steps, nops[OP_NCLASS]; long allocs; int fired; long points; long switches;
  long cap_hits;
  bool loud() const { return (kind == L_DONE && code != 0) || (kind == L_SIGNAL && code == 6); }   // error status, abort/terminate/assert
  bool ok() const { return kind == L_DONE && code == 0; }
  bool died_badly() const { return kind == L_HANG || kind == L_MEMERR || kind == L_RACE || kind == L_DEADLOCK || (kind == L_SIGNAL && code != 6); }
  std::string str() const;
};
LifeRes life(const LifeOpt& o, const std::function<int()>& body);
int life_index();     // index of the next / current life

// Result exchange: bytes put by a life, read by the controller afterwards.
void out_put(const std::string& key, const std::string& val);
void out_num(const std::string& key, double v);
void out_vec(const std::string& key, const double* v, size_t n);
bool out_has(const std::string& key);
std::string out_get(const std::string& key);     // latest value
void out_clear();

// ---------------------------------------------------------------- virtual disk (controller side and inside a life)
void vfs_put(const std::string& name, const std::string& bytes);
bool vfs_get(const std::string& name, std::string& bytes);
bool vfs_exists(const std::string& name);
void vfs_del(const std::string& name);
std::map<std::string, std::string> vfs_snapshot();
void vfs_restore(const std::map<std::string, std::string>&);
int vfs_open_count();      // descriptors open now (inside a life)
long vfs_op_count(int cls);
void vfs_set_unreadable(const std::string& name, long from);   // reads at or beyond `from` fail with EIO (-1: none)

// ---------------------------------------------------------------- plugin tree
// Path (as given to dlopen) -> what is there. Default (no table): <dir>/libX.so is the freshly built libX.so.
enum { DL_MISSING = 0, DL_REAL, DL_CORRUPT, DL_NOSYM };
void dl_default(bool on);
void dl_put(const std::string& path, int what, const std::string& real_name);
void dl_clear();
std::string dl_dir();      // where the built plugins are
int dl_requests();
void env_set(const char* name, const char* val /*NULL unset*/);

// ---------------------------------------------------------------- inside a life
bool in_life();
void alloc_arm(bool on);
int (*tool_main(const std::string& name))(int, char**);   // main() of a command-line tool built as a shared object
// Replaces the faults (and free disk space) of the running life; operation indices count from now.
void faults_arm(const LifeOpt& o);
void faults_disarm();
long dl_op_count(); long alloc_count();
long heap_live_bytes(); long heap_live_blocks();   // allocated and not yet released
void heap_trace_begin(); void heap_trace_end();   // with SIM_BT set: prints where what is still held was allocated
void stack_scrub();
void clock_advance(int64_t ns);          // both clocks
void wall_jump(int64_t ns);
void par_run(int n, const std::function<void(int)>& fn);   // n managed threads, joined
void set_rand(uint64_t s);
void check_range(const void* p, size_t n, bool write);
[[noreturn]] void life_abort(int kind, const char* fmt, ...);
long cur_steps();
void ev(uint64_t v);                     // mix into the event hash
void evs(const char* s);

// ---------------------------------------------------------------- verdicts (controller side)
[[noreturn]] void violation(const char* tag, const char* fmt, ...);   // tag: class of violation; stable under minimisation
[[noreturn]] void discard(const char* why);        // the run is trivial; not counted as non-trivial
void nontrivial();                                 // the run exercised what the property is about
void count(const char* what, long n = 1);          // free-form evidence counters
void note(const char* fmt, ...);                   // appended to the trace

}  // namespace sim

// supplied by the property's workload
void scenario();
extern const char* const scenario_id;
