// Shared by the workloads. Compiled with the same instrumentation as the code under test.
#pragma once
#include "rt/rt.h"
#include <core/args.h>
#include <core/common.h>
#include <core/data.h>
#include <core/data_storage.h>
#include <core/fitter.h>
#include <core/function.h>
#include <core/rational_function.h>
#include <core/params.h>
#include <core/plugins_manager.h>
#include <core/vertical_segment.h>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <iostream>
#include <memory>
#include <stdexcept>
using alta::ptr; using sim::K; using sim::KD; using sim::KB; using sim::LifeOpt; using sim::LifeRes; using sim::Rng; using sim::violation;

// Draws a random but benign environment: memory image, transparent I/O disturbances, clock, rand seed.
inline LifeOpt benign(const char* p, bool io = true) {
  LifeOpt o; std::string n(p);
  o.garbage = (int)K((n + ".mem").c_str(), 0, 6); o.garbage_seed = K((n + ".memseed").c_str(), 1, 1000000);
  if (io) {
    int lvl = (int)K((n + ".io").c_str(), 0, 4);
    o.noise_seed = K((n + ".ioseed").c_str(), 1, 1000000);
    if (lvl == 1) { o.noise_read = 100; o.noise_write = 100; o.noise_eintr = 50; }
    if (lvl == 2) { o.noise_read = 900; o.noise_write = 900; }
    if (lvl == 3) { o.noise_eintr = 400; o.noise_read = 300; o.noise_write = 300; }
    if (lvl == 4) { o.max_transfer = K((n + ".cap").c_str(), 0, 5) ? (long)1 << K((n + ".capbits").c_str(), 4, 12) : 0; o.noise_read = 200; o.noise_write = 200; }
  }
  static const int errnos[] = {0, ENOENT, EINTR, ENOTTY, ERANGE}; o.start_errno = errnos[K((n + ".errno").c_str(), 0, 4)];
  o.rand_seed = K((n + ".rand").c_str(), 1, 1000000);
  o.mono_start = 1000000000LL * K((n + ".mono").c_str(), 1, 10000000);
  o.wall_start = 1000000000LL * K((n + ".wall").c_str(), 1000000000, 2000000000);
  return o;
}
inline alta::arguments mkargs(const std::string& s) { return alta::arguments::create_arguments(s); }

// ---------------------------------------------------------------- datasets
struct DataSpec {
  int nx = 1, ny = 1, n = 0; alta::params::input pin = alta::params::UNKNOWN_INPUT; alta::params::output pout = alta::params::UNKNOWN_OUTPUT;
  int kind = 0;                    // ci_kind
  std::vector<double> v;           // n rows of nx + ny + kind*ny
  int cols() const { return nx + ny + kind * ny; }
};
// The input parametrizations the library gives a name and a dimension.
static const alta::params::input all_inputs[] = {alta::params::COS_TH, alta::params::COS_TK, alta::params::COS_TLV, alta::params::COS_TLR, alta::params::RUSIN_TH_TD, alta::params::COS_TH_TD, alta::params::ISOTROPIC_TV_PROJ_DPHI, alta::params::STARK_2D, alta::params::NEUMANN_2D, alta::params::RUSIN_TH_TD_PD, alta::params::ISOTROPIC_TV_TL_DPHI, alta::params::RUSIN_VH, alta::params::SCHLICK_VK, alta::params::ISOTROPIC_TL_TV_PROJ_DPHI, alta::params::SCHLICK_TL_TK_PROJ_DPHI, alta::params::RETRO_TL_TVL_PROJ_DPHI, alta::params::STARK_3D, alta::params::NEUMANN_3D, alta::params::RUSIN_TH_PH_TD_PD, alta::params::SPHERICAL_TL_PL_TV_PV, alta::params::STEREOGRAPHIC, alta::params::CARTESIAN};
static const int input_dims[] = {1, 1, 1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 4, 4, 4, 6};
enum { N_INPUTS = sizeof(all_inputs) / sizeof(*all_inputs) };
static const alta::params::output all_outputs[] = {alta::params::INV_STERADIAN, alta::params::INV_STERADIAN_COSINE_FACTOR, alta::params::ENERGY, alta::params::RGB_COLOR, alta::params::XYZ_COLOR};

inline double gen_value(Rng& r, int style) {
  switch (style) {
    case 0: return r.uni();
    case 1: return r.uni(-10, 10);
    case 2: return (double)r.range(-5, 5);
    case 3: { double m = r.uni(1, 10) * std::pow(10.0, (double)r.range(-30, 28)); return r.chance(0.5) ? m : -m; }
    default: { static const double sp[] = {0.0, 1.0, -1.0, 0.1, 1e-30, 1e30, -1e30, 3.0, 0.3333333333333333, 2.2250738585072014e-308, 1e-15, 123456789.123456789}; return sp[r.below(12)]; }
  }
}
inline DataSpec gen_data(const char* p, int nmax, bool with_ci, int style_max = 4) {
  DataSpec s; std::string n(p);
  int pk = (int)K((n + ".pin").c_str(), 0, N_INPUTS);     // 0: unknown
  if (pk == 0) { s.nx = (int)K((n + ".nx").c_str(), 1, 6); } else { s.pin = all_inputs[pk - 1]; s.nx = input_dims[pk - 1]; }
  int ok = (int)K((n + ".pout").c_str(), 0, 5);
  if (ok) { s.pout = all_outputs[ok - 1]; s.ny = ok >= 4 ? 3 : 1; }
  if (!ok || KB((n + ".nyfree").c_str(), 20)) s.ny = (int)K((n + ".ny").c_str(), 1, 6);
  int sz = (int)K((n + ".size").c_str(), 0, 3);
  s.n = (int)(sz == 0 ? K((n + ".n").c_str(), 1, 4) : sz == 1 ? K((n + ".n").c_str(), 1, 40) : K((n + ".n").c_str(), 1, nmax));
  s.kind = with_ci ? (int)K((n + ".ci").c_str(), 0, 2) : 0;
  int style = (int)K((n + ".style").c_str(), 0, style_max); Rng r(K((n + ".seed").c_str(), 1, 1000000000));
  s.v.resize((size_t)s.n * s.cols());
  for (auto& x : s.v) x = gen_value(r, style);
  return s;
}
inline void del_arr(double* p) { delete[] p; }
inline ptr<alta::vertical_segment> make_vs(const DataSpec& s) {
  double* m = new double[s.v.size() ? s.v.size() : 1]; memcpy(m, s.v.data(), s.v.size() * 8);
  alta::parameters p(s.nx, s.ny, s.pin, s.pout);
  return ptr<alta::vertical_segment>(new alta::vertical_segment(p, s.n, std::shared_ptr<double>(m, del_arr), (alta::vertical_segment::ci_kind)s.kind));
}
// The observable content of a dataset.
struct Dump {
  int n, nx, ny, pin, pout, kind; std::vector<double> v, ci; 
};
inline void put_dump(const std::string& key, const alta::data& d) {
  std::vector<double> h, v;
  auto vsp = dynamic_cast<const alta::vertical_segment*>(&d);
  h.push_back(d.size()); h.push_back(d.parametrization().dimX()); h.push_back(d.parametrization().dimY());
  h.push_back(d.parametrization().input_parametrization()); h.push_back(d.parametrization().output_parametrization());
  h.push_back(vsp ? vsp->confidence_interval_kind() : -1);
  for (int i = 0; i < d.size(); ++i) { vec x = d.get(i); sim::check_range(x.data(), x.size() * 8, false); for (int k = 0; k < x.size(); ++k) v.push_back(x[k]); }
  sim::out_vec(key + ".h", h.data(), h.size()); sim::out_vec(key + ".v", v.data(), v.size());
  if (vsp) { auto m = vsp->matrix_view(); sim::check_range(m.data(), m.size() * 8, false); sim::out_vec(key + ".ci", m.data(), m.size()); }
}
inline std::vector<double> get_vecd(const std::string& key) { std::string s = sim::out_get(key); std::vector<double> v(s.size() / 8); if (!v.empty()) memcpy(v.data(), s.data(), v.size() * 8); return v; }
inline bool get_dump(const std::string& key, Dump& d) {
  if (!sim::out_has(key + ".h")) return false;
  auto h = get_vecd(key + ".h"); if (h.size() != 6) return false;
  d.n = h[0]; d.nx = h[1]; d.ny = h[2]; d.pin = h[3]; d.pout = h[4]; d.kind = h[5]; d.v = get_vecd(key + ".v"); d.ci = get_vecd(key + ".ci"); return true;
}
inline bool same_bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
inline bool close_rel(double a, double b, double rel) { if (same_bits(a, b)) return true; if (a == b) return true; if (std::isnan(a) && std::isnan(b)) return true; double m = std::max(std::fabs(a), std::fabs(b)); return std::fabs(a - b) <= rel * m; }
// "" if equal
inline std::string diff_dump(const Dump& a, const Dump& b, double rel, bool ci) {
  char m[400];
#define DD(f) if (a.f != b.f) { snprintf(m, sizeof m, #f " is %d, was %d", (int)b.f, (int)a.f); return m; }
  DD(n) DD(nx) DD(ny) DD(pin) DD(pout)
  if (ci) { DD(kind) }
#undef DD
  if (a.v.size() != b.v.size()) { snprintf(m, sizeof m, "value count is %zu, was %zu", b.v.size(), a.v.size()); return m; }
  for (size_t i = 0; i < a.v.size(); ++i) if (rel == 0 ? !same_bits(a.v[i], b.v[i]) : !close_rel(a.v[i], b.v[i], rel)) { snprintf(m, sizeof m, "value %zu of sample %zu is %.17g, was %.17g", i % (a.nx + a.ny), i / (a.nx + a.ny), b.v[i], a.v[i]); return m; }
  if (ci) { if (a.ci.size() != b.ci.size()) return "confidence interval size differs"; for (size_t i = 0; i < a.ci.size(); ++i) if (!same_bits(a.ci[i], b.ci[i])) { snprintf(m, sizeof m, "interval entry %zu is %.17g, was %.17g", i, b.ci[i], a.ci[i]); return m; } }
  return "";
}
// Save in native binary the way the tools do.
inline bool save_binary(const alta::data& d, const std::string& fn) {
  std::ofstream f; f.exceptions(std::ios_base::failbit | std::ios_base::badbit); f.open(fn.c_str(), std::ios_base::binary | std::ios_base::trunc);
  alta::save_data_as_binary(f, d); f.close(); return true;
}

// ---------------------------------------------------------------- faults
// Draws one disturbance of a life that writes, given the undisturbed life. Returns a description.
inline std::string draw_write_fault(const char* p, LifeOpt& o, const LifeRes& ref, long bytes) {
  std::string n(p); char b[200]; using namespace sim;
  int mode = (int)K((n + ".mode").c_str(), 0, 5);
  if (ref.nops[OP_META] > 0 && KB((n + ".metaop").c_str(), 30)) { static const int k[] = {F_EIO, F_ENOSPC, F_EACCES}; Fault f{OP_META, K((n + ".meta").c_str(), 0, ref.nops[OP_META] - 1), k[K((n + ".mkind").c_str(), 0, 2)], 0, KB((n + ".sticky").c_str(), 30)}; o.faults.push_back(f); snprintf(b, sizeof b, "rename, sync or removal %ld fails with %s", f.idx, fault_names[f.kind]); return b; }
  static const int wk[] = {F_EIO, F_ENOSPC, F_TORN_EIO, F_TORN_ENOSPC};
  if (mode == 0 || mode == 1) { o.disk_cap = K((n + ".cap").c_str(), 0, bytes > 0 ? bytes - 1 : 0); snprintf(b, sizeof b, "disk full after %ld of %ld bytes", o.disk_cap, bytes); return b; }
  if (mode == 4 && ref.nops[OP_OPEN] > 0) { static const int k[] = {F_EACCES, F_EMFILE, F_ENOSPC, F_EIO}; Fault f{OP_OPEN, K((n + ".open").c_str(), 0, ref.nops[OP_OPEN] - 1), k[K((n + ".okind").c_str(), 0, 3)], 0, KB((n + ".sticky").c_str(), 30)}; o.faults.push_back(f); snprintf(b, sizeof b, "open %ld fails with %s", f.idx, fault_names[f.kind]); return b; }
  if (mode == 5 && ref.nops[OP_CLOSE] > 0) { Fault f{OP_CLOSE, K((n + ".close").c_str(), 0, ref.nops[OP_CLOSE] - 1), KB((n + ".ckind").c_str(), 50) ? F_ENOSPC : F_EIO, K((n + ".lost").c_str(), 0, 100000), false}; o.faults.push_back(f); snprintf(b, sizeof b, "close %ld fails with %s", f.idx, fault_names[f.kind]); return b; }
  Fault f{OP_WRITE, K((n + ".write").c_str(), 0, ref.nops[OP_WRITE] > 0 ? ref.nops[OP_WRITE] - 1 : 0), wk[K((n + ".wkind").c_str(), 0, 3)], K((n + ".torn").c_str(), 0, 100000), KB((n + ".sticky").c_str(), 50)};
  o.faults.push_back(f); snprintf(b, sizeof b, "write %ld fails with %s%s", f.idx, fault_names[f.kind], f.sticky ? " from then on" : ""); return b;
}
// What a crash, a lost write or an interrupted copy leaves of a file. Returns a description. `alt`: an older content of the same file.
enum DamageKind { DMG_TRUNC, DMG_TRUNC_NEAR_END, DMG_ZERO, DMG_STALE, DMG_RANDOM, DMG_STALE_TAIL, DMG_NKIND };
inline std::string damage(const char* p, std::string& b, const std::string& alt, int maxkind, int& kind, size_t& from, size_t& to) {
  std::string n(p); char m[200]; kind = (int)K((n + ".dmg").c_str(), 0, maxkind); long sz = (long)b.size(); if (sz == 0) { kind = DMG_TRUNC; from = to = 0; return "empty file"; }
  if (kind == DMG_TRUNC || kind == DMG_TRUNC_NEAR_END) {
    long c = kind == DMG_TRUNC ? K((n + ".len").c_str(), 0, sz - 1) : std::max(0L, sz - K((n + ".cut").c_str(), 1, 40)); b.resize(c); from = to = c;
    snprintf(m, sizeof m, "cut after %ld of %ld bytes", c, sz); return m;
  }
  if (kind == DMG_STALE_TAIL) { long c = K((n + ".len").c_str(), 0, sz - 1); std::string r = b.substr(0, c) + ((long)alt.size() > c ? alt.substr(c) : ""); from = c; to = std::max(r.size(), b.size()); b = r; snprintf(m, sizeof m, "from byte %ld on an older content (%zu bytes)", c, r.size()); return m; }
  long a = K((n + ".from").c_str(), 0, sz - 1), len = K((n + ".span").c_str(), 0, 2) == 2 ? K((n + ".lenl").c_str(), 1, 4096) : K((n + ".lens").c_str(), 1, 24);
  if (KB((n + ".sector").c_str(), 30)) { a = a / 512 * 512; len = 512; }
  long e = std::min(sz, a + len); from = a; to = e; Rng r(K((n + ".dseed").c_str(), 1, 1000000)); int text = (int)K((n + ".alpha").c_str(), 0, 1);
  for (long i = a; i < e; ++i) b[i] = kind == DMG_ZERO ? 0 : kind == DMG_STALE ? (i < (long)alt.size() ? alt[i] : 0) : text ? "0123456789.eE-+ \t\n#["[r.below(20)] : (char)r.next();
  snprintf(m, sizeof m, "bytes %ld to %ld %s", a, e, kind == DMG_ZERO ? "zeroed (lost write)" : kind == DMG_STALE ? "of an older content" : "garbled"); return m;
}
// Draws a storage failure while reading. Returns a description ("" : none).
inline std::string draw_read_fault(const char* p, LifeOpt& o, const LifeRes& ref) {
  std::string n(p); char b[200]; using namespace sim; o.max_transfer = o.max_transfer;
  int mode = (int)K((n + ".rmode").c_str(), 0, 3);
  if (mode == 3 && ref.nops[OP_OPEN] > 0) { static const int k[] = {F_EACCES, F_EMFILE, F_ENOENT, F_EIO}; Fault f{OP_OPEN, K((n + ".open").c_str(), 0, ref.nops[OP_OPEN] - 1), k[K((n + ".okind").c_str(), 0, 3)], 0, KB((n + ".sticky").c_str(), 30)}; o.faults.push_back(f); snprintf(b, sizeof b, "open %ld fails with %s", f.idx, fault_names[f.kind]); return b; }
  Fault f{OP_READ, K((n + ".read").c_str(), 0, ref.nops[OP_READ] > 0 ? ref.nops[OP_READ] - 1 : 0), KB((n + ".torn").c_str(), 50) ? F_TORN_EIO : F_EIO, K((n + ".part").c_str(), 0, 100000), KB((n + ".sticky").c_str(), 50)};
  o.faults.push_back(f); snprintf(b, sizeof b, "read %ld fails with %s%s", f.idx, fault_names[f.kind], f.sticky ? " from then on" : ""); return b;
}
// The same operation under several memory images must have the same outcome.
inline bool same_kind(const LifeRes& a, const LifeRes& b) { return a.ok() == b.ok() && a.loud() == b.loud(); }
