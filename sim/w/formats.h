// Measured-material formats: construction, files, comparison.
#pragma once
#include "w/common.h"
enum Fmt { FM_GRID, FM_SLICE, FM_UTIA, FM_UTIA_EXR, FM_MERL, FM_ASTM, FM_N };
static const char* const fmt_name[] = {"grid", "BRDF slice", "UTIA", "UTIA image", "MERL", "ASTM"};
static const char* const fmt_plugin[] = {"data_grid", "data_brdf_slice", "data_utia", "data_utia", "data_merl", "data_astm"};
static const char* const fmt_ext[] = {".dat", ".exr", ".bin", ".exr", ".binary", ".astm"};
struct FmtSpec {
  int f = FM_GRID; long seed = 1; int style = 0; int W = 4, H = 3; std::string args, file;
  alta::params::input pin = alta::params::STARK_2D; alta::params::output pout = alta::params::RGB_COLOR; int nx = 2, ny = 3; std::vector<int> shape; int n = 4;
};
static const struct { const char* name; alta::params::input p; int dim; } grid_params[] = {{"COS_TH", alta::params::COS_TH, 1}, {"COS_TH_TD", alta::params::COS_TH_TD, 2}, {"RUSIN_TH_TD", alta::params::RUSIN_TH_TD, 2}, {"STARK_2D", alta::params::STARK_2D, 2}, {"ISOTROPIC_TV_PROJ_DPHI", alta::params::ISOTROPIC_TV_PROJ_DPHI, 2}, {"RUSIN_TH_TD_PD", alta::params::RUSIN_TH_TD_PD, 3}, {"STARK_3D", alta::params::STARK_3D, 3}};
static const char* const slice_params[] = {"STARK_2D", "RUSIN_TH_TD", "COS_TH_TD", "ISOTROPIC_TV_PROJ_DPHI", "RUSIN_TH_TD_PD", "ISOTROPIC_TV_TL_DPHI", "ISOTROPIC_TL_TV_PROJ_DPHI", "SCHLICK_TL_TK_PROJ_DPHI"};
// merl_pct: 35 MB files, so only now and then
inline FmtSpec gen_fmt(const char* p, int utia_pct, int merl_pm, bool astm) {
  FmtSpec s; std::string n(p); long w = K((n + ".fmt").c_str(), 0, 999);
  s.f = w < 1000 - merl_pm - utia_pct * 10 ? (int)K((n + ".small").c_str(), 0, astm ? 2 : 1) : w < 1000 - merl_pm ? (int)K((n + ".utia").c_str(), FM_UTIA, FM_UTIA_EXR) : FM_MERL;
  if (s.f == 2 && w < 1000 - merl_pm - utia_pct * 10) s.f = FM_ASTM;
  s.seed = K((n + ".seed").c_str(), 1, 1000000000); s.style = (int)K((n + ".style").c_str(), 0, 3);
  if (s.f == FM_GRID) {
    auto& g = grid_params[K((n + ".grid").c_str(), 0, 6)]; s.pin = g.p; s.nx = g.dim; s.args = std::string("--param ") + g.name;
    int o = (int)K((n + ".pout").c_str(), 0, 2); s.pout = o == 0 ? alta::params::RGB_COLOR : o == 1 ? alta::params::INV_STERADIAN : alta::params::UNKNOWN_OUTPUT; s.ny = o == 0 ? 3 : o == 1 ? 1 : (int)K((n + ".ny").c_str(), 1, 4);
    s.args += " --grid-size ["; for (int i = 0; i < s.nx; ++i) { int k = (int)K((n + ".shape").c_str(), 2, s.nx == 3 ? 7 : 12); s.shape.push_back(k); s.args += (i ? ", " : "") + std::to_string(k); } s.args += "]";
  } else if (s.f == FM_SLICE) { s.W = (int)K((n + ".w").c_str(), 1, 24); s.H = (int)K((n + ".h").c_str(), 1, 24); s.args = std::string("--param ") + slice_params[K((n + ".sparam").c_str(), 0, 7)]; }
  else if (s.f == FM_UTIA_EXR) { s.W = s.H = 288; }
  else if (s.f == FM_ASTM) { s.nx = (int)K((n + ".anx").c_str(), 3, 4); s.ny = KB((n + ".integrated").c_str(), 40) ? 1 : 3; s.n = (int)K((n + ".n").c_str(), 1, 30); }
  s.file = std::string("m") + fmt_ext[s.f]; return s;
}
inline double fmt_value(Rng& r, int style) { switch (style) { case 0: return r.uni(); case 1: return r.uni(0, 1000); case 2: return (double)r.range(0, 9); default: return r.uni(1, 10) * std::pow(10.0, (double)r.range(-12, 12)); } }
// A plain uncompressed scan-line OpenEXR image with float channels B, G, R.
inline std::string make_exr(int W, int H, long seed, int style) {
  std::string b; auto i32 = [&](int v) { b.append((char*)&v, 4); }; auto str = [&](const char* s) { b.append(s); b.push_back(0); };
  i32(20000630); i32(2);
  str("channels"); str("chlist"); i32(3 * 18 + 1); for (const char* c : {"B", "G", "R"}) { str(c); i32(2); i32(0); i32(1); i32(1); } b.push_back(0);
  str("compression"); str("compression"); i32(1); b.push_back(0);
  str("dataWindow"); str("box2i"); i32(16); i32(0); i32(0); i32(W - 1); i32(H - 1);
  str("displayWindow"); str("box2i"); i32(16); i32(0); i32(0); i32(W - 1); i32(H - 1);
  str("lineOrder"); str("lineOrder"); i32(1); b.push_back(0);
  str("pixelAspectRatio"); str("float"); i32(4); { float f = 1; b.append((char*)&f, 4); }
  str("screenWindowCenter"); str("v2f"); i32(8); i32(0); i32(0);
  str("screenWindowWidth"); str("float"); i32(4); { float f = 1; b.append((char*)&f, 4); }
  b.push_back(0);
  size_t tab = b.size(), line = 8 + (size_t)W * 12; b.resize(tab + 8 * (size_t)H);
  for (int y = 0; y < H; ++y) { uint64_t off = b.size(); memcpy(&b[tab + 8 * (size_t)y], &off, 8); i32(y); i32(W * 12); Rng r(seed * 4096 + y); for (int k = 0; k < 3 * W; ++k) { float f = (float)fmt_value(r, style); b.append((char*)&f, 4); } }
  return b;
}
inline std::string make_astm(const FmtSpec& s) {
  std::ostringstream o; o.precision(12); o << "NAME test\n" << "NUM_POINTS " << s.n << "\n" << "VARS " << (s.nx == 4 ? "theta_i,phi_i,theta_s,phi_s" : "theta_i,theta_s,phi_s") << (s.ny == 1 ? ",Integrated" : ",R,G,B") << "\n";
  Rng r(s.seed); for (int i = 0; i < s.n; ++i) for (int k = 0; k < s.nx + s.ny; ++k) o << fmt_value(r, s.style) << (k + 1 < s.nx + s.ny ? "," : "\n");
  return o.str();
}
inline std::string make_merl(long seed, int style) {
  int d[3] = {90, 90, 180}; size_t n = 3 * 1458000; std::string b(12 + n * 8, 0); memcpy(&b[0], d, 12); Rng r(seed); for (size_t i = 0; i < n; ++i) { double v = fmt_value(r, style); memcpy(&b[12 + 8 * i], &v, 8); } return b;
}
inline std::string make_utia(long seed, int style) { size_t n = 3 * 82944; std::string b(n * 8, 0); Rng r(seed); for (size_t i = 0; i < n; ++i) { double v = fmt_value(r, style); memcpy(&b[8 * i], &v, 8); } return b; }
// Puts a file of the format on the disk without running any code under test (not for grids). The controller may call it.
inline std::string fmt_bytes(const FmtSpec& s) {
  switch (s.f) { case FM_SLICE: case FM_UTIA_EXR: return make_exr(s.W, s.H, s.seed, s.style); case FM_UTIA: return make_utia(s.seed, s.style); case FM_MERL: return make_merl(s.seed, s.style); case FM_ASTM: return make_astm(s); default: return ""; }
}
// Keeps the number of transfers of the big files within reason.
inline LifeOpt benign_for(const FmtSpec& s, const char* p) {
  LifeOpt o = benign(p); long min = s.f == FM_MERL ? 65536 : s.f >= FM_UTIA && s.f != FM_ASTM ? 512 : 0;
  if (o.max_transfer && o.max_transfer < min) o.max_transfer = min; return o;
}
// ---- inside a life
inline ptr<alta::data> fmt_load(const FmtSpec& s, const std::string& file) {
  if (s.f == FM_GRID) return alta::plugins_manager::load_data(file, "", mkargs(""));   // its files are read back by the native reader
  return alta::plugins_manager::load_data(file, fmt_plugin[s.f], mkargs(s.args));
}
// A container filled through its public interface (the big ones only partly, the rest stays zero).
inline ptr<alta::data> fmt_make(const FmtSpec& s) {
  alta::parameters p(s.nx, s.ny, s.pin, s.pout);
  ptr<alta::data> d = alta::plugins_manager::get_data(fmt_plugin[s.f], 0, p, mkargs(s.args)); if (!d) return d;
  Rng r(s.seed); int n = d->size(), nx = d->parametrization().dimX(), ny = d->parametrization().dimY(); int m = n <= 3000 ? n : 3000;
  for (int i = 0; i < m; ++i) { int id = n <= 3000 ? i : i < 4 ? i * (n - 1) / 3 : (int)r.below(n); vec x = d->get(id); for (int k = 0; k < ny; ++k) x[nx + k] = fmt_value(r, s.style); d->set(id, x); }
  return d;
}
inline uint64_t fold(uint64_t h, double v, bool as_float) { uint64_t b = 0; if (v == 0) v = 0; if (as_float) { float f = (float)v; memcpy(&b, &f, 4); } else memcpy(&b, &v, 8); return sim::mix64(h ^ b); }
// Everything stored: shape, a digest of every block of samples, some samples in full and the values looked up at their coordinates.
inline void put_fmt(const std::string& key, const FmtSpec& s, const alta::data& d, int full = 60) {
  auto& q = d.parametrization(); int nx = q.dimX(), ny = q.dimY(), n = d.size();
  double h[5] = {(double)n, (double)nx, (double)ny, (double)q.input_parametrization(), (double)q.output_parametrization()}; sim::out_vec(key + ".h", h, 5);
  std::vector<double> blocks, v; bool flt = s.f == FM_SLICE || s.f == FM_UTIA_EXR, text = s.f == FM_GRID; int step = n > 500000 ? 37 : n > 50000 ? 7 : 1;
  uint64_t acc = 0; int in = 0;
  for (int i = (int)(s.seed % step); i < n; i += step) { vec x = d.get(i); sim::check_range(x.data(), x.size() * 8, false); if (!text) for (int k = 0; k < ny; ++k) acc = fold(acc, x[nx + k], flt); else for (int k = 0; k < x.size(); ++k) v.push_back(x[k]); if (++in == 512) { blocks.push_back((double)(acc >> 12)); acc = 0; in = 0; } }
  blocks.push_back((double)(acc >> 12));
  Rng r(s.seed + 5); if (!text) for (int i = 0; i < full; ++i) { int id = i == 0 ? 0 : i == 1 ? n - 1 : (int)r.below(n); vec x = d.get(id); for (int k = 0; k < x.size(); ++k) v.push_back(x[k]); if (s.f == FM_MERL || s.f == FM_UTIA || (s.f == FM_UTIA_EXR && s.style != 3) || (s.f == FM_SLICE && nx == 2)) {   /* style 3: sums that cancel amplify the rounding of the image */ vec y = d.value(x.head(nx)); for (int k = 0; k < y.size(); ++k) v.push_back(y[k]); } }
  sim::out_vec(key + ".b", blocks.data(), blocks.size()); sim::out_vec(key + ".v", v.data(), v.size());
}
struct FmtDump { std::vector<double> h, b, v; };
inline bool get_fmt(const std::string& key, FmtDump& d) { if (!sim::out_has(key + ".v")) return false; d.h = get_vecd(key + ".h"); d.b = get_vecd(key + ".b"); d.v = get_vecd(key + ".v"); return true; }
inline std::string diff_fmt(const FmtDump& a, const FmtDump& b, double rel, bool blocks) {
  char m[300]; static const char* hn[] = {"sample count", "input dimension", "output dimension", "input parametrization", "output parametrization"};
  for (int i = 0; i < 5; ++i) if (a.h[i] != b.h[i]) { snprintf(m, sizeof m, "%s is %d, was %d", hn[i], (int)b.h[i], (int)a.h[i]); return m; }
  if (a.v.size() != b.v.size()) return "another number of values";
  for (size_t i = 0; i < a.v.size(); ++i) if (!(rel == 0 ? same_bits(a.v[i], b.v[i]) : close_rel(a.v[i], b.v[i], rel))) { snprintf(m, sizeof m, "value %zu of the listing is %.17g, was %.17g", i, b.v[i], a.v[i]); return m; }
  if (blocks) for (size_t i = 0; i < a.b.size() && i < b.b.size(); ++i) if (a.b[i] != b.b[i]) { snprintf(m, sizeof m, "block %zu of stored values changed", i); return m; }
  return "";
}
