// D05: a measured container answers with the samples it holds, through any history of changes, saves and restarts.
#include "w/formats.h"
extern const char* const scenario_id = "D05";
namespace {
typedef std::vector<double> V;
enum { O_SET, O_GET, O_AT, O_CELL, O_BETWEEN, O_OUT, O_WILD };
struct Op { int k, id; V y, u; };
// What the container must hold.
struct Ref {
  FmtSpec s; std::string bytes; bool loaded; std::map<int, V> set; bool rounded = false; int n, nx, ny; V lo, hi;
  double base(int id, int k) const {
    if (!loaded) return 0; double v;
    if (s.f == FM_UTIA) { memcpy(&v, &bytes[8 * ((size_t)k * 82944 + id)], 8); return v; }
    if (s.f == FM_MERL) { static const double sc[] = {1.0 / 1500, 1.15 / 1500, 1.66 / 1500}; memcpy(&v, &bytes[12 + 8 * ((size_t)k * 1458000 + id)], 8); return v * sc[k]; }
    int W = s.W, x = id % W, y = id / W; size_t line = 8 + (size_t)W * 12, data = bytes.size() - line * s.H; float f; memcpy(&f, &bytes[data + line * y + 8 + 4 * ((size_t)(2 - k) * W + x)], 4); return f; }
  double at(int id, int k) const { auto i = set.find(id); double v = i == set.end() ? base(id, k) : i->second[k]; return rounded ? (double)(float)v : v; }
};
bool is_slice(int f) { return f == FM_SLICE; }
std::string txt(const V& v) { std::string r; char b[40]; for (double x : v) { snprintf(b, sizeof b, "%s%.17g", r.empty() ? "" : ", ", x); r += b; } return r; }
// Coordinates of a sample, or of a point `u` (-0.5..0.5 of a cell around it).
V coords(const Ref& r, int id, const V* u) {
  auto du = [&](int k) { return u ? (*u)[k] * 0.8 : 0.0; };
  if (r.s.f == FM_MERL) { double c = id % 180 + 0.5 + du(2), b = id / 180 % 90 + 0.5 + du(1), a = id / 16200 + 0.5 + du(0); return {a * a / 8100 * M_PI / 2, b / 90 * M_PI / 2, c / 180 * M_PI}; }
  if (r.s.f == FM_UTIA || r.s.f == FM_UTIA_EXR) { double d = M_PI / 180; int i = id; V x(4); x[3] = d * 7.5 * (i % 48); i /= 48; x[2] = d * 15 * (i % 6); i /= 6; x[1] = d * 7.5 * (i % 48); i /= 48; x[0] = d * 15 * (i % 6); return x; }
  if (r.s.f == FM_GRID) { V x(r.nx); int N = id; for (int k = r.nx - 1; k >= 0; --k) { int m = r.s.shape[k]; x[k] = r.lo[k] + (r.hi[k] - r.lo[k]) * (N % m) / (m - 1); N /= m; } return x; }
  // slices: pixel centres over the first two coordinates, in reverse order for the projected parametrizations
  bool rev = r.s.args.find("ISOTROPIC_TL_TV_PROJ_DPHI") != std::string::npos || r.s.args.find("SCHLICK_TL_TK_PROJ_DPHI") != std::string::npos;
  V x(r.nx); x[0] = (id % r.s.W + 0.5 + du(0)) / r.s.W * (r.hi[0] - r.lo[0]) + r.lo[0]; x[1] = (id / r.s.W + 0.5 + du(1)) / r.s.H * (r.hi[1] - r.lo[1]) + r.lo[1]; if (r.nx == 3) x[2] = M_PI / 2;
  if (rev) std::reverse(x.begin(), x.end()); return x;
}
// Multilinear interpolation between the samples around a point, on a regular grid.
V between(const Ref& r, const V& pos, const std::vector<int>& shape, const std::vector<bool>& wrap, double& mag) {
  int D = (int)shape.size(); V y(r.ny, 0.0); mag = 0;
  for (int c = 0; c < 1 << D; ++c) { double w = 1; int id = 0; for (int k = 0; k < D; ++k) { int b = (int)std::floor(pos[k]); if (!wrap[k]) b = std::max(0, std::min(b, shape[k] - 2)); double f = pos[k] - b; int i = b + (c >> k & 1); w *= c >> k & 1 ? f : 1 - f; if (wrap[k]) i %= shape[k]; id = id * shape[k] + i; }
    for (int k = 0; k < r.ny; ++k) { y[k] += w * r.at(id, k); mag = std::max(mag, std::fabs(r.at(id, k))); } }
  return y;
}
bool utia(const Ref& r) { return r.s.f == FM_UTIA || r.s.f == FM_UTIA_EXR; }
// The point an operation asks for; `pos` in cells where it lies between samples.
V point(const Ref& r, const Op& o, V& pos) {
  if (o.k == O_AT) return coords(r, o.id, nullptr);
  if (o.k == O_CELL) { V x = coords(r, o.id, &o.u); if (r.s.f == FM_MERL && o.u[3] > 0.2) x[2] = o.u[3] > 0.35 ? -x[2] : 2 * M_PI - x[2]; return x; }
  if (o.k == O_WILD) { static const double w[] = {NAN, INFINITY, -INFINITY, 1e300, -1e300, -1e-17, 0.0, 1e-320}; V x = coords(r, o.id, nullptr); for (size_t k = 0; k < x.size(); ++k) if (o.u[k] > -0.2) x[k] = (utia(r) && (k & 1)) ? 0.0 : w[(int)((o.u[k] + 0.5) * 7.99)]; return x; }
  V x = coords(r, o.id, nullptr); pos.resize(r.nx); bool out = o.k == O_OUT;
  if (r.s.f == FM_GRID) { for (int k = 0; k < r.nx; ++k) { double t = o.u[k] + 0.5; if (out) t = t * 3 - 1; x[k] = r.lo[k] + (r.hi[k] - r.lo[k]) * t; pos[k] = std::max(0.0, std::min(t, 1.0)) * (r.s.shape[k] - 1); } return x; }
  if (utia(r)) { for (int k = 0; k < 4; ++k) { double t = o.u[k] + 0.5; if (k & 1) { pos[k] = t * 47.999; x[k] = pos[k] * 7.5 * M_PI / 180; if (o.u[4] > 0.25 && pos[k] > 1) x[k] -= 2 * M_PI; if (o.u[5] > 0.4) { pos[k] = 0; x[k] = o.u[4] > 0 ? 2 * M_PI : -1e-17; } } else { pos[k] = out ? 6.05 + t * 40 : t * 5; x[k] = pos[k] * 15 * M_PI / 180; } } return x; }
  // outside of the domain of a slice or of MERL
  bool rev = is_slice(r.s.f) && x.size() == 3 && x[0] == M_PI / 2; int k = o.u[0] > 0 ? 1 : 0, c = rev ? (int)x.size() - 1 - k : k; x[c] = o.u[1] > 0 ? r.hi[k] + 1e-6 + o.u[1] : r.lo[k] - 1e-6 + o.u[1]; return x;
}
V run_op(const Ref& r, const Op& o, alta::data& d, bool look) {
  V out, pos; if (o.k == O_SET) { vec x = d.get(o.id); for (int k = 0; k < r.ny; ++k) x[r.nx + k] = o.y[k]; d.set(o.id, x); return out; }
  if (o.k == O_GET || !look) { vec x = d.get(o.id); sim::check_range(x.data(), x.size() * 8, false); out.assign(x.data(), x.data() + x.size()); return out; }
  V p = point(r, o, pos); vec x(p.size()); for (size_t k = 0; k < p.size(); ++k) x[k] = p[k]; vec y = d.value(x); sim::check_range(y.data(), y.size() * 8, false); out.assign(y.data(), y.data() + y.size()); return out;
}
void judge(Ref& r, const Op& o, const V& got, bool look, const char* when) {
  const char* f = fmt_name[r.s.f]; std::string A = r.s.args + ", " + when; const char* a = A.c_str();
  if (o.k == O_SET) { r.set[o.id] = o.y; return; }
  double rel = r.s.f == FM_MERL ? 1e-14 : r.s.f == FM_GRID ? 1e-13 : 0;
  auto same = [&](double g, double w, double rl, double mag) { return same_bits(g, w) || g == w || std::fabs(g - w) <= rl * mag; };
  if (o.k == O_GET || !look) {
    if ((int)got.size() != r.nx + r.ny) violation("shape", "%s %s: sample %d has %zu numbers", f, a, o.id, got.size());
    V x = coords(r, o.id, nullptr); for (int k = 0; k < r.nx; ++k) if (std::fabs(got[k] - x[k]) > 1e-9 * (1 + std::fabs(x[k]))) violation("coordinates", "%s %s: sample %d is said to be at %s, not at %s", f, a, o.id, txt(V(got.begin(), got.begin() + r.nx)).c_str(), txt(x).c_str());
    for (int k = 0; k < r.ny; ++k) { double w = r.at(o.id, k); if (!same(got[r.nx + k], w, rel, std::fabs(w))) violation("sample", "%s %s: value %d of sample %d is %.17g, it holds %.17g", f, a, k, o.id, got[r.nx + k], w); }
    return; }
  V pos, x = point(r, o, pos); if ((int)got.size() != r.ny) violation("shape", "%s %s: an answer of %zu numbers", f, a, got.size());
  if (o.k == O_WILD) return;
  V want(r.ny); double mag = 0, tol = 0;
  if (o.k == O_AT || ((o.k == O_CELL) && !utia(r) && r.s.f != FM_GRID)) {
    for (int k = 0; k < r.ny; ++k) { want[k] = r.at(o.id, k); mag = std::max(mag, std::fabs(want[k])); }
    if (utia(r)) { std::vector<int> sh{6, 48, 6, 48}; V p(4); int i = o.id; for (int k = 3; k >= 0; --k) { p[k] = i % sh[k]; i /= sh[k]; } for (int e = 0; e < 2; ++e) { double m; V q = p; for (int k = 0; k < 4; ++k) q[k] = std::max(0.0, q[k] - (e ? 1e-3 : 0)); between(r, q, sh, {false, true, false, true}, m); mag = std::max(mag, m); } tol = 1e-4; }
    else if (r.s.f == FM_GRID) { tol = 1e-9; for (int i = 0; i < r.n; ++i) for (int k = 0; k < r.ny; ++k) mag = std::max(mag, std::fabs(r.at(i, k))); }
    else tol = rel;
    if (r.s.f == FM_MERL && (want[0] < 0 || want[1] < 0 || want[2] < 0)) want = V(3, 0.0);       // unphysical samples are looked up as black
  } else if (r.s.f == FM_GRID) { want = between(r, pos, r.s.shape, std::vector<bool>(r.nx, false), mag); tol = 1e-9; for (int i = 0; i < r.n; ++i) for (int k = 0; k < r.ny; ++k) mag = std::max(mag, std::fabs(r.at(i, k))); }
  else if (utia(r)) { if (o.k == O_OUT) want = V(3, 0.0); else { want = between(r, pos, {6, 48, 6, 48}, {false, true, false, true}, mag); tol = 1e-3; } }
  else want = V(r.ny, 0.0);
  for (int k = 0; k < r.ny; ++k) if (!same(got[k], want[k], tol, mag)) violation("lookup", "%s %s: the value at %s (sample %d, question %d) is %s, not %s", f, a, txt(x).c_str(), o.id, o.k, txt(got).c_str(), txt(want).c_str());
}
}
void scenario() {
  FmtSpec s = gen_fmt("d", sim::thorough() ? 12 : 6, sim::thorough() ? 15 : 6, false); Ref r; r.s = s; if (s.f == FM_MERL) r.s.style = s.style = s.style % 3;
  r.loaded = s.f != FM_GRID && (s.f == FM_SLICE ? !KB("empty", 1) : KB("fromfile", 60)); std::string src = std::string("src") + fmt_ext[s.f];
  if (r.loaded) { r.bytes = fmt_bytes(s); sim::vfs_put(src, r.bytes); } else if (s.f == FM_SLICE) r.s.W = r.s.H = 512;
  r.s.W = s.f == FM_UTIA_EXR ? 288 : r.s.W; if (s.f == FM_UTIA_EXR) r.s.H = 288;
  r.nx = s.nx; r.ny = s.ny; if (s.f == FM_SLICE) r.nx = s.args.find("RUSIN_TH_TD_PD") != std::string::npos || s.args.find("TV_TL_DPHI") != std::string::npos || s.args.find("TL_") != std::string::npos ? 3 : 2; else if (s.f == FM_MERL) r.nx = 3; else if (utia(r)) r.nx = 4;
  if (s.f == FM_SLICE || s.f == FM_MERL || utia(r)) r.ny = 3;
  r.n = s.f == FM_MERL ? 1458000 : utia(r) ? 82944 : s.f == FM_SLICE ? r.s.W * r.s.H : [&] { int n = 1; for (int k : s.shape) n *= k; return n; }();
  int lives = s.f == FM_MERL ? 2 : (int)K("lives", 1, 3); std::string cur = r.loaded ? src : "";
  for (int L = 0; L < lives; ++L) {
    bool fresh = cur.empty(), look = s.f != FM_GRID || fresh; int m = (int)K("ops", 1, 25); Rng g(K("opseed", 1, 1000000000)); std::vector<Op> ops; std::vector<int> used;
    for (int i = 0; i < m; ++i) { Op o; static const int kinds[] = {O_SET, O_SET, O_SET, O_GET, O_GET, O_AT, O_AT, O_AT, O_CELL, O_CELL, O_BETWEEN, O_BETWEEN, O_BETWEEN, O_OUT, O_WILD}; o.k = kinds[g.below(15)]; if (o.k == O_CELL && (s.f == FM_GRID || utia(r))) o.k = O_BETWEEN; if (o.k == O_BETWEEN && (s.f == FM_SLICE || s.f == FM_MERL)) o.k = O_CELL;
      int q = (int)g.below(10); o.id = q < 4 && !used.empty() ? used[g.below(used.size())] : q == 4 ? 0 : q == 5 ? r.n - 1 : (int)g.below(r.n); if (o.k == O_SET) used.push_back(o.id);
      for (int k = 0; k < r.ny; ++k) o.y.push_back(fmt_value(g, s.style)); if (s.f == FM_MERL && g.chance(0.2)) for (auto& v : o.y) if (g.chance(0.7)) v = -v; for (int k = 0; k < 6; ++k) o.u.push_back(g.chance(0.1) ? 0.0 : g.uni(-0.5, 0.5)); ops.push_back(o);
      if (s.f == FM_GRID && fresh && i == 0) { for (int id = 0; id < std::min(r.n, 400); ++id) { Op q; q.k = O_SET; q.id = id; for (int k = 0; k < r.ny; ++k) q.y.push_back(fmt_value(g, s.style)); q.u = V(6, 0.0); ops.push_back(q); } }
      if (utia(r) && fresh && i == 0) { int at = (int)g.below(r.n - 700); for (int id = at; id < at + 600; ++id) { Op q; q.k = O_SET; q.id = id; for (int k = 0; k < 3; ++k) q.y.push_back(fmt_value(g, s.style)); q.u = V(6, 0.0); ops.push_back(q); used.push_back(id); } } }
    bool save = L + 1 < lives; std::string next = "c" + std::to_string(L) + fmt_ext[s.f];
    LifeRes x = sim::life(benign_for(s, "o"), [&] {
      ptr<alta::data> d; alta::parameters p(s.nx, s.ny, s.pin, s.pout); d = fresh ? alta::plugins_manager::get_data(fmt_plugin[s.f], 0, p, mkargs(s.args)) : fmt_load(s, cur); if (!d) return 2;
      double h[4] = {(double)d->size(), (double)d->parametrization().dimX(), (double)d->parametrization().dimY(), (double)d->parametrization().input_parametrization()}; sim::out_vec("h", h, 4);
      if ((int)h[0] != r.n || (int)h[1] != r.nx || (int)h[2] != r.ny) return 5;
      vec lo = d->min(), hi = d->max(); sim::out_vec("lo", lo.data(), lo.size()); sim::out_vec("hi", hi.data(), hi.size()); if (lo.size() != r.nx || hi.size() != r.nx) return 6;
      Ref q = r; q.bytes.clear(); q.lo.assign(lo.data(), lo.data() + lo.size()); q.hi.assign(hi.data(), hi.data() + hi.size());
      if (s.f == FM_GRID && !fresh) { q.lo = r.lo; q.hi = r.hi; }
      for (size_t i = 0; i < ops.size(); ++i) { V o = run_op(q, ops[i], *d, look); sim::out_vec("o" + std::to_string(i), o.data(), o.size()); }
      if (save) d->save(next);
      return 0; });
    std::string when = fresh ? "new" : L ? "reloaded" : "loaded"; auto h = get_vecd("h");
    if (x.kind == sim::L_DONE && x.code == 5) violation("shape", "%s %s, %s: %g samples of R^%g -> R^%g instead of %d of R^%d -> R^%d", fmt_name[s.f], s.args.c_str(), when.c_str(), h[0], h[1], h[2], r.n, r.nx, r.ny);
    if (x.kind == sim::L_DONE && x.code == 6) violation("shape", "%s %s, %s: the domain has another dimension", fmt_name[s.f], s.args.c_str(), when.c_str());
    if (!x.ok()) violation("failed", "%s %s, %s: %s", fmt_name[s.f], s.args.c_str(), when.c_str(), x.str().c_str());
    if (!(s.f == FM_GRID && !fresh)) { r.lo = get_vecd("lo"); r.hi = get_vecd("hi"); }
    for (size_t i = 0; i < ops.size(); ++i) judge(r, ops[i], get_vecd("o" + std::to_string(i)), look, when.c_str());
    if (save) { cur = next; if (s.f == FM_SLICE || s.f == FM_UTIA_EXR) r.rounded = true; }
    if (r.rounded && save) { for (auto& e : r.set) for (auto& v : e.second) v = (double)(float)v; r.rounded = false; }
    sim::count("lives_checked");
  }
  sim::nontrivial(); sim::count(fmt_name[s.f]);
}
