// BRDF models: random specification, construction in a life, parameters, evaluation.
#pragma once
#include "w/common.h"
struct LeafDef { const char* name; int pin; };   // pin 0: the model imposes its own; 1: needs a given one
static const char* const lobes_any[] = {"nonlinear_function_beckmann", "nonlinear_function_blinn", "nonlinear_function_diffuse", "nonlinear_function_retrobeckmann", "nonlinear_function_retroyoo", "nonlinear_function_spherical_gaussian", "nonlinear_function_ward", "nonlinear_function_sgd"};
static const char* const factors[] = {"nonlinear_fresnel_schlick", "nonlinear_fresnel_normalized_schlick", "nonlinear_fresnel_retroschlick", "nonlinear_shadowing_schlick", "nonlinear_shadowing_smith", "nonlinear_shadowing_walter_smith"};
static const char* const rationals[] = {"", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine"};
#define MODEL_PLUGINS "nonlinear_function_abc", "nonlinear_function_beckmann"
struct ModelSpec {
  std::string cmd;                 // as given on a tool's command line
  int nx = 6, ny = 1; alta::params::input pin = alta::params::CARTESIAN; alta::params::output pout = alta::params::UNKNOWN_OUTPUT;
  bool rational = false; int np = 1, nq = 1; long seed = 1;
  bool saveable = true;            // SGD functions can be loaded but announce that saving them is not implemented
  std::string boot;                // options given to bootstrap() before the parameters are set ("" : not called)
};
inline std::string gen_lobe(const std::string& n, const ModelSpec& s, int depth) {
  std::string c;
  if (s.pin == alta::params::COS_TH || s.pin == alta::params::COS_TK) { int k = (int)K((n + ".lobe1").c_str(), 0, 2); c = k == 0 ? "nonlinear_function_abc" : k == 1 ? "nonlinear_function_retroblinn" : s.pin == alta::params::COS_TH ? "nonlinear_function_blinn" : "nonlinear_function_abc"; }
  else { int k = (int)K((n + ".lobe").c_str(), 0, 8); if (k == 8 && s.pin != alta::params::CARTESIAN) k = 0; if (k == 7 && s.saveable) k = 3; c = k == 8 ? "nonlinear_function_lafortune" : lobes_any[k]; }
  if (depth == 0 && s.pin != alta::params::COS_TH && s.pin != alta::params::COS_TK && KB((n + ".prod").c_str(), 35)) {
    c += std::string(" --fresnel ") + factors[K((n + ".fac").c_str(), 0, 5)];
    int fx = (int)K((n + ".fix").c_str(), 0, 5); if (fx == 1) c += " --fixed-fresnel"; if (fx == 2) c += " --fixed-lobe";
  }
  return c;
}
inline ModelSpec gen_model(const char* p, bool with_boot = true, bool saveable = true) {
  ModelSpec s; s.saveable = saveable; std::string n(p);
  int kind = (int)K((n + ".kind").c_str(), 0, 9);
  s.seed = K((n + ".seed").c_str(), 1, 1000000000);
  int ok = (int)K((n + ".pout").c_str(), 0, 5); s.ny = 1;
  if (ok) { s.pout = all_outputs[ok - 1]; s.ny = ok >= 4 ? 3 : 1; }
  if (!ok || KB((n + ".nyfree").c_str(), 30)) s.ny = (int)K((n + ".ny").c_str(), 1, 4);
  if (kind >= 8) {
    s.rational = true; int fam = (int)K((n + ".family").c_str(), 0, 3);
    s.cmd = fam ? std::string("--func ") + rationals[fam] : "";
    int pk = (int)K((n + ".rpin").c_str(), 0, N_INPUTS);
    if (!pk) { s.pin = alta::params::UNKNOWN_INPUT; s.nx = (int)K((n + ".nx").c_str(), 1, 5); } else { s.pin = all_inputs[pk - 1]; s.nx = input_dims[pk - 1]; }
    s.np = (int)K((n + ".np").c_str(), 1, 9); s.nq = (int)K((n + ".nq").c_str(), 1, 9);
    return s;
  }
  static const alta::params::input pins[] = {alta::params::CARTESIAN, alta::params::RUSIN_TH_TD, alta::params::RUSIN_TH_PH_TD_PD, alta::params::SPHERICAL_TL_PL_TV_PV, alta::params::COS_TH, alta::params::COS_TK}; static const int dims[] = {6, 2, 4, 4, 1, 1};
  int pk = (int)K((n + ".pin").c_str(), 0, 5); s.pin = pins[pk]; s.nx = dims[pk];
  if (kind <= 5) {
    s.cmd = "--func " + gen_lobe(n, s, 0);
    if (kind == 5 && pk < 4) s.cmd = std::string("--func ") + factors[K((n + ".single").c_str(), 0, 5)];
    if (with_boot && kind <= 3) {
      int b = (int)K((n + ".boot").c_str(), 0, 3);
      if (s.cmd.find("lafortune") != std::string::npos && b && s.cmd.find("--fresnel") == std::string::npos) s.boot = "--lobes " + std::to_string(b);
      static const char* sg[] = {"half", "back", "retro", "moment"};
      if (s.cmd == "--func nonlinear_function_spherical_gaussian") s.boot = b == 0 ? std::string("--sg-type mirror") : std::string("--sg-type ") + sg[K((n + ".sg").c_str(), 0, 3)];
      if (s.cmd == "--func nonlinear_function_retrobeckmann" && b) s.boot = b == 1 ? "--foo" : "--retro";
      if (s.cmd == "--func nonlinear_function_ward" && b == 1) s.boot = "--isotropic";
    }
  } else {
    int m = (int)K((n + ".terms").c_str(), 1, 3); s.cmd = "--func [";
    for (int i = 0; i < m; ++i) { if (i) s.cmd += ", "; std::string q = n + ".t"; s.cmd += gen_lobe(q, s, kind == 6 ? 1 : 0); if (KB((q + ".fixed").c_str(), 20)) s.cmd += " --fixed"; }
    s.cmd += "]";
    if (kind == 7 && pk < 4 && KB((n + ".cfres").c_str(), 20)) s.cmd += std::string(" --fresnel ") + factors[K((n + ".fac").c_str(), 0, 5)];
  }
  return s;
}
// ---- inside a life
inline void each_leaf(alta::function* f, const std::function<void(alta::nonlinear_function*)>& fn) {
  if (auto c = dynamic_cast<alta::compound_function*>(f)) { for (unsigned i = 0; i < c->size(); ++i) each_leaf((*c)[i], fn); return; }
  if (auto p = dynamic_cast<alta::product_function*>(f)) { each_leaf(p->first(), fn); each_leaf(p->second(), fn); return; }
  if (auto n = dynamic_cast<alta::nonlinear_function*>(f)) fn(n);
}
inline ptr<alta::data> tiny_data(const alta::parameters& p, long seed) {
  DataSpec d; d.nx = p.dimX(); d.ny = p.dimY(); d.pin = p.input_parametrization(); d.pout = p.output_parametrization(); d.n = 3; d.v.resize(3 * d.cols()); Rng r(seed); for (auto& v : d.v) v = r.uni(0.05, 0.9); return make_vs(d);
}
inline void randomize(alta::function* f, const ModelSpec& s) {
  Rng r(s.seed); int style = (int)r.below(4);
  if (auto q = dynamic_cast<alta::rational_function*>(f)) {
    int nx = s.nx; vec mn(nx), mx(nx);
    for (int i = 0; i < nx; ++i) { mn[i] = style == 0 ? 0.0 : r.uni(-1, 1); mx[i] = mn[i] + (style == 1 && r.chance(0.2) ? 0.0 : r.uni(0.3, 2)); }
    q->setSize(s.np, s.nq); q->setMin(mn); q->setMax(mx);
    for (int k = 0; k < s.ny; ++k) { vec a(s.np), b(s.nq); for (int i = 0; i < s.np; ++i) a[i] = style == 2 ? r.range(-3, 3) : r.uni(-2, 2) * std::pow(10.0, r.range(-3, 3)); for (int i = 0; i < s.nq; ++i) b[i] = i ? r.uni(-0.4, 0.4) / s.nq : (style == 3 ? r.uni(1, 3) : 1.0); auto g = q->get(k); g->update(a, b); }
    return;
  }
  each_leaf(f, [&](alta::nonlinear_function* n) {
    int m = n->nbParameters();
    if (!m) { n->bootstrap(tiny_data(n->parametrization(), (long)r.below(1000) + 1), mkargs("")); return; }   // the diffuse lobe takes its colour from data
    vec mn = n->getParametersMin(), mx = n->getParametersMax(), p(m);
    for (int i = 0; i < m; ++i) { double lo = std::max(mn[i], 0.05), hi = std::min(mx[i], 1.5); if (!(hi > lo)) { lo = 0.05; hi = 1.5; } double u = r.uni(lo, hi); if (style == 1) u = std::floor(u * 8) / 8 < lo ? lo : std::floor(u * 8) / 8; p[i] = u; }
    n->setParameters(p); });
}
inline alta::parameters spec_params(const ModelSpec& s) { return alta::parameters(s.nx, s.ny, s.pin, s.pout); }
inline ptr<alta::function> make_model(const ModelSpec& s) {
  ptr<alta::function> f(alta::plugins_manager::get_function(mkargs(s.cmd), spec_params(s)));
  if (!f) return f;
  if (!s.boot.empty()) f->bootstrap(tiny_data(f->parametrization(), s.seed + 1), mkargs(s.boot));
  randomize(f.get(), s); return f;
}
// Well inside the domain: directions away from grazing and from each other's mirror / retro singularities.
inline std::vector<std::vector<double>> eval_points(alta::function* f, const ModelSpec& s, int n) {
  std::vector<std::vector<double>> pts; Rng r(s.seed * 31 + 7);
  for (int i = 0; i < n; ++i) {
    if (s.rational) { vec mn = f->min(), mx = f->max(); std::vector<double> x(s.nx); for (int k = 0; k < s.nx; ++k) { double u = r.uni(0.02, 0.98); x[k] = k < mn.size() && k < mx.size() ? mn[k] + u * (mx[k] - mn[k]) : u; } pts.push_back(x); continue; }
    double tl = r.uni(0.1, 1.2), tv = r.uni(0.1, 1.2), pl = r.uni(-3, 3), pv = pl + r.uni(0.3, 2.7);
    double c[6] = {std::sin(tl) * std::cos(pl), std::sin(tl) * std::sin(pl), std::cos(tl), std::sin(tv) * std::cos(pv), std::sin(tv) * std::sin(pv), std::cos(tv)};
    std::vector<double> x(std::max(6, f->parametrization().dimX()));
    auto in = f->parametrization().input_parametrization();
    if (in == alta::params::CARTESIAN) memcpy(x.data(), c, sizeof c); else alta::params::convert(c, alta::params::CARTESIAN, in, x.data());
    x.resize(f->parametrization().dimX()); pts.push_back(x);
  }
  return pts;
}
inline vec to_vec(const std::vector<double>& x) { vec v(x.size()); for (size_t i = 0; i < x.size(); ++i) v[i] = x[i]; return v; }
struct ModelDump { std::vector<double> head, par, val; };
inline void put_model(const std::string& key, alta::function* f, const ModelSpec& s, int npts = 6) {
  auto q = f->parametrization(); double h[4] = {(double)q.dimX(), (double)q.dimY(), (double)q.input_parametrization(), (double)q.output_parametrization()};
  sim::out_vec(key + ".h", h, 4);
  std::vector<double> par, val;
  if (auto r = dynamic_cast<alta::rational_function*>(f)) {
    vec mn = f->min(), mx = f->max(); for (int i = 0; i < mn.size(); ++i) par.push_back(mn[i]); for (int i = 0; i < mx.size(); ++i) par.push_back(mx[i]);
    for (int k = 0; k < q.dimY(); ++k) { auto g = r->get(k); vec a = g->getP(), b = g->getQ(); for (int i = 0; i < a.size(); ++i) par.push_back(a[i]); par.push_back(-777); for (int i = 0; i < b.size(); ++i) par.push_back(b[i]); par.push_back(-778); }
  } else each_leaf(f, [&](alta::nonlinear_function* n) { vec p = n->parameters(); if (dynamic_cast<alta::function*>(n)) for (int i = 0; i < p.size() && i < n->nbParameters(); ++i) par.push_back(p[i]); });
  for (auto& x : eval_points(f, s, npts)) { vec v = f->value(to_vec(x)); sim::check_range(v.data(), v.size() * 8, false); for (int i = 0; i < v.size(); ++i) val.push_back(v[i]); }
  sim::out_vec(key + ".p", par.data(), par.size()); sim::out_vec(key + ".v", val.data(), val.size());
}
inline bool get_model(const std::string& key, ModelDump& d) { if (!sim::out_has(key + ".h")) return false; d.head = get_vecd(key + ".h"); d.par = get_vecd(key + ".p"); d.val = get_vecd(key + ".v"); return true; }
inline std::string diff_model(const ModelDump& a, const ModelDump& b, double prel, double vrel, bool params) {
  char m[400]; static const char* hn[] = {"input dimension", "output dimension", "input parametrization", "output parametrization"};
  for (int i = 0; i < 4; ++i) if (a.head[i] != b.head[i]) { snprintf(m, sizeof m, "%s is %d, was %d", hn[i], (int)b.head[i], (int)a.head[i]); return m; }
  if (params) { if (a.par.size() != b.par.size()) { snprintf(m, sizeof m, "%zu parameters, were %zu", b.par.size(), a.par.size()); return m; }
    for (size_t i = 0; i < a.par.size(); ++i) if (!(prel == 0 ? same_bits(a.par[i], b.par[i]) : close_rel(a.par[i], b.par[i], prel))) { snprintf(m, sizeof m, "parameter %zu is %.17g, was %.17g", i, b.par[i], a.par[i]); return m; } }
  if (a.val.size() != b.val.size()) { snprintf(m, sizeof m, "%zu values, were %zu", b.val.size(), a.val.size()); return m; }
  double mx = 0; for (double v : a.val) if (std::isfinite(v)) mx = std::max(mx, std::fabs(v));
  for (size_t i = 0; i < a.val.size(); ++i) if (!(vrel == 0 ? same_bits(a.val[i], b.val[i]) : (close_rel(a.val[i], b.val[i], vrel) || std::fabs(a.val[i] - b.val[i]) <= vrel * 1e-3 * mx))) { snprintf(m, sizeof m, "value %zu is %.17g, was %.17g", i, b.val[i], a.val[i]); return m; }
  return "";
}
