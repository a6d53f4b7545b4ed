// Fitting: random problems, running a fit in a life.
#pragma once
#include "w/models.h"
struct FitSpec {
  std::string fitter, args;        // as on the command line of the fitting tool (without files)
  bool rational = true; DataSpec d; ModelSpec m; long seed = 1; bool uses_threads = false;
};
enum { FT_LSQ = 1, FT_EIGEN = 2, FT_QUADPROG = 4, FT_PARALLEL = 8, FT_NLEIGEN = 16, FT_CERES = 32, FT_NLOPT = 64 };
static const char* const fitter_names[] = {"rational_fitter_leastsquare", "rational_fitter_eigen", "rational_fitter_quadprog", "rational_fitter_parallel", "nonlinear_fitter_eigen", "nonlinear_fitter_ceres", "nonlinear_fitter_nlopt"};
// Smooth positive samples with intervals: what the rational fitters take.
inline DataSpec fit_samples(const std::string& n, int nmax, bool fittable) {
  DataSpec d; d.nx = (int)K((n + ".dx").c_str(), 1, 2); d.ny = KB((n + ".rgb").c_str(), 25) ? 2 : 1; d.pin = alta::params::UNKNOWN_INPUT; d.pout = alta::params::UNKNOWN_OUTPUT;
  if (d.nx == 2 && KB((n + ".pin").c_str(), 40)) d.pin = alta::params::RUSIN_TH_TD;
  d.n = (int)K((n + ".n").c_str(), 4, nmax); d.kind = 2; d.v.resize((size_t)d.n * d.cols());
  Rng r(K((n + ".dseed").c_str(), 1, 1000000000)); int shape = (int)K((n + ".shape").c_str(), 0, 3); double a = r.uni(0.2, 2), b = r.uni(0.5, 4), c = r.uni(0.3, 3), tol = fittable ? r.uni(0.05, 0.4) : r.uni(0.001, 0.2);
  for (int i = 0; i < d.n; ++i) {
    double* row = &d.v[(size_t)i * d.cols()]; for (int k = 0; k < d.nx; ++k) row[k] = d.nx == 1 ? (i + (shape == 2 ? 0.0 : r.uni(0, 0.5))) / d.n : r.uni(0, 1.5);
    for (int k = 0; k < d.ny; ++k) {
      double t = row[0] + (d.nx > 1 ? 0.7 * row[1] : 0) + 0.1 * k; double y = shape == 0 ? a + b * t : shape == 1 ? a * std::exp(-b * t) + 0.1 : shape == 2 ? a / (c + b * t) : a + 0.3 * std::sin(3 * t * c);
      if (!fittable && shape == 3) y += r.uni(-0.05, 0.05);
      row[d.nx + k] = y; row[d.nx + d.ny + k] = y - tol * (0.2 + std::fabs(y)); row[d.nx + 2 * d.ny + k] = y + tol * (0.2 + std::fabs(y)); }
  }
  return d;
}
inline FitSpec gen_fit(const char* p, int mask, int nmax = 16) {
  FitSpec s; std::string n(p); std::vector<int> av; for (int i = 0; i < 7; ++i) if (mask >> i & 1) av.push_back(i);
  int k = av[K((n + ".fitter").c_str(), 0, (long)av.size() - 1)]; s.fitter = fitter_names[k]; s.seed = K((n + ".seed").c_str(), 1, 1000000000); s.rational = k < 4;
  if (s.rational) {
    s.d = fit_samples(n, nmax, KB((n + ".easy").c_str(), 70)); int fam = (int)K((n + ".family").c_str(), 0, 3); s.m.rational = true; s.m.cmd = fam ? std::string("--func ") + rationals[fam] : ""; s.m.nx = s.d.nx; s.m.ny = s.d.ny; s.m.pin = s.d.pin; s.m.pout = s.d.pout; s.m.seed = s.seed;
    int np = (int)K((n + ".np").c_str(), 1, 4), nq = (int)K((n + ".nq").c_str(), 1, 4); s.args = s.m.cmd;
    if (k == 0 || k == 1) s.args += " --np " + std::to_string(np) + " --nq " + std::to_string(nq);
    if (k == 0 && KB((n + ".iter").c_str(), 30)) s.args += " --max-iter 3";
    if (k == 2) { s.args += " --np " + std::to_string(np + 1) + " --nq " + std::to_string(nq + 1) + " --min-np " + std::to_string(np) + " --min-nq " + std::to_string(nq); if (KB((n + ".ls").c_str(), 25)) s.args += " --add-ls-energy";
      int sm = (int)K((n + ".sched").c_str(), 0, 7); if (sm == 1) s.args += " --scheduling-mode WorstSetFirst"; if (sm == 2) s.args += " --scheduling-mode WorstFirst"; if (sm == 3) s.args += " --scheduling-grow-factor " + std::to_string(K((n + ".grow").c_str(), 1, 3)); if (sm >= 1 && sm <= 4) s.args += " --scheduling-chunk-size " + std::to_string(K((n + ".chunk").c_str(), 1, 12));
      if (KB((n + ".delta").c_str(), 10)) s.args += " --delta 0.5"; if (KB((n + ".bound").c_str(), 10)) s.args += " --boundary-constraint 0.9"; if (KB((n + ".xqp").c_str(), 6)) s.args += " --export-qp"; }
    if (k == 3) { s.uses_threads = true; int lo = (int)K((n + ".lo").c_str(), 2, 5); s.args += " --min-np " + std::to_string(lo) + " --np " + std::to_string(lo + (int)K((n + ".span").c_str(), 0, 3)); if (KB((n + ".delta").c_str(), 30)) s.args += " --use_delta"; }
  } else {
    s.m = gen_model((n + ".m").c_str(), false, true); if (s.m.rational) { s.m = ModelSpec(); s.m.cmd = "--func nonlinear_function_beckmann"; s.m.seed = s.seed; }
    s.args = s.m.cmd; s.d.n = (int)K((n + ".n").c_str(), 4, nmax);
    if (k == 4 && KB((n + ".cosfit").c_str(), 25)) s.args += " --fit-with-cosine";
    if (k == 6) { static const char* al[] = {"", "local-Nelder-Mead", "local-mma"}; int a = (int)K((n + ".algo").c_str(), 0, 2); if (a) s.args += std::string(" --nlopt-optimizer ") + al[a]; s.args += " --nlop-max-num-iterations 12"; }
    if (k == 5) { s.args += " --ceres-max-num-iterations 6"; if (KB((n + ".chol").c_str(), 30)) s.args += " --ceres-factorization normal-cholesky"; if (KB((n + ".log").c_str(), 20)) s.args += " --log-fit"; }
  }
  return s;
}
// Options of the text loader: intervals and filters, as a user would give them ("" most of the time).
inline std::string gen_load_opts(const std::string& n, int dx, int dy) {
  std::string o; auto vec_of = [&](int k, double v) { std::string z = "["; for (int i = 0; i < k; ++i) { char b[32]; snprintf(b, sizeof b, "%s%g", i ? ", " : "", v); z += b; } return z + "]"; };
  if (!KB((n + ".lopt").c_str(), 30)) return o; int m = (int)K((n + ".lo").c_str(), 1, 511);
  if (m & 1) o += " --dt " + std::to_string(0.01 * K((n + ".dt").c_str(), 0, 60)); if (m & 2 && KB((n + ".rel").c_str(), 60)) o += " --dt-relative"; else if (m & 4) o += " --dt-max"; if (m & 8) o += " --dt-positive";
  bool few = KB((n + ".short").c_str(), 20); int kx = few ? std::max(1, dx - 1) : dx, ky = few ? std::max(1, dy - 1) : dy;
  if (m & 16 && KB((n + ".mn").c_str(), 50)) o += " --min " + vec_of(kx, -0.5 + 0.1 * K((n + ".mnv").c_str(), 0, 6)); if (m & 32 && KB((n + ".mx").c_str(), 50)) o += " --max " + vec_of(kx, 0.4 + 0.2 * K((n + ".mxv").c_str(), 0, 6));
  if (m & 64 && KB((n + ".yn").c_str(), 50)) o += " --ymin " + vec_of(ky, 0.05 * K((n + ".ynv").c_str(), 0, 6)); if (m & 128 && KB((n + ".yx").c_str(), 50)) o += " --ymax " + vec_of(ky, 0.3 + 0.3 * K((n + ".yxv").c_str(), 0, 6));
  if (m & 256 && KB((n + ".cc").c_str(), 40)) o += " --data-correct-cosine";
  return o;
}
// ---- inside a life
inline ptr<alta::data> fit_data_of(const FitSpec& s) {
  if (s.rational) return make_vs(s.d);
  ModelSpec q = s.m; q.seed = s.seed; auto f = make_model(q); if (!f) return ptr<alta::data>();
  DataSpec d; auto P = f->parametrization(); d.nx = P.dimX(); d.ny = P.dimY(); d.pin = P.input_parametrization(); d.pout = P.output_parametrization(); d.n = s.d.n; d.v.resize((size_t)d.n * d.cols());
  auto pts = eval_points(f.get(), q, d.n); Rng r(s.seed + 17);
  for (int i = 0; i < d.n; ++i) { for (int k = 0; k < d.nx; ++k) d.v[(size_t)i * d.cols() + k] = pts[i][k]; vec y = f->value(to_vec(pts[i])); for (int k = 0; k < d.ny; ++k) { double v = k < y.size() && std::isfinite(y[k]) && std::fabs(y[k]) < 1e6 ? y[k] : 0.5; d.v[(size_t)i * d.cols() + d.nx + k] = v * (1 + 0.05 * r.uni()); } }
  return make_vs(d);
}
// 0 fitted, 3 no fitter, 4 no function, 5 not fitted
inline int run_fit(const FitSpec& s, const ptr<alta::data>& d, ptr<alta::function>& f) {
  auto args = mkargs(s.args); ptr<alta::fitter> fit = alta::plugins_manager::get_fitter(s.fitter); if (!fit) return 3;
  fit->set_parameters(args); f = ptr<alta::function>(alta::plugins_manager::get_function(args, d->parametrization())); if (!f) return 4;
  return fit->fit_data(d, f, args) ? 0 : 5;
}
// Everything the fit produced: the saved function and its values.
inline void put_fit(const std::string& key, const FitSpec& s, int st, const ptr<alta::function>& f) {
  sim::out_num(key + ".st", st); if (st) return;
  ModelSpec q = s.m; if (s.rational) { q.nx = f->parametrization().dimX(); q.ny = f->parametrization().dimY(); }
  put_model(key, f.get(), q);
}
