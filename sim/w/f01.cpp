// F01: a fit that is reported as successful is one.
#include "w/fits.h"
extern const char* const scenario_id = "F01";
static const double INF = std::numeric_limits<double>::infinity();
// What the search minimises, from the public interface of the model and of the data.
static double objective(const alta::function* f, const alta::data* d, bool cosine, bool logfit) {
  double s = 0; auto pd = d->parametrization(), pf = f->parametrization();
  for (int i = 0; i < d->size(); ++i) {
    vec x = d->get(i), z(pf.dimX()); alta::params::convert(&x[0], pd.input_parametrization(), pf.input_parametrization(), &z[0]);
    double c = 1; if (cosine) { double cart[6]; alta::params::convert(&x[0], pd.input_parametrization(), alta::params::CARTESIAN, cart); c = cart[5]; }
    vec y = f->value(z); for (int k = 0; k < pf.dimY(); ++k) { double v = x[pd.dimX() + k], e = logfit ? std::log(1 + v) - std::log(1 + y[k]) : v - c * y[k]; s += e * e; }
  }
  return s;
}
static std::vector<double> tovec(const vec& v) { return std::vector<double>(v.data(), v.data() + v.size()); }
// Parameters of the components a search must not touch, and of all components that it can.
static void fixed_part(alta::function* f, const std::string& cmd, std::vector<double>& out) {
  auto all = [&](alta::nonlinear_function* g) { each_leaf(g, [&](alta::nonlinear_function* n) { vec p = n->parameters(); for (int i = 0; i < p.size() && i < n->nbParameters(); ++i) out.push_back(p[i]); }); };
  if (auto c = dynamic_cast<alta::compound_function*>(f)) {
    std::string l = cmd.substr(cmd.find('[') + 1); l = l.substr(0, l.find(']')); std::stringstream ss(l); std::string t; int i = 0;
    while (std::getline(ss, t, ',')) { bool fx = false; std::stringstream ws(t); std::string w; while (ws >> w) if (w == "--fixed") fx = true; if (fx && i < (int)c->size()) all((*c)[i]); ++i; }
  } else if (auto p = dynamic_cast<alta::product_function*>(f)) { std::string c = cmd; auto a = c.find("--func ["), b = c.find(']'); if (a != std::string::npos && b != std::string::npos) c.erase(a, b - a + 1); if (c.find("--fixed-lobe") != std::string::npos) all(p->first()); if (c.find("--fixed-fresnel") != std::string::npos) all(p->second()); }
}
struct Prob { FitSpec s; int exact = 0, np = 0, nq = 0; };
// Samples of a known rational function: what a fit of the same size can match exactly.
static ptr<alta::data> exact_data(Prob& q) {
  FitSpec& s = q.s; alta::parameters par(s.d.nx, s.d.ny, (alta::params::input)s.d.pin, (alta::params::output)s.d.pout);
  auto f = std::dynamic_pointer_cast<alta::rational_function>(ptr<alta::function>(alta::plugins_manager::get_function(mkargs(s.args), par))); if (!f) return ptr<alta::data>();
  auto d0 = make_vs(s.d); f->setMin(d0->min()); f->setMax(d0->max()); f->setSize(q.np, q.nq); Rng r(s.seed + 3);
  for (int k = 0; k < s.d.ny; ++k) { vec a = vec::Zero(q.np), b = vec::Zero(q.nq); a[0] = r.uni(0.5, 2); b[0] = 1; if (q.exact == 2) for (int i = 1; i < q.np; ++i) a[i] = r.uni(-0.4, 0.4) / q.np; for (int i = 1; i < q.nq; ++i) b[i] = r.uni(-0.4, 0.4) / q.nq; f->get(k)->update(a, b); }
  for (int i = 0; i < s.d.n; ++i) { double* row = &s.d.v[(size_t)i * s.d.cols()]; vec y = f->value(to_vec(std::vector<double>(row, row + s.d.nx))); for (int k = 0; k < s.d.ny; ++k) { row[s.d.nx + k] = y[k]; row[s.d.nx + s.d.ny + k] = y[k] - 0.1 * std::fabs(y[k]); row[s.d.nx + 2 * s.d.ny + k] = y[k] + 0.1 * std::fabs(y[k]); } }
  return make_vs(s.d);
}
static void one(Prob& pr, const ptr<alta::fitter>& fit, const ptr<alta::data>& d, const std::string& key) {
  FitSpec& s = pr.s; std::vector<double> before, after; for (int i = 0; i < d->size(); ++i) { vec r = d->get(i); for (int k = 0; k < r.size(); ++k) before.push_back(r[k]); }
  auto args = mkargs(s.args); fit->set_parameters(args);
  std::vector<double> fx0, fx1; double o0 = 0, o1 = 0; bool cosf = args.is_defined("fit-with-cosine"), logf = args.is_defined("log-fit"); bool in0 = true, in1 = true;
  ptr<alta::function> f(alta::plugins_manager::get_function(args, d->parametrization())); if (!f) { sim::out_num(key + ".st", 4); return; }
  if (!s.rational) {
    ptr<alta::function> g(alta::plugins_manager::get_function(args, d->parametrization())); g->setMin(d->min()); g->setMax(d->max()); g->bootstrap(d, args); o0 = objective(g.get(), d.get(), cosf, logf); fixed_part(g.get(), s.args, fx0);
    auto n = std::dynamic_pointer_cast<alta::nonlinear_function>(g); vec p = n->parameters(), lo = n->getParametersMin(), hi = n->getParametersMax(); for (int i = 0; i < n->nbParameters(); ++i) if (!(p[i] >= lo[i] && p[i] <= hi[i])) in0 = false;
  }
  bool ok = fit->fit_data(d, f, args); sim::out_num(key + ".st", ok ? 0 : 5);
  for (int i = 0; i < d->size(); ++i) { vec r = d->get(i); for (int k = 0; k < r.size(); ++k) after.push_back(r[k]); }
  bool same = before.size() == after.size() && (before.empty() || !memcmp(before.data(), after.data(), before.size() * 8)); sim::out_num(key + ".kept", same);
  if (!ok) return;
  bool finite = true; double worst = 0, at = -1, wc = 0;
  if (s.rational) {
    auto r = std::dynamic_pointer_cast<alta::rational_function>(f); auto P = r->parametrization();
    for (int k = 0; k < P.dimY(); ++k) { auto g = r->get(k); vec a = g->getP(), b = g->getQ(); for (double v : tovec(a)) if (!std::isfinite(v)) finite = false; for (double v : tovec(b)) if (!std::isfinite(v)) finite = false; }
    for (int i = 0; i < s.d.n; ++i) { const double* row = &s.d.v[(size_t)i * s.d.cols()]; vec y = f->value(to_vec(std::vector<double>(row, row + s.d.nx)));
      for (int c = 0; c < s.d.ny; ++c) { double lo = row[s.d.nx + s.d.ny + c], hi = row[s.d.nx + 2 * s.d.ny + c], w = hi - lo, e = !(y[c] == y[c]) ? 1e9 : std::max(lo - y[c], y[c] - hi) / w; if (e > worst) { worst = e; at = i; wc = c; } } }
  } else {
    auto n = std::dynamic_pointer_cast<alta::nonlinear_function>(f); vec p = n->parameters(), lo = n->getParametersMin(), hi = n->getParametersMax();
    for (int i = 0; i < n->nbParameters(); ++i) { if (!std::isfinite(p[i])) finite = false; if (!(p[i] >= lo[i] && p[i] <= hi[i])) { in1 = false; at = i; worst = p[i]; } }
    o1 = objective(f.get(), d.get(), cosf, logf); fixed_part(f.get(), s.args, fx1); sim::out_num(key + ".np", n->nbParameters());
  }
  if (pr.exact && finite) {   // distance of p to y q, relative to the size of the coefficients and of the basis
    auto r = std::dynamic_pointer_cast<alta::rational_function>(f); double res = 0;
    for (int i = 0; i < s.d.n; ++i) { const double* row = &s.d.v[(size_t)i * s.d.cols()]; vec x = to_vec(std::vector<double>(row, row + s.d.nx)), y = f->value(x);
      for (int k = 0; k < s.d.ny; ++k) { auto g = r->get(k); vec a = g->getP(), b = g->getQ(); double t = row[s.d.nx + k];
        if (pr.exact == 1) { double e = std::fabs(y[k] - t) / std::max(1e-3, std::fabs(t)); if (!(e <= res)) res = e; }
        else { double P = 0, Q = 0, N = 0, C = 0; for (int j = 0; j < a.size(); ++j) { double w = g->p(x, j); P += a[j] * w; N += w * w; C += a[j] * a[j]; } for (int j = 0; j < b.size(); ++j) { double w = g->q(x, j); Q += b[j] * w; N += t * t * w * w; C += b[j] * b[j]; } double e = std::fabs(P - t * Q) / std::sqrt(N * C); if (!(e <= res)) res = e; } } }
    sim::out_num(key + ".res", res);
  }
  sim::out_num(key + ".finite", finite); sim::out_num(key + ".worst", worst); sim::out_num(key + ".at", at); sim::out_num(key + ".chan", wc); sim::out_num(key + ".o0", o0); sim::out_num(key + ".o1", o1); sim::out_num(key + ".in0", in0); sim::out_num(key + ".in1", in1);
  sim::out_num(key + ".fixed", fx0.size() == fx1.size() && (fx0.empty() || !memcmp(fx0.data(), fx1.data(), fx0.size() * 8))); sim::out_num(key + ".nfixed", fx0.size());
}
static double num(const std::string& k) { auto v = get_vecd(k); return v.empty() ? NAN : v[0]; }
static std::string describe(const FitSpec& s) { return s.fitter + " " + s.args; }
static void judge(const Prob& pr, const std::string& key, bool passes_through) {
  const FitSpec& s = pr.s;
  std::string D = describe(s); if (num(key + ".kept") == 0) violation("data-changed", "%s: the fit changed the data it was given", D.c_str());
  if (num(key + ".st") != 0) { sim::count("refused"); return; }
  sim::nontrivial(); sim::count("fitted");
  if (num(key + ".finite") == 0) violation("not-finite", "%s: reported as fitted, but not all parameters are finite numbers", D.c_str());
  if (sim::out_has(key + ".res")) { double w = num(key + ".res"); static double wm = 0; if (w > wm) { wm = w; if (getenv("F01_DBG")) fprintf(stderr, "res %d %g %s\n", pr.exact, w, D.c_str()); } if (!(w <= 1e-6)) violation("misses-exact", "%s: reported as fitted, but is off by %g (relative) on samples of a function of that very form", D.c_str(), w); sim::count("exact"); }
  if (s.rational) { if (passes_through) { double w = num(key + ".worst"); if (w > 1e-6) violation("misses-interval", "%s: reported as fitted, but misses the interval of sample %d, channel %d by %g of its width", D.c_str(), (int)num(key + ".at"), (int)num(key + ".chan"), w); sim::count("intervals"); } return; }
  if (num(key + ".in1") == 0) violation("out-of-bounds", "%s: reported as fitted, but parameter %d is %g, out of its bounds", D.c_str(), (int)num(key + ".at"), num(key + ".worst"));
  double a = num(key + ".o0"), b = num(key + ".o1"); if (std::isfinite(a) && !(b <= a * (1 + 1e-9) + 1e-300)) violation("worse", "%s: reported as fitted, but the squared distance to the data is %.12g, and was %.12g at the start", D.c_str(), b, a);
  if (b < a) sim::count("improved");
  if (num(key + ".fixed") == 0) violation("fixed-changed", "%s: the fit changed a component that was to be kept", D.c_str()); if (num(key + ".nfixed") > 0) sim::count("with_fixed");
}
static Prob draw(const char* p) {
  Prob pr; FitSpec& s = pr.s; s = gen_fit(p, FT_LSQ | FT_EIGEN | FT_QUADPROG | FT_NLEIGEN | FT_CERES | FT_NLOPT, 24); std::string n(p);
  if (s.rational) {
    int odd = (int)K((n + ".odd").c_str(), 0, 11);
    if ((s.fitter == "rational_fitter_leastsquare" || s.fitter == "rational_fitter_eigen") && KB((n + ".exact").c_str(), 40)) { odd = 99; auto arg = [&](const char* k) { return atoi(s.args.c_str() + s.args.find(k) + strlen(k)); }; pr.exact = s.fitter[16] == 'l' ? 1 : 2; pr.np = arg("--np "); pr.nq = arg("--nq "); }
    if (odd == 0) for (int i = 0; i < s.d.n; ++i) for (int k = 0; k < s.d.ny; ++k) { double* r = &s.d.v[(size_t)i * s.d.cols() + s.d.nx + k]; r[0] = 0; r[s.d.ny] = -0.1; r[2 * s.d.ny] = 0.1; }          // all zero
    if (odd == 1) { int m = (int)K((n + ".few").c_str(), 1, 3); s.d.n = std::min(s.d.n, m); s.d.v.resize((size_t)s.d.n * s.d.cols()); }                                                                  // fewer samples than coefficients
    if (odd == 2) for (int i = 1; i < s.d.n; i += 2) for (int c = 0; c < s.d.cols(); ++c) s.d.v[(size_t)i * s.d.cols() + c] = s.d.v[(size_t)(i - 1) * s.d.cols() + c];                                // every sample twice
    if (odd == 3) { int i = (int)K((n + ".spike").c_str(), 0, s.d.n - 1); for (int k = 0; k < s.d.ny; ++k) { double* r = &s.d.v[(size_t)i * s.d.cols() + s.d.nx + k]; r[0] += 3; r[s.d.ny] += 3; r[2 * s.d.ny] += 3; } }   // one sample off
    if (odd == 4) for (int i = 0; i < s.d.n; ++i) for (int k = 0; k < s.d.ny; ++k) { double* r = &s.d.v[(size_t)i * s.d.cols() + s.d.nx + k]; double w = (r[2 * s.d.ny] - r[s.d.ny]) / 2; if (i % 3 == 0) { r[s.d.ny] = r[0]; r[2 * s.d.ny] = r[0] + 2 * w; } }   // one-sided intervals
  } else if (s.args.find("bootstrap") == std::string::npos && KB((n + ".vec").c_str(), 35)) {
    s.args += " --bootstrap ["; int m = (int)K((n + ".vlen").c_str(), 1, 8); double out = KB((n + ".vout").c_str(), 12) ? -3 : 1; Rng r(s.seed + 5); for (int i = 0; i < m; ++i) { char b[40]; snprintf(b, sizeof b, "%s%.6g", i ? ", " : "", r.uni(0.05, 1.5) * out); s.args += b; } s.args += "]"; }
  return pr;
}
void scenario() {
  int n = (int)K("fits", 1, 3); std::vector<Prob> q; q.push_back(draw("f")); bool same = n > 1 && KB("samefitter", 60);
  for (int i = 1; i < n; ++i) { Prob s = draw("f"); if (same) for (int t = 0; t < 6 && s.s.fitter != q[0].s.fitter; ++t) s = draw("f"); q.push_back(s); }
  LifeOpt o = benign("e", false); o.wall_is_discard = true; o.wall_limit_s = 20;
  bool third = false; for (auto& x : q) third |= x.s.fitter == "nonlinear_fitter_ceres" || x.s.fitter == "nonlinear_fitter_nlopt";
  bool oom = !third && n > 1 && KB("oom", 30); if (oom) { int lg = (int)K("oomlog", 3, 13); o.alloc_fail_at = K("oomat", 0, 1L << lg); o.alloc_fail_sticky = KB("oomsticky", 20); }   // memory runs out in the first fit; the caller goes on
  LifeRes r = sim::life(o, [&] {
    std::map<std::string, ptr<alta::fitter>> kept;
    for (int i = 0; i < n; ++i) { std::string key = "k" + std::to_string(i); auto d = q[i].exact ? exact_data(q[i]) : fit_data_of(q[i].s); if (!d) { sim::out_num(key + ".st", 2); continue; }
      ptr<alta::fitter>& fit = kept[q[i].s.fitter]; if (!fit || !same) fit = alta::plugins_manager::get_fitter(q[i].s.fitter); if (!fit) { sim::out_num(key + ".st", 3); continue; }
      if (oom && i == 0) { sim::alloc_arm(true); try { one(q[i], fit, d, key); } catch (...) { sim::alloc_arm(false); sim::out_num("oomhit", 1); } sim::alloc_arm(false); continue; }
      else one(q[i], fit, d, key); }
    return 0; });
  if (r.died_badly()) violation("crash", "%s: %s", describe(q.back().s).c_str(), r.str().c_str());
  for (int i = 0; i < n; ++i) { std::string key = "k" + std::to_string(i); if ((oom && i == 0) || !sim::out_has(key + ".st") || !sim::out_has(key + ".kept")) continue; judge(q[i], key, q[i].s.fitter == "rational_fitter_quadprog"); sim::count(q[i].s.fitter.c_str()); }
  if (sim::out_has("oomhit")) sim::count("after_oom");
  if (!r.ok()) sim::count("loud");
}
