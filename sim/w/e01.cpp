// E01: what a tool writes is what the library computes from its inputs.
#include "w/tools.h"
#include <map>
#include <cmath>
extern const char* const scenario_id = "E01";
using alta::params; using alta::plugins_manager;
enum Shape { SH_DATA, SH_ROWS, SH_STATS, SH_FUNC, SH_BYTES, SH_SAMPLES };
struct Expect { int shape = SH_DATA; double tol = 1e-12; };
static bool has(const ToolSpec& s, const char* w) { for (auto& a : s.argv) if (a == w) return true; return false; }
static std::string after(const ToolSpec& s, const char* w) { for (size_t i = 0; i + 1 < s.argv.size(); ++i) if (s.argv[i] == w) return s.argv[i + 1]; return ""; }

// ---- inside a life: the result, from the library
struct Table { std::vector<double> v, mag; void add(double x) { v.push_back(x); mag.push_back(std::fabs(x)); } void add(double x, double m) { v.push_back(x); mag.push_back(m); } };
static void put_table(const char* k, const Table& t) { sim::out_vec(std::string(k) + ".v", t.v.data(), t.v.size()); sim::out_vec(std::string(k) + ".m", t.mag.data(), t.mag.size()); }
static void put_head(int n, int nx, int ny, params::input pi, params::output po) { sim::out_num("e.n", n); sim::out_num("e.nx", nx); sim::out_num("e.ny", ny); sim::out_put("e.pin", params::get_name(pi)); sim::out_put("e.pout", params::get_name(po)); }
static vec at_function(const vec& row, const alta::data& d, alta::function& f) {
  vec x(std::max(6, f.parametrization().dimX())); x.setZero();
  if (f.parametrization().input_parametrization() == params::UNKNOWN_INPUT) { if (row.size() < f.parametrization().dimX()) throw std::runtime_error("too few coordinates"); for (int k = 0; k < f.parametrization().dimX(); ++k) x[k] = row[k]; }
  else params::convert(row.data(), d.parametrization().input_parametrization(), f.parametrization().input_parametrization(), x.data());
  vec y = x.head(f.parametrization().dimX()); return y;
}
static std::vector<double> outputs(const double* y, int ny, int no) { std::vector<double> r; if (ny == no) for (int k = 0; k < no; ++k) r.push_back(y[k]); else if (ny == 1) r.assign((size_t)no, y[0]); else if (no == 1) { double a = 0; for (int k = 0; k < ny; ++k) a += y[k]; r.push_back(a / ny); } else throw std::runtime_error("no such conversion"); return r; }
static int expect_data2data(const ToolSpec& s, const alta::arguments& args) {
  ptr<alta::data> d = plugins_manager::load_data(after(s, "--input"), after(s, "--in-data"), args); if (!d) return 1;
  auto q = d->parametrization(); params::input po = q.input_parametrization(); if (has(s, "--param")) po = params::parse_input(after(s, "--param")); if (po == params::UNKNOWN_INPUT) return 1;
  std::string od = after(s, "--out-data"); bool own = !od.empty() && od != "alta-binary";
  if (!own) {
    Table t; int nx = params::dimension(po), ny = q.dimY(); put_head(d->size(), nx, ny, po, q.output_parametrization());
    for (int i = 0; i < d->size(); ++i) {
      vec x = d->get(i), c(6), y(6); c.setZero(); y.setZero(); params::convert(x.data(), q.input_parametrization(), po, y.data());
      params::convert(y.data(), po, params::CARTESIAN, c.data());
      bool keep = (c[2] >= 0 && c[5] >= 0) || has(s, "--all-values");
      for (int k = 0; k < nx; ++k) t.add(keep ? y[k] : 0); for (int k = 0; k < ny; ++k) t.add(keep ? x[q.dimX() + k] : 0);
    }
    put_table("e", t); return 0;
  }
  ptr<alta::data> o = plugins_manager::get_data(od, d->size(), alta::parameters(params::dimension(po), q.dimY(), po, q.output_parametrization()), args); if (!o) return 1;
  auto p = o->parametrization(); put_head(o->size(), p.dimX(), p.dimY(), p.input_parametrization(), p.output_parametrization());
  Table t; std::vector<double> ids; Rng r(s.in[0].m.seed + 3); int n = o->size(), full = od == "data_grid" ? n : 500;
  for (int j = 0; j < std::min(n, full); ++j) { int i = full == n ? j : j == 0 ? 0 : j == 1 ? n - 1 : (int)r.below(n); ids.push_back(i);
    vec x = o->get(i), c(6); c.setZero(); params::convert(x.data(), p.input_parametrization(), params::CARTESIAN, c.data()); std::vector<double> y((size_t)p.dimY(), 0.0);
    if (c[2] >= 0 && c[5] >= 0) { vec w(std::max(6, q.dimX())); w.setZero(); params::convert(c.data(), params::CARTESIAN, q.input_parametrization(), w.data()); vec u = w.head(q.dimX()); vec z = d->value(u); y = outputs(z.data(), (int)z.size(), p.dimY()); }
    for (int k = 0; k < p.dimX(); ++k) t.add(x[k]); for (int k = 0; k < p.dimY(); ++k) t.add(y[k]); }
  put_table("e", t); sim::out_vec("e.ids", ids.data(), ids.size()); return 0;
}
static int expect_brdf2data(const ToolSpec& s, const alta::arguments& args) {
  ptr<alta::function> f(plugins_manager::load_function(after(s, "--input"))); if (!f) return 1;
  ptr<alta::data> d = has(s, "--data-file") ? plugins_manager::load_data(after(s, "--data-file"), after(s, "--data"), args) : plugins_manager::get_data(after(s, "--data"), 0, alta::parameters(), args); if (!d) return 1;
  auto q = d->parametrization(); put_head(d->size(), q.dimX(), q.dimY(), q.input_parametrization(), q.output_parametrization()); Table t; std::vector<double> ids;
  for (int i = 0; i < d->size(); ++i) { vec x = d->get(i), y = f->value(at_function(x, *d, *f)); if (y.size() != q.dimY()) return 1; ids.push_back(i);
    for (int k = 0; k < q.dimX(); ++k) t.add(x[k]); for (int k = 0; k < q.dimY(); ++k) { double v = x[q.dimX() + k]; if (has(s, "--export-diff")) t.add(v - y[k], std::fabs(v) + std::fabs(y[k])); else t.add(y[k]); } }
  put_table("e", t); sim::out_vec("e.ids", ids.data(), ids.size()); return 0;
}
static int expect_gnuplot(const ToolSpec& s, const alta::arguments& args) {
  ptr<alta::function> f(plugins_manager::load_function(after(s, "--input"))); if (!f) return 1; auto p = f->parametrization(); Table t; int rows = 0, cols = 0;
  if (has(s, "--polar-plot")) {
    double inc = atof(after(s, "--inc-angle").c_str()); float incf = (float)inc; int N = atoi(after(s, "--samples").c_str()) / 2; cols = 1 + p.dimY();
    for (int side = 0; side < 2; ++side) for (int i = 0; i < N; ++i) { double a[4] = {(double)incf, M_PI, 0.5 * M_PI * i / N, side ? 0.0 : M_PI}; vec x(std::max(6, p.dimX())); x.setZero(); params::convert(a, params::SPHERICAL_TL_PL_TV_PV, p.input_parametrization(), x.data()); vec u = x.head(p.dimX()); vec y = f->value(u); t.add(side ? a[2] : -a[2]); for (int k = 0; k < p.dimY(); ++k) t.add(y[k]); ++rows; }
  } else {
    ptr<alta::data> d = plugins_manager::load_data(after(s, "--data-file"), after(s, "--data"), args); if (!d || d->size() == 0) return 1; auto q = d->parametrization(); bool lin = !has(s, "--error") && has(s, "--linear_error"), err = has(s, "--error"); cols = (lin ? 1 : q.dimX()) + q.dimY();
    for (int i = 0; i < d->size(); ++i) { vec x = d->get(i), u = at_function(x, *d, *f), y = f->value(u); if (y.size() != q.dimY()) return 1; double cosine = 1;
      if (has(s, "--cos-plot") && p.input_parametrization() != params::UNKNOWN_INPUT) { double c[6]; params::convert(u.data(), p.input_parametrization(), params::CARTESIAN, c); cosine = c[2] * c[5]; }
      if (lin) t.add(i); else for (int k = 0; k < q.dimX(); ++k) t.add(x[k]);
      for (int k = 0; k < q.dimY(); ++k) { double v = x[q.dimX() + k], z = cosine * y[k], m = std::fabs(v) + std::fabs(z); if (err) t.add(v - z, m); else if (lin) t.add((v - z) / v, m / std::fabs(v)); else t.add(z, std::fabs(z)); } ++rows; }
  }
  sim::out_num("e.n", rows); sim::out_num("e.nx", cols); sim::out_num("e.ny", 0); put_table("e", t); return 0;
}
// The norms of a list of differences, by their definitions.
static void put_norms(const std::vector<std::vector<double>>& diff, int ny, const std::vector<double>& cl, const std::vector<double>& cv) {
  std::map<std::string, Table> m; int n = (int)diff.size();
  for (int k = 0; k < ny; ++k) { long double a = 0, b = 0, c = 0, x = 0, w1 = 0, w2 = 0; bool bad = false;
    for (int i = 0; i < n; ++i) { long double e = std::fabs((long double)diff[i][k]); bad = bad || !std::isfinite(diff[i][k]) || e > 1e90; a += e; b += e * e; c += e * e * e; x = std::max(x, e); if (!cl.empty()) { w1 += e * e * cl[i] * cl[i]; w2 += e * e * cl[i] * cl[i] * cv[i] * cv[i]; } }
    double un = std::nan(""); auto put = [&](const char* nm, long double v) { m[nm].add(bad ? un : (double)v); };
    put("L1", a); put("L2", sqrtl(b)); put("L3", cbrtl(c)); put("LINF", x); put("MSE", b / n); put("RMSE", sqrtl(b / n));
    if (!cl.empty()) { put("MSE * cos(theta_light)", w1 / n); put("RMSE * cos(theta_light)", sqrtl(w1 / n)); put("MSE * cos(theta_light) * cos(theta_view)", w2 / n); put("RMSE * cos(theta_light) cos(theta_view)", sqrtl(w2 / n)); } }
  std::string names; for (auto& e : m) { names += e.first + "\n"; put_table(("e." + e.first).c_str(), e.second); } sim::out_put("e.names", names);
}
static int expect_brdf2stats(const ToolSpec& s, const alta::arguments& args) {
  ptr<alta::data> d = plugins_manager::load_data(after(s, "--input"), "vertical_segment", args); ptr<alta::function> f(plugins_manager::load_function(after(s, "--brdf"))); if (!d || !f || d->size() == 0) return 1;
  auto p = f->parametrization(), q = d->parametrization(); if (p.input_parametrization() != params::CARTESIAN) return 1;
  if (q.input_parametrization() != params::CARTESIAN && q.output_parametrization() != p.output_parametrization()) return 1;
  std::vector<std::vector<double>> df; std::vector<double> cl, cv;
  for (int i = 0; i < d->size(); ++i) { vec x = d->get(i), c(6); params::convert(x.data(), q.input_parametrization(), params::CARTESIAN, c.data()); vec y = f->value(c); std::vector<double> z = outputs(x.data() + q.dimX(), q.dimY(), p.dimY()), r; for (int k = 0; k < p.dimY(); ++k) r.push_back(z[k] - y[k]); df.push_back(r); cl.push_back(c[2]); cv.push_back(c[5]); }
  put_norms(df, p.dimY(), cl, cv); return 0;
}
static int expect_data2stats(const ToolSpec& s, const alta::arguments&) {
  ptr<alta::data> d = plugins_manager::load_data(after(s, "--input"), after(s, "--in-data")), o = plugins_manager::load_data(after(s, "--ref"), after(s, "--ref-data")); if (!d || !o) return 1;
  auto p = o->parametrization(), q = d->parametrization(); if (p.dimY() != q.dimY()) return 1; std::vector<std::vector<double>> df;
  for (int i = 0; i < o->size(); ++i) { vec x = o->get(i), c(6); params::convert(x.data(), p.input_parametrization(), params::CARTESIAN, c.data()); std::vector<double> r((size_t)p.dimY(), 0.0);
    if (c[2] >= 0 || c[5] >= 0) { vec w(std::max(6, q.dimX())); w.setZero(); params::convert(c.data(), params::CARTESIAN, q.input_parametrization(), w.data()); vec u = w.head(q.dimX()); vec y = d->value(u); for (int k = 0; k < p.dimY(); ++k) r[k] = x[p.dimX() + k] - y[k]; }
    df.push_back(r); }
  put_norms(df, p.dimY(), {}, {}); return 0;
}
static int expect_moments(const ToolSpec& s, const alta::arguments& args) {
  ptr<alta::data> d = plugins_manager::load_data(after(s, "--input"), after(s, "--data"), args); if (!d) return 1; int nx = d->parametrization().dimX(), ny = d->parametrization().dimY();
  std::vector<int> n = args.get_vec<int>("samples"), dim = {0, 1}; if (has(s, "--dim")) dim = args.get_vec<int>("dim"); if ((int)n.size() != nx) return 1; for (int k : dim) if (k < 0 || k >= nx) return 1;
  std::vector<double> lowest((size_t)ny, INFINITY); for (int i = 0; i < d->size(); ++i) { vec x = d->get(i); for (int k = 0; k < ny; ++k) lowest[k] = std::min(lowest[k], x[nx + k]); }
  vec lo = d->min(), hi = d->max(); if (lo.size() < nx || hi.size() < nx) return 1; long double dt = 1; long nb = 1; for (int k = 0; k < nx; ++k) if (hi[k] > lo[k]) { dt *= hi[k] - lo[k]; nb *= n[k]; } else n[k] = 1; dt /= nb;
  static const char* const names[] = {"\\mu_0 =", "\\mu_x =", "\\mu_y =", "\\mu_{xx} =", "\\mu_{xy} =", "\\mu_{yy} =", "\\mu_{xxx} =", "\\mu_{xxy} =", "\\mu_{xyy} =", "\\mu_{yyy} ="}; static const int px[] = {0, 1, 0, 2, 1, 0, 3, 2, 1, 0}, py[] = {0, 0, 1, 0, 1, 2, 0, 1, 2, 3};
  std::vector<std::vector<long double>> m(10, std::vector<long double>((size_t)ny, 0)), a = m;
  std::vector<int> at((size_t)nx, 0);
  for (long i = 0; i < nb; ++i) { vec x(nx); for (int k = 0; k < nx; ++k) x[k] = lo[k] + (hi[k] - lo[k]) * ((double)at[k] / n[k]); vec y = d->value(x);
    for (int c = 0; c < ny; ++c) for (int j = 0; j < 10; ++j) { long double v = ((long double)y[c] - lowest[c]) * dt * powl(x[dim[0]], px[j]) * powl(x[dim[1]], py[j]); m[j][c] += v; a[j][c] += std::fabs(v); }
    for (int k = 0; k < nx; ++k) { if (++at[k] < n[k]) break; at[k] = 0; } }
  std::string all; for (int j = 0; j < 10; ++j) { Table t; for (int c = 0; c < ny; ++c) { double v = (double)(j ? m[j][c] / m[0][c] : m[0][c]); double g = (double)(j ? a[j][c] / std::fabs(m[0][c]) : a[0][c]); if (a[0][c] > 1e6 * std::fabs(m[0][c])) v = std::nan(""); t.add(v, g); } put_table((std::string("e.") + names[j]).c_str(), t); all += std::string(names[j]) + "\n"; }
  sim::out_put("e.names", all); return 0;
}
static int expect_fit(const ToolSpec& s, alta::arguments args) {
  ptr<alta::fitter> fit = plugins_manager::get_fitter(after(s, "--fitter")); if (!fit) return 1; fit->set_parameters(args);
  ptr<alta::data> d = plugins_manager::load_data(after(s, "--input"), after(s, "--data"), args); if (!d) return 1;
  ptr<alta::function> f(plugins_manager::get_function(args, d->parametrization())); if (!f || d->size() == 0) return 1; plugins_manager::check_compatibility(d, f, args);
  if (!fit->fit_data(d, f, args)) return 1; f->save("expected", args); return 0;
}
static int expect_export(const ToolSpec& s, const alta::arguments& args, bool alta_format) {
  ptr<alta::function> f(plugins_manager::load_function("in.func")); if (!f) return 1; if (alta_format) put_model("e", f.get(), s.in[0].f); else f->save("expected", args); return 0;
}
static int expect(const ToolSpec& s, bool alta_format) {
  std::vector<std::string> a = s.argv; a.insert(a.begin(), s.tool); std::vector<char*> av; for (auto& x : a) av.push_back(&x[0]); av.push_back(nullptr); alta::arguments args((int)a.size(), av.data());
  if (s.tool == "data2data") return expect_data2data(s, args); if (s.tool == "brdf2data") return expect_brdf2data(s, args); if (s.tool == "brdf2gnuplot") return expect_gnuplot(s, args); if (s.tool == "brdf2stats") return expect_brdf2stats(s, args);
  if (s.tool == "data2stats") return expect_data2stats(s, args); if (s.tool == "data2moments") return expect_moments(s, args); if (s.tool == "data2brdf") return expect_fit(s, args); return expect_export(s, args, alta_format);
}
// ---- controller: what the file says
struct Got { bool ok = true; std::string why, pin, pout; int nx = -1, ny = -1; std::vector<std::vector<double>> rows; };
static Got parse_data(const std::string& b, bool header) {
  Got g; size_t at = 0; long count = -1; int vs = 0; bool bin = false;
  auto word = [](const std::string& l, const char* k, std::string& v) { size_t n = strlen(k); if (l.compare(0, n, k) || (l.size() > n && l[n] != ' ')) return false; size_t a = l.find_first_not_of(' ', n); v = a == std::string::npos ? "" : l.substr(a); return true; };
  while (at < b.size()) { size_t e = b.find('\n', at); if (e == std::string::npos) { g.ok = false; g.why = "the last line has no end"; return g; } std::string l = b.substr(at, e - at), v; at = e + 1;
    if (!l.empty() && l[0] == '#') { if (word(l, "#DIM", v)) sscanf(v.c_str(), "%d %d", &g.nx, &g.ny); else if (word(l, "#PARAM_IN", v)) g.pin = v; else if (word(l, "#PARAM_OUT", v)) g.pout = v; else if (word(l, "#FORMAT", v)) bin = v == "binary"; else if (word(l, "#SAMPLE_COUNT", v)) count = atol(v.c_str()); else if (word(l, "#VS", v)) vs = atoi(v.c_str()); else if (l == "#BEGIN_STREAM") break; continue; }
    std::vector<double> r; const char* p = l.c_str(); for (;;) { char* q; double x = strtod(p, &q); if (q == p) break; r.push_back(x); p = q; } while (*p == ' ' || *p == '\t' || *p == '\r') ++p; if (*p) { g.ok = false; g.why = "a line is no list of numbers: \"" + l.substr(0, 60) + "\""; return g; }
    if (!r.empty()) g.rows.push_back(r); }
  if (header && (g.nx < 0 || g.ny < 0)) { g.ok = false; g.why = "no dimensions in the header"; return g; }
  if (bin) { int w = g.nx + g.ny * (1 + vs); if (count < 0 || w <= 0 || b.size() < at + (size_t)count * w * 8) { g.ok = false; g.why = "too few bytes"; return g; } for (long i = 0; i < count; ++i) { std::vector<double> r((size_t)w); memcpy(r.data(), &b[at + (size_t)i * w * 8], (size_t)w * 8); r.resize((size_t)(g.nx + g.ny)); g.rows.push_back(r); } }
  return g;
}
static bool near(double want, double got, double mag, double tol) { if (std::isnan(want)) return std::isnan(got); if (std::isinf(want) || std::isinf(got)) return want == got; return want == got || std::fabs(want - got) <= tol * std::max(mag, std::fabs(want)) + 1e-300; }
static std::string compare(const std::vector<std::vector<double>>& rows, const std::vector<double>& v, const std::vector<double>& mag, int n, int w, double tol) {
  char m[300]; if ((int)rows.size() != n) { snprintf(m, sizeof m, "%zu samples, %d expected", rows.size(), n); return m; }
  for (int i = 0; i < n; ++i) { if ((int)rows[i].size() != w) { snprintf(m, sizeof m, "%zu numbers for sample %d, %d expected", rows[i].size(), i, w); return m; } for (int k = 0; k < w; ++k) if (!near(v[(size_t)i * w + k], rows[i][k], mag[(size_t)i * w + k], tol)) { snprintf(m, sizeof m, "number %d of sample %d of %d is %.12g, %.12g expected", k, i, n, rows[i][k], v[(size_t)i * w + k]); return m; } }
  return "";
}
// Text equal but for the last digits of its numbers.
static std::string compare_text(const std::string& want, const std::string& got, double tol) {
  std::istringstream a(want), b(got); std::string u, v; int n = 0;
  for (;;) { bool x = (bool)(a >> u), y = (bool)(b >> v); if (!x && !y) return ""; ++n; if (x != y) return "word " + std::to_string(n) + (x ? " is missing" : " is too much"); if (u == v) continue; char *p, *q; double c = strtod(u.c_str(), &p), d = strtod(v.c_str(), &q); if (p == u.c_str() || std::string(p) != std::string(q) || !near(c, d, 0, tol)) return "word " + std::to_string(n) + " is \"" + v + "\", \"" + u + "\" expected"; }
}
static std::string compare_stats(const std::string& bytes) {
  std::map<std::string, std::vector<double>> got; std::string cur, line; std::istringstream in(bytes); std::vector<std::string> names; { std::istringstream n(sim::out_get("e.names")); while (std::getline(n, line)) names.push_back(line); }
  while (std::getline(in, line)) { if (!line.empty() && line[0] == '#') continue; std::string rest = line; size_t c = line.find(" :"); bool lab = false; for (auto& n : names) { if (line.compare(0, n.size(), n)) continue; std::string t = line.substr(n.size()); size_t k = t.find_first_not_of(' '); if (n.back() != '=') { if (k == std::string::npos || t[k] != ':') continue; ++k; } else if (k == std::string::npos) k = 0; cur = n; rest = t.substr(k); lab = true; break; } (void)c;
    if (!lab && line.find(" :") != std::string::npos) { cur = ""; continue; } for (auto& ch : rest) if (ch == '[' || ch == ']' || ch == ',') ch = ' '; const char* p = rest.c_str(); for (;;) { char* q; double x = strtod(p, &q); if (q == p) break; if (!cur.empty()) got[cur].push_back(x); p = q; } }
  char m[300];
  for (auto& n : names) { auto v = get_vecd("e." + n + ".v"), g = get_vecd("e." + n + ".m"); auto& r = got[n]; if (r.size() != v.size()) { snprintf(m, sizeof m, "%zu numbers for \"%s\", %zu expected", r.size(), n.c_str(), v.size()); return m; } for (size_t i = 0; i < v.size(); ++i) if (!std::isnan(v[i]) && std::isfinite(v[i]) && !near(v[i], r[i], 0, 1e-5) && !(std::fabs(v[i] - r[i]) <= 1e-9 * g[i])) { snprintf(m, sizeof m, "\"%s\" is %.9g for channel %zu, %.9g expected", n.c_str(), r[i], i, v[i]); return m; } }
  return "";
}
void scenario() {
  ToolSpec s = gen_tool("t", TL_ALL, 6); if (has(s, "--log-fit") || has(s, "--export-append")) sim::discard("asks for more"); if (!prepare(s)) sim::discard("the inputs cannot be made"); auto clean = sim::vfs_snapshot();
  bool alta_format = s.tool == "brdf2brdf" && (!has(s, "--export") || after(s, "--export") == "alta");
  std::string od = after(s, "--out-data"); bool image = od == "data_brdf_slice" || od == "data_utia";
  LifeRes e = sim::life(tool_opt(s), [&] { return expect(s, alta_format); }); if (e.died_badly()) violation("crash", "computing what %s should write: %s", s.desc.c_str(), e.str().c_str());
  std::string want; sim::vfs_get("expected", want);
  if (s.tool == "data2brdf" || (s.tool == "brdf2brdf" && !alta_format)) if (e.ok() && want.empty()) sim::discard("nothing to compare");
  long bytes = 200; LifeRes ref = e; int tries = (int)K("tries", 1, 3);
  for (int t = 0; t < tries; ++t) {
    sim::vfs_restore(clean); LifeOpt o = tool_opt(s, t ? benign("b") : LifeOpt()); std::string what; if (t && KB("faulty", 60)) what = ", " + (KB("reading", 50) ? draw_read_fault("r", o, ref) : draw_write_fault("w", o, ref, bytes));
    LifeRes r = sim::life(o, [&] { return run_tool("x", s); }); if (r.died_badly()) violation("crash", "%s%s: %s", s.desc.c_str(), what.c_str(), r.str().c_str());
    if (t == 0) { ref = r; sim::count((s.tool + (r.ok() ? e.ok() ? ".ok" : ".only_tool" : e.ok() ? ".only_library" : ".refuses")).c_str()); if (!r.ok() && e.ok()) violation("refused", "%s: ends with %s, although the library does it", s.desc.c_str(), r.str().c_str()); }
    if (!r.ok()) { if (t == 0) break; continue; } if (!e.ok()) break;
    std::string b, df; if (!sim::vfs_get("out", b)) violation("result", "%s%s: status 0 but no output", s.desc.c_str(), what.c_str()); bytes = (long)b.size();
    if (s.tool == "data2stats" || s.tool == "brdf2stats" || s.tool == "data2moments") df = compare_stats(b);
    else if (alta_format) { LifeRes l = sim::life(LifeOpt(), [&] { ptr<alta::function> f(plugins_manager::load_function("out")); if (!f) return 1; put_model("g", f.get(), s.in[0].f); return 0; }); ModelDump x, y; if (!l.ok()) df = "it cannot be loaded: " + l.str(); else if (get_model("e", x) && get_model("g", y)) df = diff_model(x, y, 1e-9, 1e-6, true); }
    else if (s.tool == "data2brdf" || s.tool == "brdf2brdf") { std::string u = want, v = b; for (auto* z : {&u, &v}) { size_t c = z->find("#FUNC"); if (s.tool == "data2brdf" && c != std::string::npos) z->erase(0, c); } df = compare_text(u, v, 1e-6); }
    else if (image) {
      LifeRes l = sim::life(LifeOpt(), [&] { alta::arguments a = mkargs(has(s, "--param") && od == "data_brdf_slice" ? "--param " + after(s, "--param") : ""); auto d = plugins_manager::load_data("out", od, a); if (!d) return 1; sim::out_num("g.n", d->size()); auto ids = get_vecd("e.ids"); Table t; for (double i : ids) { if (i >= d->size()) break; vec x = d->get((int)i); for (int k = 0; k < x.size(); ++k) t.add(x[k]); } put_table("g", t); return 0; });
      if (!l.ok()) df = "it cannot be loaded: " + l.str(); else { auto v = get_vecd("g.v"); int w = (int)get_vecd("e.nx")[0] + (int)get_vecd("e.ny")[0]; std::vector<std::vector<double>> rows; for (size_t i = 0; i + w <= v.size(); i += w) rows.push_back(std::vector<double>(v.begin() + i, v.begin() + i + w)); if (get_vecd("g.n")[0] != get_vecd("e.n")[0]) df = "another number of samples"; else df = compare(rows, get_vecd("e.v"), get_vecd("e.m"), (int)get_vecd("e.ids").size(), w, 1e-5); }
    } else {
      bool head = s.tool != "brdf2gnuplot"; Got g = parse_data(b, head); int n = (int)get_vecd("e.n")[0], nx = (int)get_vecd("e.nx")[0], ny = (int)get_vecd("e.ny")[0];
      if (!g.ok) df = g.why; else if (head && (g.nx != nx || g.ny != ny)) df = "dimensions " + std::to_string(g.nx) + " " + std::to_string(g.ny) + ", " + std::to_string(nx) + " " + std::to_string(ny) + " expected";
      else if (head && (g.pin != sim::out_get("e.pin") || g.pout != sim::out_get("e.pout"))) df = "parametrizations " + g.pin + " " + g.pout + ", " + sim::out_get("e.pin") + " " + sim::out_get("e.pout") + " expected";
      else df = compare(g.rows, get_vecd("e.v"), get_vecd("e.m"), n, nx + ny, head ? 1e-12 : 1e-8);
    }
    if (!df.empty()) violation("result", "%s%s: status 0, but what it writes is not what the library computes from its inputs: %s", s.desc.c_str(), what.c_str(), df.c_str());
    sim::nontrivial(); sim::count("compared"); if (!what.empty()) sim::count("compared_after_fault");
  }
}
