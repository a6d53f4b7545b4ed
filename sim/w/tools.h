// Command-line tools: random invocations with generated inputs, run in a life as a process would.
#pragma once
#include "w/fits.h"
#include "w/formats.h"
#include <sstream>
struct ToolIn { std::string file; int kind; /*0 native text, 1 native binary, 2 measured, 3 function, 4 native text with intervals*/ FmtSpec m; DataSpec d; ModelSpec f; FitSpec fit; bool is_fit = false; bool cart = false; };
struct ToolSpec { std::string tool, desc; std::vector<std::string> argv; std::vector<ToolIn> in; std::vector<std::string> out; bool third_party = false; };
inline std::vector<std::string> words(const std::string& s) { std::vector<std::string> w; std::string c; int br = 0; for (char ch : s) { if (ch == '[') br++; if (ch == ']') br--; if (ch == ' ' && !br) { if (!c.empty()) w.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) w.push_back(c); return w; }
// Samples at plausible directions of the given parametrization (filled in inside the preparing life).
inline DataSpec gen_dirs(const std::string& n, alta::params::input pin, int dim, int nmax, int ny, alta::params::output pout) { DataSpec d; d.pin = pin; d.nx = dim; d.ny = ny; d.pout = pout; d.n = (int)K((n + ".n").c_str(), 1, nmax); d.v.clear(); d.kind = 0; return d; }
// ---- inside a life
inline void fill_dirs(DataSpec& d, long seed) {
  d.v.assign((size_t)d.n * d.cols(), 0); Rng r(seed), r2(seed + 1); bool close = r2.chance(0.25); double ptl = 0, ptv = 0, ppl = 0, ppv = 0;      // close: measurements that (nearly) repeat a configuration
  for (int i = 0; i < d.n; ++i) { double* row = &d.v[(size_t)i * d.cols()]; double tl = r.uni(0, 1.5), tv = r.uni(0, 1.5), pl = r.uni(-3, 3), pv = r.uni(-3, 3);
    if (close && i && r2.chance(0.4)) { double e = r2.chance(0.2) ? 0 : r2.chance(0.5) ? 1e-4 : 1e-3; tl = std::fabs(ptl + r2.uni(-e, e)); tv = std::fabs(ptv + r2.uni(-e, e)); pl = ppl + r2.uni(-e, e); pv = ppv + r2.uni(-e, e); } ptl = tl; ptv = tv; ppl = pl; ppv = pv;
    double c[6] = {std::sin(tl) * std::cos(pl), std::sin(tl) * std::sin(pl), std::cos(tl), std::sin(tv) * std::cos(pv), std::sin(tv) * std::sin(pv), std::cos(tv)};
    if (r.chance(0.05)) c[2] = -c[2]; std::vector<double> x(6, 0.0); if (d.pin == alta::params::CARTESIAN) memcpy(row, c, sizeof c); else { alta::params::convert(c, alta::params::CARTESIAN, d.pin, x.data()); for (int k = 0; k < d.nx; ++k) row[k] = std::isfinite(x[k]) ? x[k] : 0.25; }
    for (int k = 0; k < d.ny; ++k) row[d.nx + k] = r.uni(0.01, 2) * c[2]; for (int k = 0; k < d.kind * d.ny; ++k) row[d.nx + d.ny + k] = r.uni(0.01, 0.1); }
}
inline void prepare_in(ToolIn& t) {
  if (t.kind == 2) return;                               // put by the controller
  if (t.kind == 3) { auto f = make_model(t.f); if (!f) throw std::runtime_error("no model"); f->save(t.file, mkargs(t.f.cmd)); return; }
  if (t.is_fit) { auto d = fit_data_of(t.fit); auto v = dynamic_cast<alta::vertical_segment*>(d.get()); std::ofstream o(t.file.c_str()); o.precision(12); auto& q = d->parametrization();
    o << "#DIM " << q.dimX() << " " << q.dimY() << "\n#PARAM_IN  " << alta::params::get_name(q.input_parametrization()) << "\n#PARAM_OUT " << alta::params::get_name(q.output_parametrization()) << "\n"; bool vs = t.fit.rational; if (vs) o << "#VS 2\n";
    for (int i = 0; i < d->size(); ++i) { vec x = d->get(i); for (int k = 0; k < x.size(); ++k) o << x[k] << "\t"; if (vs) { auto row = v->matrix_view().row(i); for (int k = x.size(); k < row.size(); ++k) o << row[k] << "\t"; } o << "\n"; } return; }
  if (t.d.v.empty()) fill_dirs(t.d, t.m.seed);
  auto d = make_vs(t.d); if (t.kind == 1) save_binary(*d, t.file); else d->save(t.file);
}
// Runs the tool as a process would; its standard output is published (also when it leaves through exit()).
struct OutCap { std::stringbuf out, err; std::streambuf *o, *e; std::string key; bool done = false; };
inline OutCap*& out_cap() { static OutCap* c = nullptr; return c; }
inline void out_publish() { OutCap* c = out_cap(); if (!c || c->done) return; c->done = true; std::cout.rdbuf(c->o); std::cerr.rdbuf(c->e); sim::out_put(c->key + ".cout", c->out.str()); sim::out_put(c->key + ".cerr", c->err.str()); }
inline int run_tool(const std::string& key, const ToolSpec& s) {
  auto m = sim::tool_main(s.tool); std::vector<char*> av; std::vector<std::string> a = s.argv; a.insert(a.begin(), s.tool); for (auto& x : a) av.push_back(&x[0]); av.push_back(nullptr);
  OutCap* c = out_cap() = new OutCap; c->key = key; c->o = std::cout.rdbuf(&c->out); c->e = std::cerr.rdbuf(&c->err); atexit(out_publish);
  sim::stack_scrub();
  int rc = m((int)a.size(), av.data()); out_publish(); return rc;
}
// ---- controller
static const struct { const char* name; alta::params::input p; int dim; } conv_params[] = {{"CARTESIAN", alta::params::CARTESIAN, 6}, {"RUSIN_TH_TD", alta::params::RUSIN_TH_TD, 2}, {"RUSIN_TH_PH_TD_PD", alta::params::RUSIN_TH_PH_TD_PD, 4}, {"RUSIN_TH_TD_PD", alta::params::RUSIN_TH_TD_PD, 3}, {"SPHERICAL_TL_PL_TV_PV", alta::params::SPHERICAL_TL_PL_TV_PV, 4}, {"ISOTROPIC_TV_TL_DPHI", alta::params::ISOTROPIC_TV_TL_DPHI, 3}, {"COS_TH_TD", alta::params::COS_TH_TD, 2}, {"STARK_2D", alta::params::STARK_2D, 2}, {"STARK_3D", alta::params::STARK_3D, 3}, {"COS_TH", alta::params::COS_TH, 1}, {"SCHLICK_TL_TK_PROJ_DPHI", alta::params::SCHLICK_TL_TK_PROJ_DPHI, 3}, {"ISOTROPIC_TL_TV_PROJ_DPHI", alta::params::ISOTROPIC_TL_TV_PROJ_DPHI, 3}};
enum { TL_D2D = 1, TL_D2B = 2, TL_B2D = 4, TL_B2B = 8, TL_GNUPLOT = 16, TL_B2S = 32, TL_D2S = 64, TL_MOM = 128, TL_ALL = 255 };
static const char* const tool_names[] = {"data2data", "data2brdf", "brdf2data", "brdf2brdf", "brdf2gnuplot", "brdf2stats", "data2stats", "data2moments"};
inline void add(ToolSpec& s, std::initializer_list<std::string> w) { for (auto& x : w) s.argv.push_back(x); }
inline ToolIn in_native(const std::string& n, const std::string& file, alta::params::input pin, int dim, int nmax, int ny, alta::params::output po) { ToolIn t; t.file = file; t.kind = KB((n + ".bin").c_str(), 40) ? 1 : 0; t.d = gen_dirs(n, pin, dim, nmax, ny, po); t.m.seed = K((n + ".seed").c_str(), 1, 1000000000); return t; }
inline ToolIn in_measured(const std::string& n, const std::string& file, int utia_pct, int merl_pm, bool astm, bool plain_slice) { ToolIn t; t.kind = 2; for (int i = 0; ; ++i) { t.m = gen_fmt(n.c_str(), utia_pct, merl_pm, astm); if (t.m.f != FM_GRID) break; if (i > 20) { t.m.f = FM_SLICE; t.m.W = t.m.H = 5; t.m.args = "--param STARK_2D"; break; } } if (plain_slice && t.m.f == FM_SLICE) t.m.args = std::string("--param ") + slice_params[t.m.seed % 4]; t.file = file; t.m.file = file; return t; }
inline ToolSpec gen_tool(const char* p, int mask, int utia_pct = 2, int merl_pm = 0) {
  ToolSpec s; std::string n(p); std::vector<int> av; for (int i = 0; i < 8; ++i) if (mask >> i & 1) av.push_back(i); int k = av[K((n + ".tool").c_str(), 0, (long)av.size() - 1)]; s.tool = tool_names[k];
  auto model_in = [&](const char* q, bool nonrat) { ToolIn t; t.kind = 3; t.file = "in.func"; for (int i = 0; ; ++i) { t.f = gen_model((n + q).c_str(), false, true); if (!(nonrat && t.f.rational)) break; if (i > 20) { t.f = ModelSpec(); t.f.cmd = "--func nonlinear_function_beckmann"; break; } } return t; };
  auto opts = [&](const std::string& q, int dx, int dy) { for (auto& w : words(gen_load_opts(q, dx, dy))) s.argv.push_back(w); };
  switch (k) {
    case 0: {
      bool interp = KB((n + ".interp").c_str(), 55); add(s, {"--input", "in", "--output", "out"});
      if (interp) { ToolIn t = in_measured(n + ".i", "in", utia_pct, merl_pm, false, false); add(s, {"--in-data", fmt_plugin[t.m.f]}); for (auto& w : words(t.m.args)) s.argv.push_back(w); s.in.push_back(t);
        int o = (int)K((n + ".outfmt").c_str(), 0, 4); if (KB((n + ".bigout").c_str(), utia_pct)) { bool sl = KB((n + ".sliceout").c_str(), 50); add(s, {"--out-data", sl ? "data_brdf_slice" : "data_utia"}); if (t.m.args.empty()) add(s, {"--param", sl ? slice_params[K((n + ".cs").c_str(), 0, 7)] : "SPHERICAL_TL_PL_TV_PV"}); } else if (o == 0) { s.out = {"out"}; if (t.m.args.empty()) add(s, {"--param", conv_params[K((n + ".cp").c_str(), 0, 11)].name}); } else if (o == 1) { add(s, {"--out-data", "alta-binary"}); } else { add(s, {"--out-data", "data_grid", "--grid-size"}); int gp = (int)K((n + ".gp").c_str(), 0, 6); int dim = grid_params[gp].dim; bool slice = !t.m.args.empty(); if (slice) { auto q = words(t.m.args)[1]; dim = 0; for (auto& g : grid_params) if (q == g.name) dim = g.dim; if (!dim) { s.argv.pop_back(); s.argv.pop_back(); s.argv.pop_back(); add(s, {"--out-data", "alta-binary"}); } } else add(s, {}); if (dim) { std::string z = "["; for (int i = 0; i < dim; ++i) z += (i ? ", " : "") + std::to_string(K((n + ".gs").c_str(), 2, dim == 3 ? 6 : 14)); s.argv.push_back(z + "]"); if (!slice) add(s, {"--param", grid_params[gp].name}); if (KB((n + ".splat").c_str(), 0)) add(s, {"--splat"}); } } }
      else { auto& c = conv_params[K((n + ".from").c_str(), 0, 11)]; int ny = KB((n + ".rgb").c_str(), 40) ? 3 : 1; s.in.push_back(in_native(n + ".i", "in", c.p, c.dim, 40, ny, ny == 3 ? alta::params::RGB_COLOR : alta::params::INV_STERADIAN)); if (KB((n + ".conv").c_str(), 75)) add(s, {"--param", conv_params[K((n + ".to").c_str(), 0, 11)].name}); if (KB((n + ".binout").c_str(), 40)) add(s, {"--out-data", "alta-binary"}); if (KB((n + ".all").c_str(), 30)) add(s, {"--all-values"}); if (KB((n + ".verb").c_str(), 10)) add(s, {"--verbose"}); opts(n + ".ld", c.dim, ny); if (KB((n + ".cosc").c_str(), 15)) add(s, {"--data-correct-cosine"}); if (KB((n + ".filter").c_str(), 15)) { std::string z = "["; for (int i = 0; i < c.dim; ++i) z += std::string(i ? ", " : "") + "-0.5"; add(s, {"--min", z + "]"}); } }
      s.out = {"out"}; break; }
    case 1: {
      ToolIn t; t.file = "in"; t.kind = 4; t.is_fit = true; t.fit = gen_fit((n + ".fit").c_str(), FT_LSQ | FT_EIGEN | FT_QUADPROG | FT_NLOPT, 12); s.third_party = t.fit.fitter == "nonlinear_fitter_nlopt"; s.in.push_back(t);
      add(s, {"--input", "in", "--output", "out", "--fitter", t.fit.fitter}); for (auto& w : words(t.fit.args)) s.argv.push_back(w); opts(n + ".ld", t.fit.rational ? t.fit.d.nx : 6, t.fit.rational ? t.fit.d.ny : t.fit.m.ny); s.out = {"out"}; break; }
    case 2: {
      s.in.push_back(model_in(".m", true)); add(s, {"--input", "in.func", "--output", "out"}); auto& m = s.in[0].f;
      bool file = KB((n + ".tmpl").c_str(), 60); if (file) { auto& c = conv_params[K((n + ".from").c_str(), 0, 7)]; s.in.push_back(in_native(n + ".i", "in", c.p, c.dim, 30, m.ny, m.pout)); add(s, {"--data-file", "in"}); if (KB((n + ".dif").c_str(), 30)) add(s, {"--export-diff"}); opts(n + ".ld", c.dim, m.ny); }
      else add(s, {"--data", "data_grid", "--param", grid_params[K((n + ".gp").c_str(), 0, 6)].name, "--PARAM_OUT", m.ny == 3 ? "RGB_COLOR" : "INV_STERADIAN"});
      s.out = {"out"}; break; }
    case 3: { s.in.push_back(model_in(".m", false)); add(s, {"--input", "in.func", "--output", "out"}); static const char* ex[] = {"", "alta", "matlab", "explorer", "shader", "C++"}; int e = (int)K((n + ".export").c_str(), 0, 5); if (e) add(s, {"--export", ex[e]}); if (KB((n + ".app").c_str(), 15)) add(s, {"--export-append", "#NOTE"}); s.out = {"out"}; break; }
    case 4: {
      s.in.push_back(model_in(".m", true)); auto& m = s.in[0].f; add(s, {"--input", "in.func", "--output", "out"});
      if (KB((n + ".polar").c_str(), 50)) { add(s, {"--polar-plot", "--inc-angle", std::to_string(K((n + ".inc").c_str(), 0, 15) * 0.1), "--samples", std::to_string(K((n + ".samples").c_str(), 2, 60))}); }
      else { auto& c = conv_params[K((n + ".from").c_str(), 0, 7)]; s.in.push_back(in_native(n + ".i", "in", c.p, c.dim, 30, m.ny, m.pout)); add(s, {"--data-file", "in"}); int e = (int)K((n + ".err").c_str(), 0, 3); if (e == 1) add(s, {"--error"}); if (e == 2) add(s, {"--linear_error"}); if (e == 3) add(s, {"--cos-plot"}); opts(n + ".ld", c.dim, m.ny); }
      s.out = {"out"}; break; }
    case 5: { ToolIn t5 = model_in(".m", true); if (KB((n + ".cartesian").c_str(), 75)) for (int i = 0; i < 12 && t5.f.pin != alta::params::CARTESIAN; ++i) t5 = model_in(".m", true); s.in.push_back(t5); auto& m = s.in[0].f; auto& c = conv_params[0]; s.in.push_back(in_native(n + ".i", "in", c.p, c.dim, 30, m.ny, m.pout)); add(s, {"--brdf", "in.func", "--input", "in", "--output", "out"}); s.out = {"out"}; break; }
    case 6: { for (int i = 0; i < 2; ++i) { ToolIn t = in_measured(n + ".i", i ? "ref" : "in", utia_pct, merl_pm, false, true); if (t.m.f == FM_SLICE) t.m.args = ""; s.in.push_back(t); } add(s, {"--input", "in", "--in-data", fmt_plugin[s.in[0].m.f], "--ref", "ref", "--ref-data", fmt_plugin[s.in[1].m.f], "--output", "out"}); s.out = {"out"}; break; }
    case 7: { ToolIn t = in_measured(n + ".i", "in", KB((n + ".slicein").c_str(), 25) ? 0 : 100, 0, false, true); s.in.push_back(t); int dim = t.m.f == FM_SLICE ? 2 : 4; add(s, {"--input", "in", "--output", "out", "--data", fmt_plugin[t.m.f]}); for (auto& w : words(t.m.args)) s.argv.push_back(w); std::string z = "["; for (int i = 0; i < dim; ++i) z += (i ? ", " : "") + std::to_string(K((n + ".samples").c_str(), 1, dim == 4 ? 6 : 20)); add(s, {"--samples", z + "]"}); if (dim == 4 && KB((n + ".dims").c_str(), 40)) add(s, {"--dim", "[" + std::to_string(K((n + ".dim").c_str(), 0, 3)) + ", " + std::to_string(K((n + ".dim").c_str(), 0, 3)) + "]"}); s.out = {"out"}; break; }
  }
  for (auto& t : s.in) if (t.kind == 2 && t.m.f == FM_UTIA_EXR && (t.file == "in" || t.file == "ref")) { for (size_t i = 1; i < s.argv.size(); ++i) if (s.argv[i] == t.file && (s.argv[i - 1] == "--input" || s.argv[i - 1] == "--ref")) s.argv[i] += ".exr"; t.file += ".exr"; t.m.file = t.file; }   // the loader goes by the name
  s.desc = s.tool; for (auto& a : s.argv) s.desc += " " + a; return s;
}
// Makes the inputs. False: the inputs cannot be made (loud).
inline bool prepare(ToolSpec& s) {
  for (auto& t : s.in) if (t.kind == 2) sim::vfs_put(t.file, fmt_bytes(t.m));
  LifeRes r = sim::life(LifeOpt(), [&] { for (auto& t : s.in) prepare_in(t); return 0; }); if (!r.ok()) { if (r.loud()) return false; violation("crash", "making the inputs of %s: %s", s.desc.c_str(), r.str().c_str()); } return true;
}
inline LifeOpt tool_opt(const ToolSpec& s, LifeOpt o = LifeOpt()) { o.cli_exit = true; if (s.third_party) { o.wall_is_discard = true; o.wall_limit_s = 12; } bool big = false; for (auto& t : s.in) if (t.kind == 2 && t.m.f >= FM_UTIA && t.m.f != FM_ASTM) { if (o.max_transfer && o.max_transfer < (t.m.f == FM_MERL ? 65536 : 4096)) o.max_transfer = t.m.f == FM_MERL ? 65536 : 4096; big = big || t.m.f == FM_MERL; } for (auto& a : s.argv) if (a == "data_utia" || a == "data_brdf_slice") { big = true; if (o.max_transfer && o.max_transfer < 4096) o.max_transfer = 4096; } if (big) o.step_budget = 4000000000L; return o; }
