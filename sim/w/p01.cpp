// P01: plugins are resolved by the documented search order, in any load order.
#include "w/fits.h"
#include "w/formats.h"
#include <typeinfo>
extern const char* const scenario_id = "P01";
static const char* const all_models[] = {"nonlinear_function_abc", "nonlinear_function_beckmann", "nonlinear_function_blinn", "nonlinear_function_diffuse", "nonlinear_function_lafortune", "nonlinear_function_retrobeckmann", "nonlinear_function_retroblinn", "nonlinear_function_retroyoo", "nonlinear_function_sgd", "nonlinear_function_spherical_gaussian", "nonlinear_function_ward", "nonlinear_fresnel_schlick", "nonlinear_fresnel_normalized_schlick", "nonlinear_fresnel_retroschlick", "nonlinear_shadowing_schlick", "nonlinear_shadowing_smith", "nonlinear_shadowing_walter_smith", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine"};
static const char* const all_data[] = {"data_astm", "data_brdf_slice", "data_grid", "data_utia"};
static const char* const all_fitters[] = {"rational_fitter_leastsquare", "rational_fitter_eigen", "nonlinear_fitter_nlopt"};
static std::string lib(const std::string& n) { return "lib" + n + ".so"; }
// ---------------------------------------------------------------- search order
static void search_order() {
  static const char* const sys = "/usr/lib/alta_plugins";
  static const char* const dirs[] = {"/p/a", "/p/b", "/p/a b", "plugins", "/p/deep/er", ".", sys}; const int ND = 7;
  static const char* const names[] = {"so_alpha", "beta", "isogamma"};
  std::map<std::string, std::pair<int, std::string>> tree; std::string path; bool set = true;
  struct Step { int kind; std::string name, expect; std::string file; int what; std::string real, newpath; bool pset; };
  std::vector<Step> steps; sim::dl_default(false); sim::dl_clear();
  auto place = [&](const std::string& dir, const std::string& name, int type) { std::string f = dir + "/lib" + name + ".so"; Step s; s.kind = 10; s.file = f; long w = K("placed", 0, 9); if (w < 2) { s.what = sim::DL_MISSING; tree.erase(f); } else { s.what = sim::DL_REAL; s.real = type == 0 ? all_models[K("model", 0, 16)] : type == 1 ? all_data[K("datap", 0, 3)] : all_fitters[K("fit", 0, 2)]; tree[f] = {sim::DL_REAL, s.real}; s.real = lib(s.real); } return s; };
  auto newpath = [&] { path = ""; int form = (int)K("form", 0, 9); set = form != 9; if (form == 8 || form == 9) return; int n = (int)K("entries", 1, 4); for (int i = 0; i < n; ++i) { long e = K("entry", 0, ND + 2); if (i) path += ":"; if (e < ND) path += dirs[e]; if (e == ND + 2) path += std::string(dirs[K("entry2", 0, 2)]) + "/"; } };
  auto expect = [&](const std::string& name) -> std::string {
    std::vector<std::string> order; if (!set || path.empty()) order.push_back(sys); else { size_t p = 0; for (;;) { size_t e = path.find(':', p); std::string x = path.substr(p, e == std::string::npos ? e : e - p); order.push_back(x.empty() ? sys : x); if (e == std::string::npos) break; p = e + 1; } }
    for (auto& d : order) { std::string q; for (char c : d + "/lib" + name + ".so") if (!(c == '/' && !q.empty() && q.back() == '/')) q += c; auto it = tree.find(q); if (it != tree.end()) return it->second.second; }
    return ""; };
  // names are typed: alpha is a function, beta a data and gamma a fitter plugin, wherever they are
  newpath(); std::string path0 = path; bool set0 = set; int np = (int)K("initial", 2, 8); for (int i = 0; i < np; ++i) { int t = (int)K("type", 0, 2); steps.push_back(place(dirs[K("dir", 0, ND - 1)], names[t], t)); }
  int ns = (int)K("steps", 2, 10);
  for (int i = 0; i < ns; ++i) { long a = K("action", 0, 9);
    if (a == 9) { newpath(); Step s; s.kind = 11; s.newpath = path; s.pset = set; steps.push_back(s); }
    else if (a >= 7) { int t = (int)K("type", 0, 2); steps.push_back(place(dirs[K("dir", 0, ND - 1)], names[t], t)); }
    else { Step s; s.kind = (int)K("request", 0, 4); int t = s.kind <= 2 ? 0 : s.kind == 3 ? 1 : 2; s.name = names[t]; s.expect = expect(s.name); steps.push_back(s); } }
  sim::env_set("ALTA_PLUGIN_PATH", set0 ? path0.c_str() : nullptr);
  auto exec = [&](size_t i, const std::string& key) {
    const Step& s = steps[i]; alta::parameters P(6, 1, alta::params::CARTESIAN, alta::params::INV_STERADIAN); std::string got;
    if (s.kind == 10) { sim::dl_put(s.file, s.what, s.real); return; }
    if (s.kind == 11) { sim::env_set("ALTA_PLUGIN_PATH", s.pset ? s.newpath.c_str() : nullptr); return; }
    auto nm = [&](const void* o, const std::type_info& t) { return std::string(t.name()); };
    if (s.kind == 0 || s.kind == 1) { std::unique_ptr<alta::function> f(alta::plugins_manager::get_function(mkargs("--func " + s.name), P)); if (f) got = nm(f.get(), typeid(*f)); }
    if (s.kind == 2) { auto f = alta::plugins_manager::get_function(s.name, P); if (f) got = nm(f.get(), typeid(*f)); }
    if (s.kind == 3) { alta::parameters P2(2, 3, alta::params::STARK_2D, alta::params::RGB_COLOR); auto f = alta::plugins_manager::get_data(s.name, 4, P2, mkargs("")); if (f) got = nm(f.get(), typeid(*f)); }
    if (s.kind == 4) { auto f = alta::plugins_manager::get_fitter(s.name); if (f) got = nm(f.get(), typeid(*f)); }
    sim::out_put(key + std::to_string(i), got); };
  // what each real plugin provides, asked for alone
  std::map<std::string, std::string> type_of;
  LifeRes r = sim::life(benign("s", false), [&] { for (size_t i = 0; i < steps.size(); ++i) exec(i, "g"); return 0; });
  if (!r.ok()) violation("crash", "plugin requests: %s", r.str().c_str());
  sim::dl_clear(); sim::dl_default(true); sim::env_set("ALTA_PLUGIN_PATH", "/plugins");
  for (size_t i = 0; i < steps.size(); ++i) {
    Step s = steps[i]; if (s.kind > 9) continue; std::string got = sim::out_get("g" + std::to_string(i)); std::string want;
    if (!s.expect.empty()) { if (!type_of.count(s.expect)) { Step q = s; q.name = s.expect; Step keep = steps[i]; steps[i] = q; LifeRes a = sim::life(LifeOpt(), [&] { exec(i, "t"); return 0; }); steps[i] = keep; if (!a.ok()) violation("crash", "%s alone: %s", s.expect.c_str(), a.str().c_str()); type_of[s.expect] = sim::out_get("t" + std::to_string(i)); } want = type_of[s.expect]; if (want.empty()) violation("not-provided", "%s alone is not provided", s.expect.c_str()); sim::nontrivial(); }
    if (got != want) violation("search-order", "request %zu for \"%s\": got \"%s\", but the first directory of the search path that has it holds \"%s\" (%s)", i, s.name.c_str(), got.c_str(), s.expect.c_str(), want.c_str());
  }
  sim::count("search_order");
}
// ---------------------------------------------------------------- load order
struct Use { int type; ModelSpec m; FmtSpec d; FitSpec f; };
static Use gen_use(const char* p) {
  Use u; std::string n(p); long w = K((n + ".use").c_str(), 0, 9); u.type = w < 7 ? 0 : w < 9 ? 1 : 2;
  if (u.type == 0) { u.m = gen_model(n.c_str(), true, false); }
  if (u.type == 1) { u.d = gen_fmt(n.c_str(), 3, 0, true); u.d.file = n + fmt_ext[u.d.f]; }
  if (u.type == 2) u.f = gen_fit(n.c_str(), FT_LSQ | FT_EIGEN | FT_NLOPT, 10);
  return u;
}
static int do_use(const Use& u, const std::string& key) {
  if (u.type == 0) { auto f = make_model(u.m); if (!f) return 2; put_model(key, f.get(), u.m); if (u.m.cmd.find("sgd") == std::string::npos) f->save(key + ".func", mkargs(u.m.cmd)); return 0; }
  if (u.type == 1) { auto d = u.d.f == FM_GRID ? fmt_make(u.d) : fmt_load(u.d, u.d.file); if (!d) return 2; put_fmt(key, u.d, *d, 20); return 0; }
  auto d = fit_data_of(u.f); if (!d) return 2; ptr<alta::function> f; int st = run_fit(u.f, d, f); put_fit(key, u.f, st, f); return 0;
}
static void load_order() {
  Use t = gen_use("t"); int n = (int)K("others", 1, 4); std::vector<Use> o; for (int i = 0; i < n; ++i) o.push_back(gen_use("o"));
  auto files = [&](const Use& u) { if (u.type == 1 && u.d.f != FM_GRID) sim::vfs_put(u.d.file, fmt_bytes(u.d)); };
  files(t); for (auto& u : o) files(u);
  LifeOpt L; L.wall_is_discard = true; L.wall_limit_s = 12;
  LifeRes a = sim::life(L, [&] { return do_use(t, "a"); }); if (!a.ok()) { if (t.type == 2 && a.loud()) sim::discard("the fit fails loudly"); violation("crash", "a plugin alone: %s", a.str().c_str()); }
  bool before = KB("loaded", 50); int pos = (int)K("pos", 0, n);
  LifeRes b = sim::life(L, [&] {
    if (before) for (int i = n - 1; i >= 0; --i) { if (o[i].type == 0) { std::unique_ptr<alta::function> g(alta::plugins_manager::get_function(mkargs(o[i].m.cmd), spec_params(o[i].m))); } }
    for (int i = 0; i < n; ++i) { if (i == pos) do_use(t, "pre"); files(o[i]); try { do_use(o[i], "x" + std::to_string(i)); } catch (...) {} }
    return do_use(t, "b"); });
  if (!b.ok()) { if (b.loud()) for (auto& u : o) if (u.type == 2) sim::discard("a fit in between fails loudly"); violation("crash", "a plugin after others: %s", b.str().c_str()); }
  std::string df; if (t.type == 1) { FmtDump x, y; get_fmt("a", x); get_fmt("b", y); df = diff_fmt(x, y, 0, true); } else if (t.type == 0) { ModelDump x, y; get_model("a", x); get_model("b", y); df = diff_model(x, y, 0, 0, true); if (df.empty()) { std::string p, q; sim::vfs_get("a.func", p); sim::vfs_get("b.func", q); if (p != q) df = "the saved file differs"; } }
  else { double s1 = get_vecd("a.st")[0], s2 = get_vecd("b.st")[0]; if (s1 != s2) df = "the fit ends differently"; else if (!s1) { ModelDump x, y; get_model("a", x); get_model("b", y); df = diff_model(x, y, 0, 0, true); } }
  if (!df.empty()) { std::string l; for (auto& u : o) l += (u.type == 0 ? u.m.cmd : u.type == 1 ? fmt_plugin[u.d.f] : u.f.fitter) + "; "; violation("load-order", "%s differs after loading %s%s", t.type == 0 ? t.m.cmd.c_str() : t.type == 1 ? fmt_plugin[t.d.f] : t.f.fitter.c_str(), l.c_str(), df.c_str()); }
  sim::nontrivial(); sim::count("load_order");
}
void scenario() { if (K("part", 0, 1)) search_order(); else load_order(); }
