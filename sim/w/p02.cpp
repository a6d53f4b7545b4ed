// P02: a plugin that cannot be loaded is reported, never silently replaced.
#include "w/fits.h"
#include "w/formats.h"
#include <typeinfo>
extern const char* const scenario_id = "P02";
static const char* const lobes6[] = {"nonlinear_function_beckmann", "nonlinear_function_blinn", "nonlinear_function_diffuse", "nonlinear_function_retrobeckmann", "nonlinear_function_retroyoo", "nonlinear_function_spherical_gaussian", "nonlinear_function_ward", "nonlinear_function_lafortune"};
static const char* const datas[] = {"data_astm", "data_brdf_slice", "data_grid"};
static const char* const fitters[] = {"rational_fitter_leastsquare", "rational_fitter_eigen", "nonlinear_fitter_nlopt"};
enum Kind { KF, KD_, KT };
static int kind_of(const std::string& real) { return real.find("data_") == 0 ? KD_ : real.find("_fitter_") != std::string::npos ? KT : KF; }
static bool nonlinear(const std::string& real) { return real.find("nonlinear_f") == 0 && kind_of(real) == KF && real.find("nonlinear_fitter") != 0 ? true : real.find("nonlinear_shadowing") == 0; }
struct Step { int kind; std::string file, real; int what = 0; std::string path, cmd, data; std::vector<std::string> want; bool must = false; std::string body; };
// leaf types of a function, in order
static std::string types(alta::function* f) {
  if (!f) return ""; std::string s;
  if (auto c = dynamic_cast<alta::compound_function*>(f)) { s = "["; for (unsigned i = 0; i < c->size(); ++i) s += types((*c)[i]) + ";"; return s + "]"; }
  if (auto p = dynamic_cast<alta::product_function*>(f)) return "(" + types(p->first()) + "*" + types(p->second()) + ")";
  return typeid(*f).name();
}
static const alta::parameters P6() { return alta::parameters(6, 1, alta::params::CARTESIAN, alta::params::INV_STERADIAN); }
void scenario() {
  static const char* const dirs[] = {"/p/a", "/p/b", "/p/c"}; sim::dl_default(false); sim::dl_clear(); sim::env_set("ALTA_PLUGIN_PATH", "/p/a:/p/b:/p/c");
  // alpha, delta: functions; beta: datasets; gamma: fitters
  static const char* const names[] = {"alpha", "delta", "beta", "gamma"};
  std::map<std::string, std::pair<int, std::string>> tree;
  auto pick = [&](int role) -> std::string { switch (role) { case 0: return KB("rat", 12) ? rationals[K("rfam", 1, 3)] : lobes6[K("lobe", 0, 7)]; case 1: return KB("ratf", 10) ? rationals[K("rfam", 1, 3)] : factors[K("fac", 0, 5)]; case 2: return datas[K("datap", 0, 2)]; default: return fitters[K("fit", 0, 2)]; } };
  auto place = [&] { Step s; s.kind = 10; int role = (int)K("role", 0, 3); s.file = std::string(dirs[K("dir", 0, 2)]) + "/lib" + names[role] + ".so"; long w = K("state", 0, 9);
    s.what = w < 4 ? sim::DL_REAL : w < 6 ? sim::DL_CORRUPT : w < 7 ? sim::DL_NOSYM : w < 8 ? sim::DL_REAL : sim::DL_MISSING;
    if (w == 7) { int other = (role < 2 ? 2 : 0) + (int)K("otherkind", 0, 1); if (role == 3) other = (int)K("otherkind3", 0, 2); if (role == 2) other = (int)K("otherkind2", 0, 1) ? 3 : 0; s.real = pick(other); } else if (s.what == sim::DL_REAL) s.real = pick(role);
    if (s.what == sim::DL_NOSYM) { s.what = sim::DL_REAL; s.real = "NOSYM"; }
    tree[s.file] = {s.what, s.real}; if (s.what != sim::DL_MISSING && s.what != sim::DL_CORRUPT) s.real = s.real == "NOSYM" ? "libaltacore_sim.so" : "lib" + s.real + ".so"; return s; };
  auto find = [&](const std::string& name, int kind) -> std::string { for (auto d : dirs) { auto it = tree.find(std::string(d) + "/lib" + name + ".so"); if (it != tree.end() && it->second.first == sim::DL_REAL && it->second.second != "NOSYM" && kind_of(it->second.second) == kind) return it->second.second; } return ""; };
  std::vector<Step> steps; int init = (int)K("initial", 3, 9); for (int i = 0; i < init; ++i) steps.push_back(place());
  int ns = (int)K("steps", 2, 10), nfile = 0;
  for (int i = 0; i < ns; ++i) {
    if (KB("change", 40)) { steps.push_back(place()); continue; }
    Step s; int rq = (int)K("request", 0, 8); s.kind = rq; std::string a = find("alpha", KF), d = find("delta", KF);
    switch (rq) {
      case 0: s.cmd = "--func alpha"; if (!a.empty()) s.want = {a}; break;
      case 1: s.cmd = "alpha"; if (!a.empty()) s.want = {a}; break;
      case 2: s.cmd = "--func alpha --fresnel delta"; { int fx = (int)K("fixed", 0, 3); if (fx == 1) s.cmd += " --fixed-lobe"; if (fx == 2) s.cmd += " --fixed-fresnel"; } if (nonlinear(a) && nonlinear(d)) s.want = {"(", a, "*", d, ")"}; break;
      case 3: { int v = (int)K("compound", 0, 3); if (v == 0) { s.cmd = "--func [alpha, delta]"; if (nonlinear(a) && nonlinear(d)) s.want = {"[", a, ";", d, ";", "]"}; } if (v == 1) { s.cmd = "--func [delta, alpha, alpha]"; if (nonlinear(a) && nonlinear(d)) s.want = {"[", d, ";", a, ";", a, ";", "]"}; } if (v == 2) { s.cmd = "--func [alpha]"; if (nonlinear(a)) s.want = {"[", a, ";", "]"}; } if (v == 3) { s.cmd = "--func [alpha, alpha --fresnel delta]"; if (nonlinear(a) && nonlinear(d)) s.want = {"[", a, ";", "(", a, "*", d, ")", ";", "]"}; } break; }
      case 4: case 5: { bool prod = rq == 5; s.cmd = prod ? "--func alpha --fresnel delta" : "--func alpha"; s.body = prod ? (nonlinear(a) ? a : std::string(lobes6[0])) + " --fresnel " + (nonlinear(d) ? d : std::string(factors[0])) : (a.empty() ? std::string(lobes6[0]) : a); if (prod ? nonlinear(a) && nonlinear(d) : !a.empty()) { if (prod) s.want = {"(", a, "*", d, ")"}; else s.want = {a}; } s.file = "f" + std::to_string(nfile++); break; }
      case 6: case 7: { std::string b = find("beta", KD_); s.kind = 6; s.cmd = "beta"; if (!b.empty()) s.want = {b}; if (rq == 7 && b != "data_grid") { s.kind = 7; FmtSpec q; q.f = b == "data_brdf_slice" ? FM_SLICE : FM_ASTM; q.nx = 4; q.ny = 3; q.W = q.H = 3; s.file = "d" + std::to_string(nfile++); sim::vfs_put(s.file, fmt_bytes(q)); } break; }
      case 8: { std::string t = find("gamma", KT); s.cmd = "gamma"; if (!t.empty()) s.want = {t}; break; }
    }
    steps.push_back(s); }
  // what the plugins provide, and the function files, made in processes of their own where every plugin is available
  std::map<std::string, std::string> type_of; std::vector<std::string> reals; for (auto& s : steps) for (auto& w : s.want) if (w.size() > 3 && !type_of.count(w)) { type_of[w] = ""; reals.push_back(w); }
  auto saved = std::vector<std::pair<std::string, std::pair<int, std::string>>>(); (void)saved;
  sim::dl_default(true); std::string path = "/p/a:/p/b:/p/c"; sim::env_set("ALTA_PLUGIN_PATH", "/plugins");
  LifeRes r0 = sim::life(LifeOpt(), [&] {
    for (auto& n : reals) { std::string t; int k = kind_of(n);
      if (k == KF) { std::unique_ptr<alta::function> f(alta::plugins_manager::get_function(mkargs("--func " + n), P6())); t = types(f.get()); }
      if (k == KD_) { auto d = alta::plugins_manager::get_data(n, 4, alta::parameters(2, 3, alta::params::STARK_2D, alta::params::RGB_COLOR), mkargs("")); if (d) t = typeid(*d).name(); }
      if (k == KT) { auto f = alta::plugins_manager::get_fitter(n); if (f) t = typeid(*f).name(); }
      sim::out_put("type." + n, t); }
    for (auto& s : steps) if (!s.body.empty()) { std::unique_ptr<alta::function> f(alta::plugins_manager::get_function(mkargs("--func " + s.body), P6())); ModelSpec m; m.cmd = "--func " + s.body; m.rational = dynamic_cast<alta::rational_function*>(f.get()); m.seed = 5; m.np = m.nq = 2; m.nx = 6; m.ny = 1; randomize(f.get(), m); f->save(s.file, mkargs(s.cmd)); }
    return 0; });
  if (!r0.ok()) violation("crash", "the plugins alone: %s", r0.str().c_str());
  for (auto& n : reals) { type_of[n] = sim::out_get("type." + n); if (type_of[n].empty()) violation("not-provided", "%s alone is not provided", n.c_str()); }
  sim::dl_default(false); sim::dl_clear(); sim::env_set("ALTA_PLUGIN_PATH", path.c_str());
  LifeRes r = sim::life(benign("s", false), [&] {
    for (size_t i = 0; i < steps.size(); ++i) { auto& s = steps[i]; std::string got, how = "none";
      if (s.kind == 10) { sim::dl_put(s.file, s.what, s.real); continue; }
      try {
        switch (s.kind) {
          case 0: case 2: case 3: { std::unique_ptr<alta::function> f(alta::plugins_manager::get_function(mkargs(s.cmd), P6())); got = types(f.get()); break; }
          case 1: { auto f = alta::plugins_manager::get_function(s.cmd, P6()); got = types(f.get()); break; }
          case 4: case 5: { std::unique_ptr<alta::function> f(alta::plugins_manager::load_function(s.file)); got = types(f.get()); break; }
          case 6: { auto d = alta::plugins_manager::get_data(s.cmd, 4, alta::parameters(2, 3, alta::params::STARK_2D, alta::params::RGB_COLOR), mkargs("")); if (d) got = typeid(*d).name(); break; }
          case 7: { auto d = alta::plugins_manager::load_data(s.file, s.cmd, mkargs("--param STARK_2D")); if (d) got = typeid(*d).name(); break; }
          case 8: { auto f = alta::plugins_manager::get_fitter(s.cmd); if (f) got = typeid(*f).name(); break; } }
      } catch (...) { got = ""; how = "an exception"; }
      sim::out_put("g" + std::to_string(i), got); sim::out_put("h" + std::to_string(i), how); }
    return 0; });
  static const char* const rn[] = {"--func", "get_function", "product", "compound", "function file", "product file", "get_data", "load_data", "get_fitter"};
  for (size_t i = 0; i < steps.size(); ++i) { auto& s = steps[i]; if (s.kind == 10) continue;
    if (!sim::out_has("g" + std::to_string(i))) violation("crash", "request %zu (%s \"%s\"): %s", i, rn[s.kind], s.cmd.c_str(), r.str().c_str());
    std::string got = sim::out_get("g" + std::to_string(i)), want; for (auto& w : s.want) want += w.size() > 3 ? type_of[w] : w;
    if (s.kind == 7 && !want.empty()) { if (got.empty()) violation("not-provided", "load_data through %s gives %s", s.want[0].c_str(), sim::out_get("h" + std::to_string(i)).c_str()); if (s.want[0] == "data_astm") { sim::nontrivial(); sim::count("provided"); continue; } }
    if (got != want) violation(want.empty() ? "replaced" : got.empty() ? "not-provided" : "replaced", "request %zu (%s \"%s\"): got \"%s\", expected \"%s\"", i, rn[s.kind], s.cmd.c_str(), got.c_str(), want.c_str());
    sim::nontrivial(); sim::count(want.empty() ? "refused" : "provided"); }
  if (!r.ok()) violation("crash", "plugin requests: %s", r.str().c_str());
}
