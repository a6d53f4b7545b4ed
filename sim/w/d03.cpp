// D03: fitted function files survive save, process restart and reload.
#include "w/models.h"
extern const char* const scenario_id = "D03";
void scenario() {
  int n = (int)K("models", 1, 3); std::vector<ModelSpec> ms;
  for (int i = 0; i < n; ++i) ms.push_back(gen_model("m"));
  std::vector<std::string> exp;
  for (int i = 0; i < n; ++i) exp.push_back(KB("export", 15) ? " --export alta" : "");
  LifeRes w = sim::life(benign("w"), [&] {
    for (int i = 0; i < n; ++i) {
      auto f = make_model(ms[i]); if (!f) return 2;
      put_model("a" + std::to_string(i), f.get(), ms[i]);
      f->save("f" + std::to_string(i) + ".func", mkargs(ms[i].cmd + exp[i]));
    }
    return 0; });
  if (!w.ok()) violation("save-failed", "building and saving \"%s\"...: %s", ms[0].cmd.c_str(), w.str().c_str());
  // A saved model can be given as the starting point of a fit: products, compounds and Beckmann lobes take all their parameters from the file.
  if (KB("boot", 35)) for (int i = 0; i < n; ++i) {
    const ModelSpec& s = ms[i]; if (s.rational || (s.cmd[7] != '[' && s.cmd.find("--fresnel") == std::string::npos && s.cmd != "--func nonlinear_function_beckmann")) continue;
    LifeRes b = sim::life(benign("s"), [&] {
      ptr<alta::function> f(alta::plugins_manager::get_function(mkargs(s.cmd), spec_params(s))); if (!f) return 2;
      f->bootstrap(tiny_data(f->parametrization(), s.seed + 5), mkargs(s.cmd + " --bootstrap f" + std::to_string(i) + ".func"));
      put_model("s" + std::to_string(i), f.get(), s); return 0; });
    if (!b.ok()) violation("start-failed", "starting a fit of \"%s\" from its saved file: %s", s.cmd.c_str(), b.str().c_str());
    ModelDump a, c; if (!get_model("a" + std::to_string(i), a) || !get_model("s" + std::to_string(i), c)) violation("harness", "no dump");
    std::string d = diff_model(a, c, 1e-9, 2e-5, true); if (!d.empty()) violation("start-differs", "starting a fit of \"%s\" from its saved file: %s", s.cmd.c_str(), d.c_str());
    sim::count("starts_from_files");
  }
  int hops = (int)K("hops", 1, 2); std::vector<std::string> cur(n); for (int i = 0; i < n; ++i) cur[i] = "f" + std::to_string(i) + ".func";
  for (int h = 0; h < hops; ++h) {
    std::vector<int> order; int loads = (int)K("loads", n, n + 2); for (int i = 0; i < loads; ++i) order.push_back(i < n ? i : (int)K("extra", 0, n - 1));
    for (int i = loads - 1; i > 0; --i) std::swap(order[i], order[K("perm", 0, i)]);
    bool keep = KB("keep", 50);
    LifeRes r = sim::life(benign("l"), [&] {
      std::vector<ptr<alta::function>> held;
      for (size_t j = 0; j < order.size(); ++j) {
        int i = order[j]; ptr<alta::function> f(alta::plugins_manager::load_function(cur[i])); if (!f) { sim::out_num("bad", i); return 3; }
        put_model("b" + std::to_string(j), f.get(), ms[i]);
        f->save("g" + std::to_string(h) + std::to_string(i) + ".func", mkargs(ms[i].cmd + exp[i]));
        if (keep) held.push_back(f);
      }
      for (size_t j = 0; j < held.size(); ++j) put_model("c" + std::to_string(j), held[j].get(), ms[order[j]]);
      return 0; });
    if (!r.ok()) { int i = sim::out_has("bad") ? (int)get_vecd("bad")[0] : 0; violation("reload-failed", "reloading \"%s%s\": %s", ms[i].cmd.c_str(), exp[i].c_str(), r.str().c_str()); }
    for (size_t j = 0; j < order.size(); ++j) {
      ModelDump a, b; if (!get_model("a" + std::to_string(order[j]), a) || !get_model("b" + std::to_string(j), b)) violation("harness", "no dump");
      const ModelSpec& s = ms[order[j]]; bool par = s.boot != "--isotropic";
      std::string d = diff_model(a, b, 1e-9 * (h + 1), 2e-5, par);
      if (!d.empty()) violation("differs", "\"%s\" %s: %s", s.cmd.c_str(), s.boot.c_str(), d.c_str());
      if (keep) { ModelDump c; if (!get_model("c" + std::to_string(j), c)) violation("harness", "no dump"); d = diff_model(b, c, 0, 0, true); if (!d.empty()) violation("interfere", "\"%s\" changed while other files were loaded: %s", s.cmd.c_str(), d.c_str()); }
      sim::count("reloads");
    }
    for (int i = 0; i < n; ++i) cur[i] = "g" + std::to_string(h) + std::to_string(i) + ".func";
  }
  sim::nontrivial();
}
