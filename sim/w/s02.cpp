// S02: parallel dataset conversion does not depend on threads or schedule.
#include "w/tools.h"
extern const char* const scenario_id = "S02";
static std::string counts(const std::string& t) { std::string r; std::stringstream s(t); std::string l; while (std::getline(s, l)) if (l.find("incorrect configuration") != std::string::npos) r += l + "\n"; return r; }
static std::string lines(const std::string& t) { std::vector<std::string> v; std::stringstream s(t); std::string l; while (std::getline(s, l)) v.push_back(l); std::sort(v.begin(), v.end()); std::string r; for (auto& x : v) r += x + "\n"; return r; }
void scenario() {
  ToolSpec s; s.tool = "data2data"; s.out = {"out"}; add(s, {"--input", "in", "--output", "out"});
  ToolIn t = in_measured("i", "in", 12, sim::thorough() ? 4 : 0, false, false); add(s, {"--in-data", fmt_plugin[t.m.f]}); for (auto& w : words(t.m.args)) s.argv.push_back(w); s.in.push_back(t);
  int big = (int)K("container", 0, 99); long n = 0; bool stub = true;
  if (big >= 98) { stub = false; add(s, {"--out-data", big == 98 || sim::thorough() ? "data_utia" : "data_brdf_slice"}); n = big == 98 ? 82944 : 262144; }
  else { n = K("samples", 0, 3) == 0 ? K("few", 1, 8) : K("many", 1, 120); add(s, {"--out-data", "sim_samples", "--sim-n", std::to_string(n), "--sim-seed", std::to_string(K("dirs", 1, 1000000000)), "--sim-below", std::to_string(K("below", 0, 5) * 0.08)}); }
  if (t.m.args.empty() && KB("conv", 70)) add(s, {"--param", conv_params[K("to", 0, 11)].name});
  s.desc = s.tool; for (auto& a : s.argv) s.desc += " " + a;
  if (!prepare(s)) sim::discard("the inputs cannot be made");
  auto clean = sim::vfs_snapshot(); LifeOpt o0 = tool_opt(s); o0.sched.nthreads = 1; o0.step_budget = 4000000000L;
  LifeRes a = sim::life(o0, [&] { return run_tool("a", s); }); if (a.died_badly()) violation("crash", "%s, one thread: %s", s.desc.c_str(), a.str().c_str());
  std::string want; if (a.ok() && !sim::vfs_get("out", want)) violation("missing-output", "%s ends with status 0 but no output", s.desc.c_str());
  auto once = [&](const std::string& b, const char* who) { if (!stub) return; std::stringstream ss(b); std::string l; long i = 0; while (std::getline(ss, l)) { if (l.compare(0, 2, "1 ")) violation("written-once", "%s, %s: sample %ld was written %d times", s.desc.c_str(), who, i, atoi(l.c_str())); ++i; } if (i != n) violation("written-once", "%s, %s: %ld of %ld samples", s.desc.c_str(), who, i, n); };
  if (a.ok()) once(want, "one thread");
  std::string ca = sim::out_get("a.cout"), ea = counts(sim::out_get("a.cerr")), la = lines(sim::out_get("a.cerr"));
  int lives = stub ? (int)K("lives", 1, 3) : 1; bool any = false;
  for (int i = 0; i < lives; ++i) {
    sim::vfs_restore(clean); LifeOpt L = tool_opt(s); L.step_budget = 4000000000L; L.wall_limit_s = 300; L.sched.nthreads = (int)K("threads", 2, 8); L.sched.mean_log2 = stub ? (int)K("dist", 0, 11) : (int)K("dist", 7, 14); L.sched.policy = (int)K("policy", 0, 4); L.sched.seed = K("sseed", 1, 1000000000); L.garbage = (int)K("garbage", 0, 6); L.garbage_seed = K("gseed", 1, 1000000000);
    std::string key = "b" + std::to_string(i), who = std::to_string(L.sched.nthreads) + " threads"; LifeRes b = sim::life(L, [&] { return run_tool(key, s); });
    if (b.died_badly()) violation(b.kind == sim::L_RACE ? "race" : b.kind == sim::L_DEADLOCK ? "deadlock" : "crash", "%s, %s: %s", s.desc.c_str(), who.c_str(), b.str().c_str());
    if (a.ok() != b.ok() || a.loud() != b.loud()) violation("status", "%s: one thread: %s; %s: %s", s.desc.c_str(), a.str().c_str(), who.c_str(), b.str().c_str());
    if (!a.ok()) { sim::count("loud"); continue; }
    std::string got; if (!sim::vfs_get("out", got)) violation("missing-output", "%s, %s: no output", s.desc.c_str(), who.c_str());
    once(got, who.c_str());
    if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; violation("output", "%s, %s: the output differs from byte %zu on", s.desc.c_str(), who.c_str(), k); }
    std::string eb = sim::out_get(key + ".cerr"); if (sim::out_get(key + ".cout") != ca) violation("statistics", "%s, %s: the standard output differs", s.desc.c_str(), who.c_str());
    if (counts(eb) != ea || lines(eb) != la) violation("statistics", "%s, %s: prints \"%s\" instead of \"%s\"", s.desc.c_str(), who.c_str(), counts(eb).c_str(), ea.c_str());
    if (b.switches > 1) any = true; sim::count("switches", b.switches); sim::count(stub ? "converted" : "converted_real_container");
  }
  if (any) sim::nontrivial();
}
