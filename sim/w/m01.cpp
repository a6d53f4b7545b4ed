// M01: results depend on the inputs only, not on leftover memory, clocks, transfer sizes or earlier work.
#include "w/jobs.h"
#include "w/tools.h"
extern const char* const scenario_id = "M01";
static const int FITS = FT_LSQ | FT_EIGEN | FT_QUADPROG | FT_NLEIGEN | FT_CERES | FT_NLOPT;
// Work that leaves the heap, the stack and the process-wide state in another condition.
static void churn(long seed) {
  Rng r(seed); std::vector<std::unique_ptr<double[]>> v; int n = (int)r.range(5, 200);
  for (int i = 0; i < n; ++i) { size_t k = (size_t)r.range(1, 400); v.emplace_back(new double[k]); for (size_t q = 0; q < k; ++q) v.back()[q] = r.chance(0.2) ? (double)r.range(-9, 9) : r.uni(-1e3, 1e3); if (r.chance(0.5)) v.erase(v.begin() + (long)r.below(v.size())); }
  for (int i = (int)r.below(20); i > 0; --i) rand();
}
static void tools() {
  ToolSpec s = gen_tool("t", TL_ALL, 1); if (!prepare(s)) sim::discard("the inputs cannot be made"); auto clean = sim::vfs_snapshot();
  LifeRes ref = sim::life(tool_opt(s), [&] { return run_tool("a", s); }); if (ref.died_badly()) violation("crash", "%s: %s", s.desc.c_str(), ref.str().c_str());
  auto want = sim::vfs_snapshot(); std::string cout0 = sim::out_get("a.cout"); int tries = (int)K("tries", 1, 2);
  for (int t = 0; t < tries; ++t) {
    sim::vfs_restore(clean); std::string key = "b" + std::to_string(t); LifeOpt o = tool_opt(s, benign(key.c_str())); long cs = KB("churn", 50) ? K("cseed", 1, 1000000) : 0;
    LifeRes r = sim::life(o, [&] { if (cs) churn(cs); return run_tool(key, s); });
    if (r.died_badly()) violation("crash", "%s: %s", s.desc.c_str(), r.str().c_str());
    if (r.ok() != ref.ok()) violation("outcome", "%s ends with %s under one environment and with %s under another", s.desc.c_str(), ref.str().c_str(), r.str().c_str());
    if (!ref.ok()) continue;
    auto now = sim::vfs_snapshot(); for (auto& f : want) { auto it = now.find(f.first); if (it == now.end()) violation("result", "%s: \"%s\" is not written under another environment", s.desc.c_str(), f.first.c_str()); if (it->second != f.second) { size_t i = 0; while (i < it->second.size() && i < f.second.size() && it->second[i] == f.second[i]) ++i; violation("result", "%s: \"%s\" differs at byte %zu under another environment", s.desc.c_str(), f.first.c_str(), i); } }
    std::string c = sim::out_get(key + ".cout"); if (c != cout0) { size_t i = 0; while (i < c.size() && i < cout0.size() && c[i] == cout0[i]) ++i; size_t a = i > 60 ? i - 60 : 0; violation("printed", "%s prints \"%s\" under one environment and \"%s\" under another", s.desc.c_str(), cout0.substr(a, 100).c_str(), c.substr(a, 100).c_str()); }
    sim::nontrivial();
  }
  sim::count(s.tool.c_str());
}
static void jobs() {
  Job j = gen_job("j", JB_ALL, FITS, 2, 0); job_files(j); int n = (int)K("others", 0, 3); std::vector<Job> o; for (int i = 0; i < n; ++i) { o.push_back(gen_job("o", JB_ALL, FT_LSQ | FT_EIGEN | FT_QUADPROG, 1, 0, 8)); job_files(o.back()); }
  auto clean = sim::vfs_snapshot(); LifeRes ref = sim::life(job_opt(j), [&] { return do_job(j, "a"); }); if (ref.died_badly()) violation("crash", "%s: %s", j.desc.c_str(), ref.str().c_str());
  JobResult a = job_result(j, "a"); int tries = (int)K("tries", 1, 2);
  for (int t = 0; t < tries; ++t) {
    sim::vfs_restore(clean); std::string key = "b" + std::to_string(t); LifeOpt L = job_opt(j, benign(key.c_str())); long cs = K("cseed", 1, 1000000); bool prior = t == 0 && n && ref.ok() && KB("prior", 60), twice = ref.ok() && KB("twice", 25);
    LifeRes r = sim::life(L, [&] { churn(cs); if (prior) for (auto& q : o) { try { do_job(q, "x"); } catch (...) {} } if (twice) do_job(j, "y"); sim::stack_scrub(); return do_job(j, key); });
    if (r.died_badly()) violation("crash", "%s: %s", j.desc.c_str(), r.str().c_str());
    if (r.ok() != ref.ok()) { if (prior && r.loud()) sim::discard("other work ends the process"); violation("outcome", "%s ends with %s under one environment and with %s under another", j.desc.c_str(), ref.str().c_str(), r.str().c_str()); }
    JobResult b = job_result(j, key); std::string df = ref.kind == sim::L_DONE ? diff_result(a, b) : ""; if (!df.empty()) violation("result", "%s%s: %s under another environment", j.desc.c_str(), prior ? " after other work" : "", df.c_str());
    if (ref.ok()) sim::nontrivial();
  }
  sim::count(j.kind == JB_FIT ? j.f.fitter.c_str() : j.kind == JB_MODEL ? "model" : j.kind == JB_FMT ? fmt_name[j.d.f] : "native dataset"); if (!ref.ok()) sim::count("refused");
}
void scenario() { if (K("part", 0, 2) == 2) tools(); else jobs(); }
