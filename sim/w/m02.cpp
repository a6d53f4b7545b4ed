// M02: running out of memory never yields a false success or a memory error.
#include "w/jobs.h"
#include "w/tools.h"
extern const char* const scenario_id = "M02";
static const int FITS = FT_LSQ | FT_EIGEN | FT_QUADPROG | FT_NLEIGEN;
// Draws which allocations fail. Small indices (set-up), anywhere, and the last ones.
static std::string draw_alloc(LifeOpt& o, long allocs) {
  int w = (int)K("where", 0, 3); o.alloc_fail_at = w == 0 ? K("at", 0, allocs - 1) : w == 1 ? std::min(allocs - 1, K("early", 0, 60)) : w == 2 ? std::max(0L, allocs - 1 - K("late", 0, 200)) : K("at", 0, allocs - 1);
  o.alloc_fail_sticky = KB("sticky", 35); if (w == 3) o.alloc_fail_sticky = true; char b[120]; snprintf(b, sizeof b, "allocation %ld of %ld%s fails", o.alloc_fail_at, allocs, o.alloc_fail_sticky ? " and all later ones" : ""); return b;
}
static void tools() {
  ToolSpec s = gen_tool("t", TL_ALL, 0); if (s.third_party) sim::discard("third-party optimiser"); if (!prepare(s)) sim::discard("the inputs cannot be made"); auto clean = sim::vfs_snapshot();
  LifeRes ref = sim::life(tool_opt(s), [&] { sim::alloc_arm(true); int rc = run_tool("a", s); sim::alloc_arm(false); return rc; }); if (ref.died_badly()) violation("crash", "%s: %s", s.desc.c_str(), ref.str().c_str());
  if (ref.allocs < 2) sim::discard("no allocations"); std::map<std::string, std::string> want; if (ref.ok()) { auto after = sim::vfs_snapshot(); for (auto& f : s.out) if (after.count(f)) want[f] = after[f]; } std::string cout0 = sim::out_get("a.cout");
  int tries = (int)K("tries", 1, 4);
  for (int t = 0; t < tries; ++t) {
    sim::vfs_restore(clean); std::string key = "b" + std::to_string(t); LifeOpt o = tool_opt(s, benign(key.c_str(), false)); std::string what = draw_alloc(o, ref.allocs);
    LifeRes r = sim::life(o, [&] { sim::alloc_arm(true); int rc = run_tool(key, s); sim::alloc_arm(false); return rc; });
    if (r.died_badly()) violation("crash", "%s, %s: %s", s.desc.c_str(), what.c_str(), r.str().c_str());
    if (r.ok()) { if (!ref.ok()) violation("false-success", "%s, %s: status 0, although an undisturbed run fails", s.desc.c_str(), what.c_str()); for (auto& f : want) { std::string b; if (!sim::vfs_get(f.first, b)) violation("false-success", "%s, %s: status 0 but no \"%s\"", s.desc.c_str(), what.c_str(), f.first.c_str()); if (b != f.second) violation("false-success", "%s, %s: status 0 but \"%s\" has %zu bytes, %zu expected, or other content", s.desc.c_str(), what.c_str(), f.first.c_str(), b.size(), f.second.size()); } }
    if (r.fired) sim::nontrivial(); sim::count(r.ok() ? "same_result" : "reported");
  }
  sim::count(s.tool.c_str());
}
static void jobs() {
  Job j = gen_job("j", JB_ALL, FITS, 1, 0, 10); job_files(j); auto clean = sim::vfs_snapshot();
  auto body = [&](const std::string& key) { sim::alloc_arm(true); int rc = do_job(j, key); sim::alloc_arm(false); return rc; };
  LifeRes ref = sim::life(job_opt(j), [&] { return body("a"); }); if (ref.died_badly()) violation("crash", "%s: %s", j.desc.c_str(), ref.str().c_str()); if (ref.allocs < 2) sim::discard("no allocations");
  JobResult a = job_result(j, "a"); int tries = (int)K("tries", 1, 5);
  for (int t = 0; t < tries; ++t) {
    sim::vfs_restore(clean); std::string key = "b" + std::to_string(t); LifeOpt o = job_opt(j, benign(key.c_str(), false)); std::string what = draw_alloc(o, ref.allocs); bool again = KB("again", 20);
    LifeRes r = sim::life(o, [&] { if (!again) return body(key); int rc = 9; try { rc = body("x"); } catch (...) {} sim::alloc_arm(false); return do_job(j, key); });
    if (r.died_badly()) violation("crash", "%s, %s: %s", j.desc.c_str(), what.c_str(), r.str().c_str());
    if (again && !r.ok() && ref.ok() && r.kind == sim::L_DONE) violation("not-recovered", "%s: after a first attempt in which %s, a second attempt ends with %s", j.desc.c_str(), what.c_str(), r.str().c_str());
    if (r.ok()) { if (!ref.ok()) violation("false-success", "%s, %s: succeeds, although an undisturbed run fails", j.desc.c_str(), what.c_str()); std::string df = diff_result(a, job_result(j, key)); if (!df.empty()) violation(again ? "not-recovered" : "false-success", "%s, %s%s: %s", j.desc.c_str(), what.c_str(), again ? " in a first attempt" : "", df.c_str()); }
    if (r.fired) sim::nontrivial(); sim::count(r.ok() ? "same_result" : "reported");
  }
}
void scenario() { if (K("part", 0, 3) == 3) tools(); else jobs(); }
