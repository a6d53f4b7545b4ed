// C01: the exit status of the command-line tools is truthful.
#include "w/tools.h"
extern const char* const scenario_id = "C01";
static std::string outputs_differ(const ToolSpec& s, const std::map<std::string, std::string>& want) {
  char m[300]; for (auto& f : s.out) { std::string b; auto it = want.find(f); if (it == want.end()) continue; if (!sim::vfs_get(f, b)) return "the output \"" + f + "\" is not there"; if (b != it->second) { size_t i = 0; while (i < b.size() && i < it->second.size() && b[i] == it->second[i]) ++i; snprintf(m, sizeof m, "the output \"%s\" has %zu bytes, %zu expected; first difference at %zu", f.c_str(), b.size(), it->second.size(), i); return m; } } return ""; }
void scenario() {
  ToolSpec s = gen_tool("t", TL_ALL); if (!prepare(s)) sim::discard("the inputs cannot be made");
  auto clean = sim::vfs_snapshot();
  LifeRes ref = sim::life(tool_opt(s), [&] { return run_tool("ref", s); });
  if (ref.died_badly()) violation("crash", "%s: %s", s.desc.c_str(), ref.str().c_str());
  auto after = sim::vfs_snapshot(); std::map<std::string, std::string> want; long bytes = 0;
  if (ref.ok()) for (auto& f : s.out) { auto it = after.find(f); if (it == after.end()) violation("missing-output", "%s ends with status 0 but \"%s\" is not there", s.desc.c_str(), f.c_str()); want[f] = it->second; bytes += it->second.size(); }
  sim::count((s.tool + (ref.ok() ? ".ok" : ".refuses")).c_str());
  int tries = (int)K("tries", 1, 3);
  for (int t = 0; t < tries; ++t) {
    sim::vfs_restore(clean); LifeOpt o = tool_opt(s); std::string what; bool must_fail = false, must_ok = false; int mode = (int)K("mode", 0, 9);
    if (KB("old", 30)) for (auto& f : s.out) sim::vfs_put(f, std::string(K("oldlen", 0, 3000), 'x'));
    if (mode == 0) { o = tool_opt(s, benign("b")); what = "under another environment"; must_ok = ref.ok(); }
    else if (mode <= 4) { if (!ref.ok()) continue; what = draw_write_fault("w", o, ref, bytes); }
    else if (mode <= 6) { what = draw_read_fault("r", o, ref); }
    else if (mode == 7) { auto& in = s.in[K("which", 0, (long)s.in.size() - 1)]; sim::vfs_del(in.file); what = "without the input \"" + in.file + "\""; must_fail = true; }
    else if (mode == 8) { std::vector<ToolIn*> c; for (auto& in : s.in) if (in.kind != 0 && in.kind != 4) c.push_back(&in); if (c.empty()) continue; auto& in = *c[K("which", 0, (long)c.size() - 1)]; std::string b; sim::vfs_get(in.file, b); int k; size_t fr, to; std::string cut = damage("d", b, "", DMG_TRUNC_NEAR_END, k, fr, to); if (in.kind == 1 && b.find("#FORMAT binary") == std::string::npos) continue;   /* what is left is a text dataset without samples */ sim::vfs_put(in.file, b); what = "with \"" + in.file + "\" " + cut; }
    else { auto& in = s.in[K("which", 0, (long)s.in.size() - 1)]; std::string b; sim::vfs_get(in.file, b); long sz = (long)b.size(); long at = K("sector", 0, sz ? sz - 1 : 0); sim::vfs_set_unreadable(in.file, at); what = "with \"" + in.file + "\" unreadable from byte " + std::to_string(at); }
    if (KB("noise", 30)) { o.noise_read = 300; o.noise_write = 300; o.noise_eintr = 100; o.noise_seed = K("nseed", 1, 1000000); if (s.in[0].kind == 2 && s.in[0].m.f != FM_SLICE) o.noise_limit = 2000; }
    std::string key = "t" + std::to_string(t);
    LifeRes r = sim::life(o, [&] { return run_tool(key, s); });
    if (r.died_badly()) violation("crash", "%s, %s: %s", s.desc.c_str(), what.c_str(), r.str().c_str());
    if (must_ok && !r.ok()) violation("fails", "%s, %s: %s, although an undisturbed run succeeds", s.desc.c_str(), what.c_str(), r.str().c_str());
    if (r.ok()) {
      if (must_fail) violation("false-success", "%s, %s: status 0", s.desc.c_str(), what.c_str());
      if (!ref.ok()) { if (mode != 0) violation("false-success", "%s, %s: status 0, although an undisturbed run fails (%s)", s.desc.c_str(), what.c_str(), ref.str().c_str()); violation("unstable", "%s, %s: status 0, although another run fails (%s)", s.desc.c_str(), what.c_str(), ref.str().c_str()); }
      std::string df = outputs_differ(s, want); if (!df.empty()) violation("false-success", "%s, %s: status 0, but %s", s.desc.c_str(), what.c_str(), df.c_str());
    }
    if (r.fired || mode >= 7 || mode == 0 || r.cap_hits) sim::nontrivial();
    sim::count(r.ok() ? "outcome_ok" : "outcome_error");
  }
}
