// C02: a tool touches no file but the output it was asked for.
#include "w/tools.h"
#include <set>
extern const char* const scenario_id = "C02";
void scenario() {
  ToolSpec s = gen_tool("t", TL_ALL); if (!prepare(s)) sim::discard("the inputs cannot be made");
  static const char* const near[] = {"out.tmp", "out~", "out.bak", "out.func", "output", "in~", "in.bak", "in.func.bak", "data", "log", "core", "/tmp/out", "dir/out", "cluster.gnuplot", "fit.log", "problem-0.qp"};
  int nb = (int)K("bystanders", 0, 6); for (int i = 0; i < nb; ++i) { std::string f = near[K("near", 0, (long)(sizeof near / sizeof *near) - 1)]; sim::vfs_put(f, "left alone " + std::string((size_t)K("len", 0, 40), '.')); }
  bool qp = false; for (auto& a : s.argv) qp |= a == "--export-qp" || a == "--log-fit"; if (qp) sim::discard("asks for more files");
  auto clean = sim::vfs_snapshot(); std::set<std::string> outs(s.out.begin(), s.out.end());
  LifeRes ref = sim::life(tool_opt(s), [&] { return run_tool("ref", s); }); if (ref.died_badly()) violation("crash", "%s: %s", s.desc.c_str(), ref.str().c_str());
  long bytes = 0; for (auto& f : s.out) { std::string b; if (sim::vfs_get(f, b)) bytes += (long)b.size(); }
  auto judge = [&](const char* when, const LifeRes& r, bool old, bool unread) {
    auto now = sim::vfs_snapshot();
    for (auto& f : clean) { auto it = now.find(f.first); if (outs.count(f.first)) continue; if (it == now.end()) violation("file-gone", "%s%s (%s): \"%s\" is gone", s.desc.c_str(), when, r.ok() ? "success" : "failure", f.first.c_str()); if (it->second != f.second) violation("file-changed", "%s%s (%s): \"%s\" changed", s.desc.c_str(), when, r.ok() ? "success" : "failure", f.first.c_str()); }
    for (auto& f : now) if (!clean.count(f.first) && !outs.count(f.first)) violation("file-made", "%s%s (%s): makes a file \"%s\"", s.desc.c_str(), when, r.ok() ? "success" : "failure", f.first.c_str());
    if (unread && old) for (auto& f : s.out) { auto it = now.find(f); if (it == now.end() || it->second != "older result") violation("output-lost", "%s%s (failure): the older \"%s\" is lost although an input is not there", s.desc.c_str(), when, f.c_str()); }
  };
  judge("", ref, false, false); sim::nontrivial(); sim::count((s.tool + (ref.ok() ? ".ok" : ".refuses")).c_str());
  int tries = (int)K("tries", 1, 3);
  for (int t = 0; t < tries; ++t) {
    sim::vfs_restore(clean); LifeOpt o = tool_opt(s, benign("b")); std::string what; int mode = (int)K("mode", 0, 7); bool old = KB("old", 50), gone = false; if (old) for (auto& f : s.out) sim::vfs_put(f, "older result");
    if (mode <= 2) what = ", " + draw_write_fault("w", o, ref, bytes);
    else if (mode <= 4) what = ", " + draw_read_fault("r", o, ref);
    else if (mode == 5) { int c = (int)K("kclass", 0, 2); int cls = c == 0 ? sim::OP_WRITE : c == 1 ? sim::OP_OPEN : sim::OP_CLOSE; if (!ref.nops[cls]) continue; o.faults.push_back(sim::Fault{cls, K("kat", 0, ref.nops[cls] - 1), sim::F_CRASH, K("kpart", 0, 400), false}); what = ", killed"; }
    else if (mode == 6) { auto& in = s.in[K("which", 0, (long)s.in.size() - 1)]; sim::vfs_del(in.file); what = ", without \"" + in.file + "\""; gone = true; clean.erase(in.file); }
    LifeRes r = sim::life(o, [&] { return run_tool("x", s); }); if (r.died_badly() && r.kind != sim::L_CRASHED) violation("crash", "%s%s: %s", s.desc.c_str(), what.c_str(), r.str().c_str());
    judge(what.c_str(), r, old, gone && !r.ok()); if (gone) break;
    sim::count(r.ok() ? "outcome_ok" : "outcome_error");
  }
}
