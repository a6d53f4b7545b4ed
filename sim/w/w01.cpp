// W01: a dataset save never claims success for an incomplete file.
#include "w/formats.h"
extern const char* const scenario_id = "W01";
void scenario() {
  int native = (int)K("native", 0, 9);   // 0-3 text, 4-6 binary, 7-9 measured
  DataSpec d; FmtSpec s; std::string what, file = "a.dat", src = "src";
  if (native <= 6) { d = gen_data("d", 300, native >= 4); what = native <= 3 ? "text" : "binary"; }
  else { s = gen_fmt("d", 14, 100, false); what = fmt_name[s.f]; file = s.file; src += fmt_ext[s.f]; if (s.f != FM_GRID) sim::vfs_put(src, fmt_bytes(s)); }
  bool second = KB("second", 25);
  auto run = [&](const LifeOpt& o, const std::string& key) { return sim::life(o, [&] {
    ptr<alta::data> x; if (native <= 6) x = make_vs(d); else x = s.f == FM_GRID ? fmt_make(s) : fmt_load(s, src);
    if (!x) return 2;
    sim::out_num(key + ".built", 1); bool thrown = false;
    try { if (native >= 4 && native <= 6) save_binary(*x, file); else x->save(file); } catch (const std::exception&) { thrown = true; }
    if (thrown && !second) return 7;
    sim::out_num(key + ".first", thrown ? 1 : 0);
    if (second) { std::string g = "2" + file; if (native >= 4 && native <= 6) save_binary(*x, g); else x->save(g); sim::out_num(key + ".second", 1); }
    return 0; }); };
  LifeRes r = run(benign_for(s, "ref"), "r");
  if (!r.ok()) violation("save-failed", "%s without any fault: %s", what.c_str(), r.str().c_str());
  std::string want, want2; if (!sim::vfs_get(file, want)) violation("no-file", "saving %s reported success without a file", what.c_str());
  sim::vfs_get("2" + file, want2);
  int pre = (int)K("before", 0, 2), n = (int)K("faults", 1, 3); if (native > 6 && s.f == FM_MERL) n = 1;
  for (int i = 0; i < n; ++i) {
    if (pre == 0) sim::vfs_del(file); else sim::vfs_put(file, pre == 1 ? "old" : want + want); sim::vfs_del("2" + file);
    LifeOpt o = benign("f"); if (native > 6) { o.noise_read = o.noise_eintr = 0; } o.max_transfer = 0;
    LifeRes ref = r; if (native > 6 && s.f != FM_GRID) { ref.nops[sim::OP_OPEN] = 1; }
    std::string f = draw_write_fault("x", o, ref, (long)(want.size() + want2.size()));
    if (native > 6 && s.f != FM_GRID) for (auto& x : o.faults) if (x.cls == sim::OP_OPEN || x.cls == sim::OP_CLOSE) x.idx += 1;   // the first open and close are those of the source file
    std::string key = "x" + std::to_string(i);
    LifeRes x = run(o, key);
    if (x.died_badly()) violation("crash", "%s, %s: %s", what.c_str(), f.c_str(), x.str().c_str());
    if (x.fired) { sim::nontrivial(); sim::count(x.ok() ? "saves_ok_despite_fault" : "saves_reported"); }
    std::string got; bool have = sim::vfs_get(file, got);
    bool first_ok = sim::out_has(key + ".first") && get_vecd(key + ".first")[0] == 0;
    if (first_ok && (!have || got != want)) violation("false-success", "%s, %s: the save reported success but the file has %zd of %zu bytes%s", what.c_str(), f.c_str(), have ? (ssize_t)got.size() : (ssize_t)-1, want.size(), have && got.size() == want.size() ? " with other content" : "");
    if (sim::out_has(key + ".second")) { std::string g; have = sim::vfs_get("2" + file, g); if (!have || g != want2) violation("false-success", "%s, %s: the second save reported success but the file has %zd of %zu bytes", what.c_str(), f.c_str(), have ? (ssize_t)g.size() : (ssize_t)-1, want2.size()); }
    if (!x.fired && !x.ok()) violation("save-failed", "%s, %s without an effective fault: %s", what.c_str(), f.c_str(), x.str().c_str());
  }
}
