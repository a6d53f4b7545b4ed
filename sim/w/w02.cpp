// W02: a function save or export never claims success for an incomplete file.
#include "w/models.h"
extern const char* const scenario_id = "W02";
void scenario() {
  ModelSpec s = gen_model("m");
  static const char* ex[] = {"", " --export alta", " --export C++", " --export matlab", " --export shader", " --export explorer"};
  int e = (int)K("export", 0, 5); bool other = KB("second", 30);
  auto run = [&](const LifeOpt& o, const char* key) { return sim::life(o, [&] {
    auto f = make_model(s); if (!f) return 2;
    sim::out_num(std::string(key) + ".built", sim::vfs_op_count(sim::OP_OPEN));
    bool thrown = false;
    try { f->save("f.func", mkargs(s.cmd + ex[e])); } catch (const std::exception& x) { thrown = true; }
    if (thrown && !other) return 7;
    sim::out_num(std::string(key) + ".first", thrown ? 1 : 0);
    if (other) { f->save("g.func", mkargs(s.cmd + ex[e])); sim::out_num(std::string(key) + ".second", 1); }
    return 0; }); };
  LifeRes r = run(benign("ref"), "r");
  if (!r.ok()) { if (s.cmd.find("smith") != std::string::npos || r.loud()) sim::discard("the undisturbed save announces an error"); violation("save-failed", "saving \"%s\"%s without any fault: %s", s.cmd.c_str(), ex[e], r.str().c_str()); }
  std::string want, want2; if (!sim::vfs_get("f.func", want)) violation("no-file", "saving \"%s\"%s reported success without a file", s.cmd.c_str(), ex[e]);
  sim::vfs_get("g.func", want2);
  int pre = (int)K("before", 0, 2);   // what was in the file before
  int n = (int)K("faults", 1, 3);
  for (int i = 0; i < n; ++i) {
    if (pre == 0) sim::vfs_del("f.func"); else sim::vfs_put("f.func", pre == 1 ? "old" : want + want); sim::vfs_del("g.func");
    LifeOpt o = benign("f"); o.max_transfer = 0;
    std::string d = draw_write_fault("x", o, r, (long)(want.size() + want2.size()));
    char key[8]; snprintf(key, sizeof key, "x%d", i);
    LifeRes x = run(o, key);
    if (x.died_badly()) violation("crash", "\"%s\"%s, %s: %s", s.cmd.c_str(), ex[e], d.c_str(), x.str().c_str());
    if (x.fired) { sim::nontrivial(); sim::count(x.ok() ? "saves_ok_despite_fault" : "saves_reported"); }
    std::string got; bool have = sim::vfs_get("f.func", got);
    bool first_ok = x.ok() || x.code != 7; std::string k1 = std::string(key) + ".first"; if (!sim::out_has(k1)) first_ok = false; else if (get_vecd(k1)[0]) first_ok = false;
    if (first_ok && (!have || got != want)) violation("false-success", "\"%s\"%s, %s: the save reported success but the file has %zd of %zu bytes%s", s.cmd.c_str(), ex[e], d.c_str(), have ? (ssize_t)got.size() : (ssize_t)-1, want.size(), have && got.size() == want.size() ? " with other content" : "");
    if (other && sim::out_has(std::string(key) + ".second")) { std::string g; have = sim::vfs_get("g.func", g); if (!have || g != want2) violation("false-success", "\"%s\"%s, %s: the second save reported success but the file has %zd of %zu bytes", s.cmd.c_str(), ex[e], d.c_str(), have ? (ssize_t)g.size() : (ssize_t)-1, want2.size()); }
    if (!x.fired && !x.ok()) violation("save-failed", "saving without an effective fault: %s", x.str().c_str());
  }
}
