// K01: a save or a tool that dies half-way harms nothing else, is never mistaken for a complete one, and can be repeated.
#include "w/tools.h"
extern const char* const scenario_id = "K01";
struct Obj { int kind = 0; DataSpec d; FmtSpec f; ModelSpec m; std::string src; };   // 0 native text, 1 native binary, 2 measured, 3 function
static int save_obj(const Obj& s, const std::string& file, const std::string& key, const LifeOpt* arm) {
  ptr<alta::data> x; ptr<alta::function> f;
  if (s.kind == 3) { f = make_model(s.m); if (!f) return 2; } else { if (s.kind <= 1) x = make_vs(s.d); else x = s.f.f == FM_GRID ? fmt_make(s.f) : fmt_load(s.f, s.src); if (!x) return 2; }
  std::vector<double> c, e; for (int k = 0; k < sim::OP_NCLASS; ++k) c.push_back(sim::vfs_op_count(k));
  if (arm) sim::faults_arm(*arm);
  if (s.kind == 3) f->save(file, mkargs(s.m.cmd)); else if (s.kind == 1) save_binary(*x, file); else x->save(file);
  if (arm) sim::faults_disarm();
  for (int k = 0; k < sim::OP_NCLASS; ++k) e.push_back(sim::vfs_op_count(k) - c[k]); sim::out_vec(key + ".ops", e.data(), e.size()); return 0;
}
static int load_obj(const Obj& s, const std::string& file, const std::string& key) {
  if (s.kind == 3) { std::unique_ptr<alta::function> f(alta::plugins_manager::load_function(file)); if (!f) return 3; put_model(key, f.get(), s.m, 4); return 0; }
  bool native = s.kind <= 1 || s.f.f == FM_GRID; auto d = native ? alta::plugins_manager::load_data(file, "", mkargs("")) : fmt_load(s.f, file); if (!d) return 3;
  if (native) put_dump(key, *d); else put_fmt(key, s.f, *d, 20); return 0;
}
// "" : what was loaded (key) is the reference; prefix: it may be the first samples of it, the last one cut
static std::string compare(const Obj& s, const std::string& ref, const std::string& key, bool prefix) {
  if (s.kind == 3) { ModelDump a, b; if (!get_model(ref, a) || !get_model(key, b)) return "no values"; return diff_model(a, b, 0, 0, true); }
  if (s.kind == 2 && s.f.f != FM_GRID) { FmtDump a, b; if (!get_fmt(ref, a) || !get_fmt(key, b)) return "no values"; return diff_fmt(a, b, 0, true); }
  Dump a, b; if (!get_dump(ref, a) || !get_dump(key, b)) return "no values"; if (b.n == 0 && prefix) return "";   // nothing was found in it
  if (s.kind == 1 || !prefix) return diff_dump(a, b, 0, true); char m[200]; if (b.n > a.n) { snprintf(m, sizeof m, "it has %d samples, the dataset being saved %d", b.n, a.n); return m; }
  if (b.n == a.n) { std::string r = diff_dump(a, b, 0, true); if (r.empty()) return r; }
  if (a.nx != b.nx || a.ny != b.ny || a.pin != b.pin || a.pout != b.pout) return "other dimensions or parametrizations"; size_t w = a.nx + a.ny;
  for (size_t i = 0; i + 1 < (size_t)b.n; ++i) for (size_t k = 0; k < w; ++k) if (!same_bits(a.v[i * w + k], b.v[i * w + k])) { snprintf(m, sizeof m, "value %zu of sample %zu is %.17g, in the dataset being saved %.17g", k, i, b.v[i * w + k], a.v[i * w + k]); return m; }
  return "";
}
static sim::Fault draw_crash(const std::vector<double>& ops, std::string& what) {
  std::vector<int> cl; for (int c : {sim::OP_WRITE, sim::OP_WRITE, sim::OP_WRITE, sim::OP_OPEN, sim::OP_CLOSE, sim::OP_SEEK, sim::OP_META}) if (ops[c] > 0) cl.push_back(c);
  static const char* nm[] = {"open", "read", "write", "close", "seek", "rename or removal", "plugin load"}; sim::Fault f{sim::OP_WRITE, 0, sim::F_CRASH, 0, false}; if (cl.empty()) { what = "at the first write"; return f; }
  f.cls = cl[K("xclass", 0, (long)cl.size() - 1)]; f.idx = K("xat", 0, (long)ops[f.cls] - 1); f.arg = K("xpart", 0, 100000); char b[80]; snprintf(b, sizeof b, "killed in %s %ld", nm[f.cls], f.idx); what = b; return f;
}
static void check_others(const std::map<std::string, std::string>& before, const std::vector<std::string>& out, const std::string& story) {
  auto now = sim::vfs_snapshot(); for (auto& f : before) { bool o = false; for (auto& x : out) o = o || f.first == x; if (o) continue; auto it = now.find(f.first); if (it == now.end()) violation("file", "%s: the file \"%s\" is gone", story.c_str(), f.first.c_str()); if (it->second != f.second) violation("file", "%s: the file \"%s\" changed", story.c_str(), f.first.c_str()); }
}
static void saves() {
  Obj s, o; s.kind = (int)K("kind", 0, 3); bool merl = false;
  if (s.kind <= 1) s.d = gen_data("d", 200, s.kind == 1); else if (s.kind == 2) { s.f = gen_fmt("f", 8, sim::thorough() ? 6 : 2, false); merl = s.f.f == FM_MERL; } else s.m = gen_model("m");
  std::string file = s.kind == 2 ? s.f.file : s.kind == 3 ? "a.func" : "a.dat"; o = s;
  if (s.kind <= 1) { Rng r(K("oseed", 1, 1000000)); o.d.n = std::max(1, (int)(s.d.n * K("on", 0, 4) / 2)); o.d.v.resize((size_t)o.d.n * o.d.cols()); for (auto& v : o.d.v) v = r.uni(-1, 1); }
  if (s.kind == 2) { o.f.seed += 1; if (s.f.f == FM_SLICE && KB("osize", 40)) { o.f.W = (int)K("ow", 1, 20); o.f.H = (int)K("oh", 1, 20); } s.src = std::string("src/new") + fmt_ext[s.f.f]; o.src = std::string("src/old") + fmt_ext[s.f.f]; if (s.f.f != FM_GRID) { sim::vfs_put(s.src, fmt_bytes(s.f)); sim::vfs_put(o.src, fmt_bytes(o.f)); } }
  if (s.kind == 3) o.m.seed += 1;
  const char* nm = s.kind == 0 ? "text" : s.kind == 1 ? "binary" : s.kind == 2 ? fmt_name[s.f.f] : s.m.cmd.c_str(); bool prefix = s.kind == 0 || (s.kind == 2 && s.f.f == FM_GRID);
  sim::vfs_put("bystander", "left alone"); sim::vfs_put(file + ".bak", "left alone");
  bool over = KB("over", 70); LifeOpt plain; if (merl) plain.step_budget = 4000000000L;
  auto must = [&](const LifeRes& r, const char* w) { if (!r.ok()) { if (r.loud() && s.kind >= 2) sim::discard("cannot be saved or loaded"); violation("save-failed", "%s, %s: %s", nm, w, r.str().c_str()); } };
  must(sim::life(plain, [&] { return save_obj(s, file, "ref", nullptr); }), "saving"); auto ops = get_vecd("ref.ops"); std::string want, old; sim::vfs_get(file, want);
  must(sim::life(plain, [&] { return load_obj(s, file, "new"); }), "loading");
  if (over) { must(sim::life(plain, [&] { return save_obj(o, file, "oldref", nullptr); }), "saving"); sim::vfs_get(file, old); must(sim::life(plain, [&] { return load_obj(o, file, "old"); }), "loading"); } else sim::vfs_del(file);
  auto start = sim::vfs_snapshot(); int n = merl ? 1 : (int)K("cases", 1, 3);
  for (int i = 0; i < n; ++i) {
    sim::vfs_restore(start); std::string story = nm; int crashes = (int)K("crashes", 1, 3) == 3 ? 2 : 1; bool dead = false;
    for (int c = 0; c < crashes; ++c) {
      LifeOpt a, L = benign("x"); if (s.kind == 2 && L.max_transfer && s.f.f != FM_GRID) L.max_transfer = std::max(L.max_transfer, merl ? 65536L : 4096L); if (merl) L.step_budget = 4000000000L;
      std::string w; long most = L.max_transfer; auto q = ops; if (most && want.size() / most > 4) q[sim::OP_WRITE] = (double)(want.size() / most); a.faults.push_back(draw_crash(q, w)); story += ", save " + w;
      LifeRes x = sim::life(L, [&] { return save_obj(s, file, "x", &a); }); if (x.died_badly()) violation("crash", "%s: %s", story.c_str(), x.str().c_str());
      dead = x.kind == sim::L_CRASHED; sim::count(dead ? "crashes" : "crash_not_reached"); if (!x.ok() && !dead) violation("save-failed", "%s without an effective fault: %s", story.c_str(), x.str().c_str());
    }
    if (dead) sim::nontrivial();
    check_others(start, {file}, story);
    std::string got; bool have = sim::vfs_get(file, got);
    if (dead && have && got != old && !got.empty() && KB("power", 25)) { long keep = K("keep", 0, (long)got.size()); got.resize(keep); sim::vfs_put(file, got); story += ", then power loss leaving " + std::to_string(keep) + " bytes"; }
    if (!dead && got != want) violation("incomplete", "%s: completed, but the file has other bytes", story.c_str());
    std::string key = "y" + std::to_string(i); LifeOpt L = benign("y"); if (s.kind == 2 && L.max_transfer && s.f.f != FM_GRID) L.max_transfer = std::max(L.max_transfer, merl ? 65536L : 4096L); if (merl) L.step_budget = 4000000000L;
    bool is_old = over && have && got == old && old != want; LifeRes y = sim::life(L, [&] { return load_obj(is_old ? o : s, file, key); }); if (y.died_badly()) violation("crash", "%s, loading: %s", story.c_str(), y.str().c_str());
    sim::count(y.ok() ? "loaded_after_crash" : "refused_after_crash");
    if (y.ok()) {
      if (!have) violation("mistaken", "%s: loaded although there is no file", story.c_str());
      std::string d = compare(s, is_old ? "old" : "new", key, (prefix || s.kind == 1) && !is_old);
      if (!d.empty()) violation("mistaken", "%s: what is left loads as %s, but %s", story.c_str(), is_old ? "the previous content" : "a complete file", d.c_str());
    } else if (have && (got == want || (over && got == old))) violation("refused", "%s: the complete file cannot be loaded: %s", story.c_str(), y.str().c_str());
    if (merl && !KB("redo", 30)) continue;
    LifeRes z = sim::life(benign_for(s.f, "z"), [&] { return save_obj(s, file, "z", nullptr); }); if (!z.ok()) violation("not-repeatable", "%s: saving again: %s", story.c_str(), z.str().c_str());
    sim::vfs_get(file, got); if (got != want) violation("not-repeatable", "%s: saving again leaves other bytes than a save into an empty directory", story.c_str());
    check_others(start, {file}, story);
  }
}
static void tools() {
  ToolSpec s = gen_tool("t", TL_ALL & ~TL_D2B, 2, 0); if (!prepare(s)) sim::discard("no inputs"); sim::vfs_put("bystander", "left alone"); sim::vfs_put("out.bak", "left alone");
  auto clean = sim::vfs_snapshot(); LifeRes r = sim::life(tool_opt(s), [&] { int rc = run_tool("r", s); std::vector<double> e; for (int k = 0; k < sim::OP_NCLASS; ++k) e.push_back(sim::vfs_op_count(k)); sim::out_vec("ops", e.data(), e.size()); return rc; });
  if (r.died_badly()) violation("crash", "%s: %s", s.desc.c_str(), r.str().c_str()); if (!r.ok() || !sim::out_has("ops")) sim::discard("the tool reports an error"); auto good = sim::vfs_snapshot(); auto ops = get_vecd("ops");
  int n = (int)K("cases", 1, 2); bool over = KB("over", 50);
  for (int i = 0; i < n; ++i) {
    sim::vfs_restore(clean); if (over) for (auto& o : s.out) sim::vfs_put(o, "an older output\n1 2 3\n"); auto start = sim::vfs_snapshot(); std::string w, story = s.desc;
    int crashes = (int)K("crashes", 1, 3) == 3 ? 2 : 1; for (int c = 0; c < crashes; ++c) { LifeOpt L = tool_opt(s, benign("x", false)); L.faults.push_back(draw_crash(ops, w)); story += ", " + w; LifeRes x = sim::life(L, [&] { return run_tool("x", s); }); if (x.died_badly()) violation("crash", "%s: %s", story.c_str(), x.str().c_str()); if (x.kind == sim::L_CRASHED) { sim::nontrivial(); sim::count("tool_crashes"); } }
    check_others(start, s.out, story);
    LifeRes z = sim::life(tool_opt(s, benign("z")), [&] { return run_tool("z", s); }); if (!z.ok()) violation("not-repeatable", "%s, then run again: %s", story.c_str(), z.str().c_str());
    for (auto& o : s.out) { std::string g, want = good[o]; sim::vfs_get(o, g); if (g != want) violation("not-repeatable", "%s, then run again: \"%s\" has other bytes than after an undisturbed run", story.c_str(), o.c_str()); }
    check_others(start, s.out, story);
  }
}
void scenario() { if (KB("tool", 30)) tools(); else saves(); }
