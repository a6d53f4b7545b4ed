// D02: measured-format datasets survive save, process restart and reload.
#include "w/formats.h"
extern const char* const scenario_id = "D02";
void scenario() {
  FmtSpec s = gen_fmt("d", 10, 50, false);
  bool from_file = s.f != FM_GRID && (s.f == FM_SLICE ? !KB("empty", 1) || !KB("empty", 30) : KB("fromfile", 50));   // an empty slice is a 512x512 image: made rarely
  std::string src = std::string("src") + fmt_ext[s.f];
  if (from_file) sim::vfs_put(src, fmt_bytes(s));
  LifeRes w = sim::life(benign_for(s, "w"), [&] {
    ptr<alta::data> d = from_file ? fmt_load(s, src) : fmt_make(s); if (!d) return 2;
    sim::out_num("made", 1); put_fmt("a", s, *d);
    d->save(s.file); sim::out_num("open", sim::vfs_open_count()); put_fmt("a2", s, *d); return 0; });
  if (!w.ok()) violation("save-failed", "%s: %s", fmt_name[s.f], w.str().c_str());
  FmtDump a, a2; if (!get_fmt("a", a) || !get_fmt("a2", a2)) violation("harness", "no dump");
  { std::string df = diff_fmt(a, a2, 0, true); if (!df.empty()) violation("save-changed-object", "%s: saving changed the dataset: %s", fmt_name[s.f], df.c_str()); }
  double rel = s.f == FM_SLICE || s.f == FM_UTIA_EXR ? 1e-6 : s.f == FM_GRID ? 1e-13 : 0;
  std::string first; sim::vfs_get(s.file, first);
  int hops = s.f == FM_MERL ? 1 : (int)K("hops", 1, 3);
  for (int i = 0; i < hops; ++i) {
    std::string key = "r" + std::to_string(i), in = i ? std::string("c") + fmt_ext[s.f] : s.file, out = std::string("c") + fmt_ext[s.f]; bool twice = KB("twice", 20) && s.f != FM_MERL;
    LifeRes r = sim::life(benign_for(s, "r"), [&] {
      ptr<alta::data> e; if (twice) e = fmt_load(s, in);
      auto d = fmt_load(s, in); if (!d) return 3; e.reset();
      put_fmt(key, s, *d); if (i + 1 < hops) d->save(out); return 0; });
    if (!r.ok()) violation("reload-failed", "%s: %s", fmt_name[s.f], r.str().c_str());
    FmtDump b; if (!get_fmt(key, b)) violation("harness", "no dump");
    // image look-ups at pixel centres do not depend on rounding; interpolated look-ups of the other formats are compared as loosely as the samples
    std::string df = diff_fmt(a, b, rel, rel != 1e-13);
    if (!df.empty()) violation("changed", "%s %s: after %d reload(s) %s", fmt_name[s.f], s.args.c_str(), i + 1, df.c_str());
  }
  sim::nontrivial(); sim::count(fmt_name[s.f]);
}
