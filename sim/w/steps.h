// Operations a process carries out one after the other, among them ones that fail.
#pragma once
#include "w/jobs.h"
static const int STEP_FITS = FT_LSQ | FT_EIGEN | FT_QUADPROG | FT_NLEIGEN | FT_CERES | FT_NLOPT;
// An object the process holds all along.
struct Held { int kind = 0; ModelSpec m; DataSpec n; FmtSpec d; ptr<alta::function> f; ptr<alta::data> data; std::string desc; };
inline Held gen_held(int i) {
  Held h; h.kind = (int)K("held", 0, 2); char b[64];
  if (h.kind == 0) { h.m = gen_model("hm"); h.desc = h.m.cmd.empty() ? "rational function" : h.m.cmd; }
  if (h.kind == 1) { h.n = gen_data("hn", 40, true); h.desc = "native dataset"; }
  if (h.kind == 2) { h.d = gen_fmt("hd", 2, 0, true); snprintf(b, sizeof b, "held/%d%s", i, fmt_ext[h.d.f]); h.d.file = b; h.desc = fmt_name[h.d.f]; if (h.d.f != FM_GRID) sim::vfs_put(h.d.file, fmt_bytes(h.d)); }
  return h;
}
inline bool hold(Held& h) { if (h.kind == 0) { h.f = make_model(h.m); return (bool)h.f; } if (h.kind == 1) h.data = make_vs(h.n); else h.data = h.d.f == FM_GRID ? fmt_make(h.d) : fmt_load(h.d, h.d.file); return (bool)h.data; }
inline void put_held(const Held& h, const std::string& key) { if (h.kind == 0) put_model(key, h.f.get(), h.m, 3); else if (h.kind == 1) put_dump(key, *h.data); else put_fmt(key, h.d, *h.data, 10); }
inline void save_held(const Held& h, const std::string& file) { if (h.kind == 0) h.f->save(file, mkargs(h.m.cmd)); else if (h.kind == 1 && h.n.n % 2) save_binary(*h.data, file); else h.data->save(file); }
struct Step {
  int kind = 0; Job j; int held = -1; std::string file, cmd, plugin, dmg, desc, fault; LifeOpt flt; bool has_fault = false, alloc = false; int what = 0; FmtSpec fmt;
};
// 0 done, else refused; failures may also be exceptions
inline int do_step(const Step& s, std::vector<Held>& hs) {
  switch (s.kind) {
    case 0: return do_job(s.j, "s");
    case 1: save_held(hs[s.held], s.file); return 0;
    case 2: switch (s.what) { case 0: { std::unique_ptr<alta::function> f(alta::plugins_manager::load_function(s.file)); return f ? 0 : 2; } case 1: { auto d = alta::plugins_manager::load_data(s.file, "", mkargs("")); return d ? 0 : 2; } default: { auto d = fmt_load(s.fmt, s.file); return d ? 0 : 2; } }
    default: switch (s.what) {
      case 0: case 1: case 2: { std::unique_ptr<alta::function> f(alta::plugins_manager::get_function(mkargs(s.cmd), alta::parameters(6, 1, alta::params::CARTESIAN, alta::params::INV_STERADIAN))); return f ? 0 : 2; }
      case 3: { std::unique_ptr<alta::function> f(alta::plugins_manager::load_function("no/such.func")); return f ? 0 : 2; }
      case 4: { auto d = alta::plugins_manager::load_data("no/such.dat", s.plugin, mkargs("")); return d ? 0 : 2; }
      case 5: { auto d = alta::plugins_manager::get_data("no_such_plugin", 4, alta::parameters(2, 3, alta::params::STARK_2D, alta::params::RGB_COLOR), mkargs("")); return d ? 0 : 2; }
      case 6: { auto f = alta::plugins_manager::get_fitter("no_such_plugin"); return f ? 0 : 2; }
      case 7: save_held(hs[s.held], s.file); return 0; } }
  return 9;
}
inline Step gen_step(int i, std::vector<Held>& hs) {
  Step s; s.kind = (int)K("step", 0, 3); char b[80]; if (s.kind == 1 && hs.empty()) s.kind = 0;
  if (s.kind == 0) { snprintf(b, sizeof b, "s%d", i); s.j = gen_job(b, JB_ALL, STEP_FITS, 1, 0, 8); job_files(s.j); s.desc = s.j.desc; }
  if (s.kind == 1) { s.held = (int)K("which", 0, (long)hs.size() - 1); if (hs[s.held].kind == 2 && hs[s.held].d.f == FM_ASTM) { s.kind = 3; s.what = 6; s.desc = "missing fitter"; return s; } snprintf(b, sizeof b, "out/%d", i); s.file = b; s.desc = "save of a held " + hs[s.held].desc; }
  if (s.kind == 2) {
    s.what = (int)K("reader", 0, 2); snprintf(b, sizeof b, "in/%d", i); s.file = b; std::string bytes; int dk; size_t fr, to;
    if (s.what == 0) { ModelSpec m = gen_model("dm"); s.desc = "function file of " + m.cmd; LifeRes r = sim::life(LifeOpt(), [&] { auto f = make_model(m); if (!f) return 2; f->save(s.file, mkargs(m.cmd)); return 0; }); if (!r.ok()) sim::discard("no file to damage"); }
    else if (s.what == 1) { DataSpec d = gen_data("dn", 40, true); s.desc = "native dataset file"; LifeRes r = sim::life(LifeOpt(), [&] { if (d.n % 2) save_binary(*make_vs(d), s.file); else make_vs(d)->save(s.file); return 0; }); if (!r.ok()) sim::discard("no file to damage"); }
    else { s.fmt = gen_fmt("df", 2, 0, true); if (s.fmt.f == FM_GRID) s.fmt.f = FM_ASTM; s.file += fmt_ext[s.fmt.f]; sim::vfs_put(s.file, fmt_bytes(s.fmt)); s.desc = std::string(fmt_name[s.fmt.f]) + " file"; }
    sim::vfs_get(s.file, bytes); if (KB("damaged", 80)) { s.dmg = damage("d", bytes, "", DMG_TRUNC_NEAR_END + (KB("zero", 30) ? 1 : 0), dk, fr, to); sim::vfs_put(s.file, bytes); } s.desc = "load of a " + s.desc + (s.dmg.empty() ? "" : ", " + s.dmg);
  }
  if (s.kind == 3) {
    s.what = (int)K("request", 0, 6); static const char* cm[] = {"--func no_such_plugin", "--func nonlinear_function_beckmann --fresnel no_such_plugin", "--func [nonlinear_function_blinn, no_such_plugin]"}; s.desc = "request for something that is not there";
    if (s.what < 3) s.cmd = cm[s.what]; if (s.what == 4) { static const char* pl[] = {"", "data_merl", "data_utia", "data_astm", "data_brdf_slice", "no_such_plugin"}; s.plugin = pl[K("plugin", 0, 5)]; }
  }
  return s;
}
