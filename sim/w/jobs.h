// Units of library work with a comparable result: models, measured containers, native datasets, fits.
#pragma once
#include "w/fits.h"
#include "w/formats.h"
enum { JB_MODEL = 1, JB_FMT = 2, JB_FIT = 4, JB_NATIVE = 8, JB_ALL = 15 };
struct Job { int kind = JB_MODEL; ModelSpec m; FmtSpec d; FitSpec f; DataSpec n; int how = 0; std::string dir; bool third_party = false; std::string desc; };
inline Job gen_job(const char* p, int mask, int fitmask, int utia_pct, int merl_pm, int fitmax = 12) {
  Job j; std::string n(p); std::vector<int> av; for (int i = 0; i < 4; ++i) if (mask >> i & 1) av.push_back(1 << i); j.kind = av[K((n + ".job").c_str(), 0, (long)av.size() - 1)]; j.dir = n + "/"; j.how = (int)K((n + ".how").c_str(), 0, 3);
  if (j.kind == JB_MODEL) { j.m = gen_model(n.c_str(), true, true); j.desc = j.m.cmd.empty() ? "rational function" : j.m.cmd; }
  if (j.kind == JB_FMT) { j.d = gen_fmt(n.c_str(), utia_pct, merl_pm, true); j.d.file = j.dir + "m" + fmt_ext[j.d.f]; j.desc = fmt_name[j.d.f]; }
  if (j.kind == JB_FIT) { j.f = gen_fit(n.c_str(), fitmask, fitmax); j.desc = j.f.fitter + " " + j.f.args; j.third_party = j.f.fitter.find("nlopt") != std::string::npos || j.f.fitter.find("ceres") != std::string::npos || j.f.fitter.find("fitter_eigen") != std::string::npos; }
  if (j.kind == JB_NATIVE) { j.n = gen_data(n.c_str(), 60, true); j.desc = "native dataset"; }
  return j;
}
// The files a job starts from (controller side; runs no code under test).
inline void job_files(const Job& j) { if (j.kind == JB_FMT && j.d.f != FM_GRID) sim::vfs_put(j.d.file, fmt_bytes(j.d)); }
inline void put_jac(const std::string& key, alta::function* f, const ModelSpec& s) {
  std::vector<double> v; auto n = dynamic_cast<alta::nonlinear_function*>(f); if (!n || n->nbParameters() == 0) return;
  for (auto& x : eval_points(f, s, 2)) { vec J = n->parametersJacobian(to_vec(x)); for (int i = 0; i < J.size(); ++i) v.push_back(J[i]); } sim::out_vec(key + ".j", v.data(), v.size());
}
inline void put_intervals(const std::string& key, const alta::data& d) {
  auto s = dynamic_cast<const alta::vertical_segment*>(&d); if (!s) return; std::vector<double> v; auto add = [&](const vec& x) { for (int i = 0; i < x.size(); ++i) v.push_back(x[i]); };
  for (int i = 0; i < d.size(); ++i) { vec x, l, u; s->get(i, x, l, u); add(x); add(l); add(u); vec p, q; s->get(i, p, q); add(p); add(q); } sim::out_vec(key + ".iv", v.data(), v.size());
}
// ---- inside a life. 0: done; other: refused
inline int do_job(const Job& j, const std::string& key) {
  switch (j.kind) {
    case JB_MODEL: { auto f = make_model(j.m); if (!f) return 2; put_model(key, f.get(), j.m); if (j.how & 1) put_jac(key, f.get(), j.m); f->save(j.dir + "f.func", mkargs(j.m.cmd));
      if (j.how & 2) { std::unique_ptr<alta::function> g(alta::plugins_manager::load_function(j.dir + "f.func")); if (!g) return 3; put_model(key + ".2", g.get(), j.m); } return 0; }
    case JB_FMT: { auto d = j.d.f == FM_GRID ? fmt_make(j.d) : fmt_load(j.d, j.d.file); if (!d) return 2; put_fmt(key, j.d, *d, 20); if (j.d.f != FM_ASTM && (j.how & 1)) d->save(j.dir + "saved"); return 0; }
    case JB_FIT: { auto d = fit_data_of(j.f); if (!d) return 2; ptr<alta::function> f; int st = run_fit(j.f, d, f); put_fit(key, j.f, st, f); if (!st) f->save(j.dir + "f.func", mkargs(j.f.args)); return st; }
    case JB_NATIVE: { auto d = make_vs(j.n); std::string fn = j.dir + "n.dat"; if (j.how & 1) save_binary(*d, fn); else d->save(fn); auto e = alta::plugins_manager::load_data(fn, "", mkargs("")); if (!e) return 2; put_dump(key, *e); put_intervals(key, *e); if (j.how & 2) e->save(j.dir + "again.dat"); return 0; }
  }
  return 9;
}
// ---- controller: everything a job published and left on the disk
struct JobResult { std::map<std::string, std::string> parts; };
inline JobResult job_result(const Job& j, const std::string& key) {
  JobResult r; for (const char* s : {".st", ".h", ".p", ".v", ".b", ".ci", ".iv", ".j", ".2.h", ".2.p", ".2.v"}) if (sim::out_has(key + s)) r.parts[s] = sim::out_get(key + s);
  for (auto& f : sim::vfs_snapshot()) if (f.first.compare(0, j.dir.size(), j.dir) == 0) r.parts["file " + f.first] = f.second; return r;
}
inline std::string diff_result(const JobResult& a, const JobResult& b) {
  char m[400]; for (auto& p : a.parts) { auto it = b.parts.find(p.first); if (it == b.parts.end()) return p.first + " is missing"; if (it->second == p.second) continue; const std::string &x = p.second, &y = it->second;
    if (x.size() != y.size()) { snprintf(m, sizeof m, "%s has %zu bytes, not %zu", p.first.c_str(), y.size(), x.size()); return m; }
    size_t i = 0; while (x[i] == y[i]) ++i; if (p.first[0] == '.') { double u, v; i = i / 8; memcpy(&u, &x[i * 8], 8); memcpy(&v, &y[i * 8], 8); snprintf(m, sizeof m, "%s[%zu] is %.17g, not %.17g", p.first.c_str(), i, v, u); } else snprintf(m, sizeof m, "%s differs at byte %zu", p.first.c_str(), i); return m; }
  for (auto& p : b.parts) if (!a.parts.count(p.first)) return p.first + " is unexpected"; return "";
}
inline LifeOpt job_opt(const Job& j, LifeOpt o = LifeOpt()) {
  if (j.third_party) { o.wall_is_discard = true; o.wall_limit_s = 12; }
  if (j.kind == JB_FMT && j.d.f >= FM_UTIA && j.d.f != FM_ASTM) { long min = j.d.f == FM_MERL ? 65536 : 4096; if (o.max_transfer && o.max_transfer < min) o.max_transfer = min; if (j.d.f == FM_MERL) o.step_budget = 4000000000L; }
  return o;
}
