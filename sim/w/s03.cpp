// S03: read-only operations on one object from several threads; work on separate objects from several threads.
#include "w/jobs.h"
extern const char* const scenario_id = "S03";
static LifeOpt sched_opt() {
  LifeOpt L; L.wall_limit_s = 60; L.sched.nthreads = 1; L.sched.mean_log2 = (int)K("dist", 0, 12); L.sched.policy = (int)K("policy", 0, 4); L.sched.seed = K("sseed", 1, 1000000000); L.sched.race = true;
  L.garbage = (int)K("garbage", 0, 6); L.garbage_seed = K("gseed", 1, 1000000000); L.rand_seed = 7; return L;
}
typedef std::vector<double> V;
static void push(V& o, const vec& v) { for (int i = 0; i < v.size(); ++i) o.push_back(v[i]); }
// ---- one read-only operation of a model
static void model_op(alta::function* f, const ModelSpec& s, const std::vector<V>& pts, Rng& r, V& o) {
  vec x = to_vec(pts[r.below(pts.size())]); int k = (int)r.below(8); auto n = dynamic_cast<alta::nonlinear_function*>(f); auto q = dynamic_cast<alta::rational_function*>(f);
  if (k < 4 || (!n && !q)) { push(o, f->value(x)); return; }
  if (q) {
    if (k == 4) push(o, (*f)(x)); else if (k == 5) { push(o, f->min()); push(o, f->max()); }
    else { const alta::rational_function* c = q; auto g = c->get((int)r.below(s.ny)); push(o, g->value(x)); if (k == 6) { push(o, g->getP()); push(o, g->getQ()); } else { vec t(s.nx); for (int i = 0; i < s.nx; ++i) t[i] = x[i]; for (int i = 0; i < s.np; ++i) o.push_back(g->p(t, i)); for (int i = 0; i < s.nq; ++i) o.push_back(g->q(t, i)); } }
    return; }
  if (k == 4) push(o, (*f)(x));
  else if (n->nbParameters() == 0) push(o, f->value(x));
  else if (k == 5) { push(o, n->parameters()); push(o, n->getParametersMin()); push(o, n->getParametersMax()); o.push_back(n->nbParameters()); }
  else push(o, n->parametersJacobian(x));
}
// ---- one read-only operation of a dataset
static void data_op(const alta::data& d, bool look_up, Rng& r, V& o, const DataSpec* scattered = nullptr) {
  int n = d.size(), nx = d.parametrization().dimX(), k = (int)r.below(6);
  if (!n || k == 5) { o.push_back(n); o.push_back(nx); o.push_back((double)d.parametrization().input_parametrization()); push(o, d.min()); push(o, d.max()); return; }
  int id = (int)r.below(n);
  if (scattered) { const double* row = &scattered->v[(size_t)id * scattered->cols()]; std::vector<double> x(row, row + nx); if (k & 1) for (auto& c : x) c += r.uni(-0.1, 0.1); vec y = d.value(to_vec(x)); sim::check_range(y.data(), y.size() * 8, false); push(o, y); return; }
  vec x = d.get(id);
  if (k < 2 || !look_up) { push(o, x); if (auto v = dynamic_cast<const alta::vertical_segment*>(&d)) { vec a, b, c; v->get(id, a, b, c); push(o, a); push(o, b); push(o, c); vec p, q; v->get(id, p, q); push(o, p); push(o, q); } return; }
  vec y = d.value(x.head(nx)); sim::check_range(y.data(), y.size() * 8, false); push(o, y);
}
static std::string diff(const std::string& a, const std::string& b) {
  char m[200]; if (a.size() != b.size()) { snprintf(m, sizeof m, "%zu results, not %zu", b.size() / 8, a.size() / 8); return m; }
  for (size_t i = 0; i + 8 <= a.size(); i += 8) if (memcmp(&a[i], &b[i], 8)) { double u, v; memcpy(&u, &a[i], 8); memcpy(&v, &b[i], 8); snprintf(m, sizeof m, "result %zu is %.17g, not %.17g", i / 8, v, u); return m; }
  return "";
}
static void shared_object() {
  int what = (int)K("what", 0, 9); int nt = (int)K("threads", 2, 4), ops = (int)K("ops", 1, 12); long oseed = K("oseed", 1, 1000000000); bool again = KB("warm", 30);
  ModelSpec m; FmtSpec fs; DataSpec ds; std::string desc; bool model = what < 6, fmt = what == 6 || what == 7, rbf = what == 9;
  if (model) { m = gen_model("m", true, true); desc = m.cmd.empty() ? "rational function" : m.cmd; }
  else if (fmt) { fs = gen_fmt("d", sim::thorough() ? 10 : 3, sim::thorough() ? 2 : 0, true); desc = fmt_name[fs.f]; if (fs.f != FM_GRID) sim::vfs_put(fs.file, fmt_bytes(fs)); }
  else { ds = gen_data("n", 40, true); desc = rbf ? "scattered data" : "native dataset"; }
  bool look = fmt ? (fs.f == FM_GRID || fs.f == FM_MERL || fs.f == FM_UTIA || fs.f == FM_UTIA_EXR || (fs.f == FM_SLICE && std::string("STARK_2D RUSIN_TH_TD COS_TH_TD ISOTROPIC_TV_PROJ_DPHI").find(fs.args.substr(8)) != std::string::npos)) : rbf;
  auto body = [&](bool par, const std::string& key) {
    return [=, &m, &fs, &ds] {
      ptr<alta::function> f; ptr<alta::data> d; std::vector<V> pts;
      if (model) { f = make_model(m); if (!f) return 2; pts = eval_points(f.get(), m, 5); }
      else if (fmt) { d = fs.f == FM_GRID ? fmt_make(fs) : fmt_load(fs, fs.file); if (!d) return 2; }
      else { d = make_vs(ds); if (rbf) { if (ds.n < 4) return 2; d->save("n.dat"); d = alta::plugins_manager::load_data("n.dat", "data_rbf", mkargs("")); if (!d) return 2; } }
      std::vector<V> out(nt);
      auto one = [&](int t) { Rng r(oseed + t); for (int i = 0; i < ops; ++i) if (model) model_op(f.get(), m, pts, r, out[t]); else data_op(*d, look, r, out[t], rbf ? &ds : nullptr); };
      if (par) { if (again) { V o; Rng r(oseed + 99); if (model) model_op(f.get(), m, pts, r, o); else data_op(*d, look, r, o, rbf ? &ds : nullptr); } sim::par_run(nt, one); } else for (int t = 0; t < nt; ++t) one(t);
      for (int t = 0; t < nt; ++t) sim::out_vec(key + std::to_string(t), out[t].data(), out[t].size());
      return 0; }; };
  LifeOpt L0; L0.rand_seed = 7; LifeRes a = sim::life(L0, body(false, "a")); if (a.died_badly()) violation("crash", "%s, one thread: %s", desc.c_str(), a.str().c_str());
  if (!a.ok()) sim::discard("the object cannot be made");
  int lives = (int)K("lives", 1, 3); bool any = false;
  for (int i = 0; i < lives; ++i) {
    std::string key = "b" + std::to_string(i) + "."; LifeRes b = sim::life(sched_opt(), body(true, key));
    if (b.died_badly()) violation(b.kind == sim::L_RACE ? "race" : b.kind == sim::L_DEADLOCK ? "deadlock" : "crash", "%s shared by %d threads: %s", desc.c_str(), nt, b.str().c_str());
    if (!b.ok()) violation("outcome", "%s shared by %d threads: %s", desc.c_str(), nt, b.str().c_str());
    for (int t = 0; t < nt; ++t) { std::string df = diff(sim::out_get("a" + std::to_string(t)), sim::out_get(key + std::to_string(t))); if (!df.empty()) violation("result", "%s shared by %d threads: thread %d: %s", desc.c_str(), nt, t, df.c_str()); }
    if (b.switches > nt) any = true; sim::count("switches", b.switches); sim::count(model ? "shared_models" : fmt ? "shared_measured" : rbf ? "shared_scattered" : "shared_native");
  }
  if (any) sim::nontrivial();
}
static void separate_objects() {
  int nt = (int)K("threads", 2, 4); std::vector<Job> jobs; std::vector<JobResult> want; std::vector<int> st; std::string desc;
  for (int t = 0; t < nt; ++t) { jobs.push_back(gen_job(("j" + std::to_string(t)).c_str(), JB_MODEL | JB_FMT | JB_NATIVE, 0, sim::thorough() ? 3 : 0, 0)); job_files(jobs.back()); desc += (t ? " | " : "") + jobs.back().desc; }
  auto clean = sim::vfs_snapshot();
  for (int t = 0; t < nt; ++t) {
    LifeRes a = sim::life(job_opt(jobs[t]), [&, t] { int s = do_job(jobs[t], "a" + std::to_string(t)); sim::out_num("a" + std::to_string(t) + ".st", s); return 0; });
    if (a.died_badly()) violation("crash", "%s alone: %s", jobs[t].desc.c_str(), a.str().c_str());
    if (!a.ok()) sim::discard("a job aborts");
    want.push_back(job_result(jobs[t], "a" + std::to_string(t))); }
  int lives = (int)K("lives", 1, 2); bool any = false;
  for (int i = 0; i < lives; ++i) {
    sim::vfs_restore(clean); std::string key = "b" + std::to_string(i) + "."; LifeOpt L = sched_opt(); L.noise_read = L.noise_write = (int)K("noise", 0, 2) * 200; L.noise_seed = K("nseed", 1, 1000000000);
    bool own = KB("preload", 30); LifeRes b = sim::life(L, [&] { if (own) for (auto& j : jobs) if (j.kind == JB_MODEL) make_model(j.m); std::vector<int> s(nt); sim::par_run(nt, [&](int t) { s[t] = do_job(jobs[t], key + std::to_string(t)); }); for (int t = 0; t < nt; ++t) sim::out_num(key + std::to_string(t) + ".st", s[t]); return 0; });
    if (b.died_badly()) violation(b.kind == sim::L_RACE ? "race" : b.kind == sim::L_DEADLOCK ? "deadlock" : "crash", "threads on [%s]: %s", desc.c_str(), b.str().c_str());
    if (!b.ok()) violation("outcome", "threads on [%s]: %s", desc.c_str(), b.str().c_str());
    for (int t = 0; t < nt; ++t) { std::string df = diff_result(want[t], job_result(jobs[t], key + std::to_string(t))); if (!df.empty()) violation("result", "threads on [%s]: thread %d: %s", desc.c_str(), t, df.c_str()); }
    if (b.switches > nt) any = true; sim::count("switches", b.switches); sim::count("separate");
  }
  if (any) sim::nontrivial();
}
void scenario() { if (KB("separate", 35)) separate_objects(); else shared_object(); }
