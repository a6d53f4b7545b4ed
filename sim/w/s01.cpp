// S01: the parallel rational fit does not depend on threads or schedule.
#include "w/fits.h"
extern const char* const scenario_id = "S01";
static LifeOpt sched_opt(int n) {
  LifeOpt L; L.wall_is_discard = false; L.wall_limit_s = 60; L.sched.nthreads = n; L.sched.mean_log2 = (int)K("dist", 0, 12); L.sched.policy = (int)K("policy", 0, 4); L.sched.seed = K("sseed", 1, 1000000000); L.sched.race = true;
  L.garbage = (int)K("garbage", 0, 6); L.garbage_seed = K("gseed", 1, 1000000000); return L;
}
void scenario() {
  FitSpec s = gen_fit("f", FT_PARALLEL, 24); int form = (int)K("form", 0, 9); std::string extra;
  if (KB("flat", 12)) {                     // constant data: many equally good fits
    double c = K("level", 0, 2) == 0 ? KD("constant", -1, 1) : 0, w = 0.25 * K("width", 1, 4); s.d.n = (int)K("few", 1, 6); s.d.v.resize((size_t)s.d.n * s.d.cols());
    for (int i = 0; i < s.d.n; ++i) for (int k = 0; k < s.d.ny; ++k) { double* row = &s.d.v[(size_t)i * s.d.cols() + s.d.nx + k]; row[0] = c; row[s.d.ny] = c - w; row[2 * s.d.ny] = c + w; }
    sim::count("flat"); }
  if (form == 8) { s.d.kind = 1; extra += " --dt 0.2"; }               // symmetric intervals and plain points are converted
  if (form == 9) { s.d.kind = 0; extra += " --dt 0." + std::to_string(K("dt", 2, 6)); }
  if (KB("start", 50)) extra += " --nb-starting-points " + std::to_string(K("starting", 2, 12));
  if (KB("step", 20)) extra += " --np-step 2";
  if (s.d.kind != 2) { DataSpec o = s.d; s.d.v.assign((size_t)o.n * s.d.cols(), 0); int oc = o.nx + 3 * o.ny, nc = s.d.cols(); for (int i = 0; i < o.n; ++i) { for (int k = 0; k < o.nx + o.ny; ++k) s.d.v[(size_t)i * nc + k] = o.v[(size_t)i * oc + k]; for (int k = o.nx + o.ny; k < nc; ++k) s.d.v[(size_t)i * nc + k] = 0.1 + 0.1 * std::fabs(o.v[(size_t)i * oc + o.nx + k - o.nx - o.ny]); } }
  bool plain = s.d.kind == 2;
  auto body = [&](int cores, const std::string& key, int again) {
    return [=, &s] {
      FitSpec q = s; q.args += extra; if (cores) q.args += " --nb-cores " + std::to_string(cores);
      auto d = fit_data_of(q); if (!d) return 2;
      for (int k = 0; k <= again; ++k) { ptr<alta::function> f; int st = run_fit(q, d, f); put_fit(key, q, st, f);
        if (st == 0) { f->save(key + ".func", mkargs(q.m.cmd));
          if (plain) { double worst = 0; int at = -1; for (int i = 0; i < q.d.n; ++i) { const double* row = &q.d.v[(size_t)i * q.d.cols()]; vec y = f->value(to_vec(std::vector<double>(row, row + q.d.nx)));
              for (int c = 0; c < q.d.ny; ++c) { double lo = row[q.d.nx + q.d.ny + c], hi = row[q.d.nx + 2 * q.d.ny + c], w = hi - lo, e = !(y[c] == y[c]) ? 1e9 : std::max(lo - y[c], y[c] - hi) / w; if (e > worst) { worst = e; at = i; } } }
            sim::out_num(key + ".worst", worst); sim::out_num(key + ".at", at); } } }
      return 0; }; };
  LifeOpt L0; L0.wall_is_discard = true; L0.wall_limit_s = 15; L0.sched.nthreads = 1; L0.sched.seed = 1;
  LifeRes a = sim::life(L0, body(1, "a", 0));
  if (a.died_badly()) violation("crash", "one thread: %s", a.str().c_str());
  if (!a.ok() && !a.loud()) sim::discard("the sequential fit does not end");
  ModelDump x; std::string fx; double st = -1;
  if (a.ok()) { st = get_vecd("a.st")[0]; if (st > 4) st = 5; if (st == 0) { get_model("a", x); sim::vfs_get("a.func", fx); if (plain && get_vecd("a.worst")[0] > 1e-6) violation("segment", "the fit misses the interval of sample %d by %g of its width", (int)get_vecd("a.at")[0], get_vecd("a.worst")[0]); } }
  int n = (int)K("lives", 1, 3); bool any = false;
  for (int i = 0; i < n; ++i) {
    int th = (int)K("threads", 2, 8); bool cli = KB("cli", 50); std::string key = "b" + std::to_string(i); int again = KB("again", 15) ? 1 : 0;
    LifeOpt L = sched_opt(cli ? (int)K("procs", 1, 8) : th); LifeRes b = sim::life(L, body(cli ? th : 0, key, again));
    if (b.died_badly()) violation(b.kind == sim::L_RACE ? "race" : b.kind == sim::L_DEADLOCK ? "deadlock" : "crash", "%d threads: %s", th, b.str().c_str());
    if (a.loud() != b.loud() || a.ok() != b.ok()) violation("outcome", "one thread: %s; %d threads: %s", a.str().c_str(), th, b.str().c_str());
    if (!a.ok()) { sim::count("loud"); continue; }
    double sb = get_vecd(key + ".st")[0]; if (sb != st) violation("status", "status %g with one thread, %g with %d", st, sb, th);
    if (st == 0) { ModelDump y; get_model(key, y); std::string df = diff_model(x, y, 0, 0, true); std::string fy; sim::vfs_get(key + ".func", fy); if (df.empty() && fx != fy) df = "the saved function differs"; if (!df.empty()) violation("result", "%d threads: %s", th, df.c_str()); if (b.switches > 2) any = true; sim::count("fitted"); }
    else if (b.switches > 2) any = true;
    sim::count("switches", b.switches); sim::count("points", b.points);
  }
  if (any) sim::nontrivial();
}
