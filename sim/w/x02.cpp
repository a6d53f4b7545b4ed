// X02: work that is over keeps nothing: memory and descriptors do not grow with the number of repetitions.
#include "w/steps.h"
extern const char* const scenario_id = "X02";
static const int WARM = 2, N = 4, ALL = WARM + N + 1;
void scenario() {
  int nh = (int)K("nheld", 0, 1); std::vector<Held> hs; for (int i = 0; i < nh; ++i) hs.push_back(gen_held(i));
  int ns = (int)K("nsteps", 1, 2); std::vector<Step> st; for (int i = 0; i < ns; ++i) st.push_back(gen_step(i, hs));
  for (auto& s : st) if (s.kind == 0 && s.j.kind == JB_FIT && s.j.f.fitter.find("nlopt") != std::string::npos && KB("search", 60)) {   // other searches, among them ones that refuse unbounded parameters
    static const char* al[] = {"global-crs", "global-isres", "local-COBYLA", "local-BOBYQA", "local-spblx", "local-sqp", "global-stogo"}; std::string& a = s.j.f.args; size_t q = a.find(" --nlopt-optimizer "); if (q != std::string::npos) { size_t e = a.find(' ', q + 19); a.erase(q, e == std::string::npos ? e : e - q); } a += std::string(" --nlopt-optimizer ") + al[K("algo", 0, 6)]; s.desc = s.j.f.fitter + " " + a; }
  DataSpec sc; bool scattered = KB("scattered", 15); if (scattered) { sc = gen_data("sc", 30, true); if (sc.n < 4) scattered = false; }
  auto look_up = [&] { if (!scattered) return; make_vs(sc)->save("sc.dat"); auto d = alta::plugins_manager::load_data("sc.dat", "data_rbf", mkargs("")); if (!d) return; vec x = d->get(0); d->value(x.head(d->parametrization().dimX())); };
  // the large MERL container: made, saved on a disk that fails at once, read from a file that is too short
  int merl = KB("merl", 2) ? (int)K("merl.what", 1, 3) : 0; LifeOpt mf; if (merl == 2) mf.faults.push_back(sim::Fault{sim::OP_WRITE, K("merl.at", 0, 1), sim::F_ENOSPC, 0, true});
  if (merl == 3) { int dims[3] = {90, 90, 180}; if (KB("merl.dims", 40)) dims[K("merl.dim", 0, 2)] += 1; std::string b((char*)dims, 12); b.resize((size_t)K("merl.size", 4, 20000)); sim::vfs_put("in/m.binary", b); }
  auto big = [&] { if (!merl) return; if (merl == 3) { alta::plugins_manager::load_data("in/m.binary", "data_merl", mkargs("")); return; }
    auto d = alta::plugins_manager::get_data("data_merl", 4, alta::parameters(3, 3, alta::params::RUSIN_TH_TD_PD, alta::params::RGB_COLOR), mkargs("")); if (!d) return; if (merl == 2) { sim::faults_arm(mf); d->save("out/m.binary"); } };
  std::string story; for (auto& s : st) story += (story.empty() ? "" : ", then ") + s.desc;
  auto extra = [&] { if (scattered) story += ", then interpolated scattered data"; if (merl) story += merl == 1 ? ", then a new MERL container" : merl == 2 ? ", then a failing save of a MERL container" : ", then a load of a short MERL file"; };
  auto clean = sim::vfs_snapshot();
  auto opts = [&](LifeOpt o) { for (auto& s : st) if (s.kind == 0) o = job_opt(s.j, o); for (auto& h : hs) if (h.kind == 2 && h.d.f >= FM_UTIA && h.d.f != FM_ASTM && o.max_transfer && o.max_transfer < 4096) o.max_transfer = 4096; return o; };
  // where each operation can be disturbed
  if (KB("disturbed", 50)) {
    LifeRes rp = sim::life(opts(LifeOpt()), [&] { for (auto& h : hs) if (!hold(h)) return 2;
      for (int i = 0; i < ns; ++i) { auto now = [] { std::vector<double> c; for (int k = 0; k < sim::OP_NCLASS; ++k) c.push_back(k == sim::OP_DL ? sim::dl_op_count() : sim::vfs_op_count(k)); return c; };
        auto c = now(); try { do_step(st[i], hs); } catch (const std::exception&) {} auto e = now(); for (size_t k = 0; k < c.size(); ++k) e[k] -= c[k]; sim::out_vec("n" + std::to_string(i), e.data(), e.size()); } return 0; });
    if (!rp.ok()) sim::discard("the process does not survive the work");
    story = "";
    for (int i = 0; i < ns; ++i) { Step& s = st[i]; auto e = get_vecd("n" + std::to_string(i)); LifeRes d; memset(d.nops, 0, sizeof d.nops); for (int k = 0; k < sim::OP_NCLASS; ++k) d.nops[k] = (long)e[k]; int m = (int)K("fault", 0, 9);
      if (m <= 3 && d.nops[sim::OP_WRITE] > 0) { s.fault = draw_write_fault("w", s.flt, d, 1000); s.has_fault = true; }
      else if (m <= 7 && d.nops[sim::OP_READ] > 0) { s.fault = draw_read_fault("r", s.flt, d); s.has_fault = true; }
      else if (m == 8 && d.nops[sim::OP_DL] > 0) { s.flt.faults.push_back(sim::Fault{sim::OP_DL, K("dl", 0, d.nops[sim::OP_DL] - 1), sim::F_EIO, 0, KB("dlsticky", 40)}); s.fault = "the loader fails"; s.has_fault = true; }
      story += (i ? "; then " : "") + s.desc + (s.fault.empty() ? "" : " while " + s.fault); }
    sim::vfs_restore(clean); }
  extra(); sim::out_clear();
  LifeRes r = sim::life(opts(benign("m")), [&] {
    double by[ALL], bl[ALL], of[ALL], how[ALL]; for (auto& h : hs) if (!hold(h)) return 2;
    for (int it = 0; it < ALL; ++it) {
      how[it] = 0; if (it == ALL - 1) sim::heap_trace_begin();
      for (auto& s : st) { int c = 0; if (s.has_fault) sim::faults_arm(s.flt); try { c = do_step(s, hs) ? 1 : 0; } catch (const std::exception&) { c = 2; } sim::faults_disarm(); how[it] = how[it] * 3 + c; }
      look_up(); try { big(); } catch (const std::exception&) {} sim::faults_disarm();
      by[it] = sim::heap_live_bytes(); bl[it] = sim::heap_live_blocks(); of[it] = sim::vfs_open_count();
    }
    sim::heap_trace_end(); sim::out_vec("by", by, ALL); sim::out_vec("bl", bl, ALL); sim::out_vec("of", of, ALL); sim::out_vec("how", how, ALL); return 0; });
  if (!r.ok()) sim::discard("the process does not survive the work");
  auto by = get_vecd("by"), bl = get_vecd("bl"), of = get_vecd("of"), how = get_vecd("how");
  // more after every single repetition once the first ones are over
  bool grow = true, bytes = true, fds = true; for (int i = WARM; i + 1 < ALL; ++i) { if (bl[i + 1] <= bl[i]) grow = false; if (by[i + 1] <= by[i]) bytes = false; if (of[i + 1] <= of[i]) fds = false; }
  if (how[ALL - 1] > 0) sim::count("repetitions_with_failures"); else sim::count("repetitions_without_failure"); if (r.fired > 0) sim::count("repetitions_with_faults");
  if (fds) sim::violation("descriptors", "%s: %g more files are open after each repetition", story.c_str(), of[WARM + 1] - of[WARM]);
  if (grow || bytes) sim::violation("memory", "%s (outcome %g): each repetition leaves %g more blocks and %g more bytes", story.c_str(), how[ALL - 1], bl[WARM + 1] - bl[WARM], by[WARM + 1] - by[WARM]);
  sim::nontrivial();
}
