// X01: a failed operation leaves nothing behind.
#include "w/steps.h"
extern const char* const scenario_id = "X01";
static const int FITS = STEP_FITS;
void scenario() {
  int nh = (int)K("nheld", 0, 2); std::vector<Held> hs; for (int i = 0; i < nh; ++i) hs.push_back(gen_held(i));
  int ns = (int)K("nsteps", 1, 3); std::vector<Step> st; for (int i = 0; i < ns; ++i) st.push_back(gen_step(i, hs));
  std::vector<int> again; for (int i = 0; i < ns; ++i) if (st[i].kind == 0) again.push_back(i);
  bool retry = !again.empty() && KB("retry", 50); Job v; if (retry) v = st[again[K("retried", 0, (long)again.size() - 1)]].j; else { v = gen_job("v", JB_ALL, FITS, 1, 0, 10); job_files(v); }
  std::vector<std::string> dirs; for (auto& s : st) if (s.kind == 0) dirs.push_back(s.j.dir); dirs.push_back(v.dir); for (auto& d : dirs) sim::vfs_put(d + "bystander", "left alone"); sim::vfs_put("out/bystander", "left alone"); sim::vfs_put("bystander", "left alone");
  auto clean = sim::vfs_snapshot();
  LifeOpt o; o = job_opt(v, o); for (auto& s : st) if (s.kind == 0) o = job_opt(s.j, o);
  bool merl = false; (void)merl; auto ref_opt = o;
  // what a process of its own makes of the last operation
  LifeRes rv = sim::life(ref_opt, [&] { return do_job(v, "v"); }); if (rv.died_badly()) violation("crash", "%s: %s", v.desc.c_str(), rv.str().c_str()); JobResult want = job_result(v, "v"); if (rv.kind != sim::L_DONE) sim::discard("the last operation ends the process");
  // and of the held objects
  sim::vfs_restore(clean);
  LifeRes rh = sim::life(ref_opt, [&] { for (auto& h : hs) if (!hold(h)) return 2; for (size_t i = 0; i < hs.size(); ++i) { put_held(hs[i], "h" + std::to_string(i)); if (!(hs[i].kind == 2 && hs[i].d.f == FM_ASTM)) save_held(hs[i], "held/saved" + std::to_string(i)); } return 0; });
  if (rh.died_badly()) violation("crash", "held objects: %s", rh.str().c_str()); if (!rh.ok()) sim::discard("the held objects cannot be made"); auto hsaved = sim::vfs_snapshot();
  // the undisturbed history, to know where it can be disturbed
  sim::vfs_restore(clean);
  LifeRes rp = sim::life(ref_opt, [&] { for (auto& h : hs) hold(h); for (int i = 0; i < ns; ++i) { std::vector<double> c; for (int k = 0; k < sim::OP_NCLASS; ++k) c.push_back(k == sim::OP_DL ? sim::dl_op_count() : sim::vfs_op_count(k)); sim::out_vec("c" + std::to_string(i), c.data(), c.size()); bool al = st[i].kind != 0 || !st[i].j.third_party; if (al) sim::alloc_arm(true); long a0 = sim::alloc_count(); try { do_step(st[i], hs); } catch (...) {} sim::alloc_arm(false); std::vector<double> e; for (int k = 0; k < sim::OP_NCLASS; ++k) e.push_back(k == sim::OP_DL ? sim::dl_op_count() : sim::vfs_op_count(k)); e.push_back((double)(sim::alloc_count() - a0)); sim::out_vec("e" + std::to_string(i), e.data(), e.size()); } return 0; });
  if (rp.died_badly()) violation("crash", "%s, ...: %s", st[0].desc.c_str(), rp.str().c_str()); if (!rp.ok()) sim::discard("an operation ends the process");
  int tries = (int)K("tries", 1, 2);
  for (int t = 0; t < tries; ++t) {
    sim::vfs_restore(clean); LifeOpt L = benign("m"); L = job_opt(v, L); for (auto& s : st) if (s.kind == 0) L = job_opt(s.j, L); for (auto& h : hs) if (h.kind == 2 && h.d.f >= FM_UTIA && h.d.f != FM_ASTM && L.max_transfer && L.max_transfer < 4096) L.max_transfer = 4096; bool used_alloc = false; std::string story;
    for (int i = 0; i < ns; ++i) {
      Step& s = st[i]; s.has_fault = s.alloc = false; s.fault = ""; auto c = get_vecd("c" + std::to_string(i)), e = get_vecd("e" + std::to_string(i)); LifeRes d; memset(d.nops, 0, sizeof d.nops); for (int k = 0; k < sim::OP_NCLASS; ++k) d.nops[k] = (long)(e[k] - c[k]); long al = (long)e[sim::OP_NCLASS]; int m = (int)K("fault", 0, 9); s.flt = LifeOpt();
      if (m <= 3 && d.nops[sim::OP_WRITE] > 0) { s.fault = draw_write_fault("w", s.flt, d, 1000); s.has_fault = true; }
      else if (m <= 6 && d.nops[sim::OP_READ] > 0) { s.fault = draw_read_fault("r", s.flt, d); s.has_fault = true; }
      else if (m == 7 && al > 0 && !used_alloc && !(s.kind == 0 && s.j.third_party)) { used_alloc = s.alloc = true; L.alloc_fail_at = K("at", 0, al - 1); L.alloc_fail_sticky = KB("asticky", 30); s.fault = "allocation " + std::to_string(L.alloc_fail_at) + " fails"; }
      else if (m == 8 && d.nops[sim::OP_DL] > 0) { s.flt.faults.push_back(sim::Fault{sim::OP_DL, K("dl", 0, d.nops[sim::OP_DL] - 1), sim::F_EIO, 0, KB("dlsticky", 40)}); s.fault = "the loader fails"; s.has_fault = true; }
      story += (i ? "; then " : "") + s.desc + (s.fault.empty() ? "" : " while " + s.fault); }
    std::string key = "t" + std::to_string(t);
    LifeRes r = sim::life(L, [&] {
      for (auto& h : hs) if (!hold(h)) return 2;
      for (size_t i = 0; i < hs.size(); ++i) put_held(hs[i], key + "b" + std::to_string(i));
      int open0 = sim::vfs_open_count(); sim::out_num(key + "o", open0);
      for (int i = 0; i < ns; ++i) {
        Step& s = st[i]; int rc = 9; if (s.has_fault) sim::faults_arm(s.flt); if (s.alloc) sim::alloc_arm(true);
        try { rc = do_step(s, hs); } catch (...) { rc = 200; }
        sim::alloc_arm(false); sim::faults_disarm(); sim::out_num(key + "s" + std::to_string(i), rc); sim::out_num(key + "f" + std::to_string(i), sim::vfs_open_count());
        for (size_t k = 0; k < hs.size(); ++k) put_held(hs[k], key + "a" + std::to_string(i) + "_" + std::to_string(k));
      }
      sim::out_num(key + "steps", 1);
      for (size_t i = 0; i < hs.size(); ++i) if (!(hs[i].kind == 2 && hs[i].d.f == FM_ASTM)) save_held(hs[i], "held/saved" + std::to_string(i));
      sim::out_num(key + "held", 1);
      int rc = do_job(v, key); sim::out_num(key + "of", sim::vfs_open_count()); return rc; });
    if (r.died_badly()) violation("crash", "%s: %s", story.c_str(), r.str().c_str());
    for (int i = 0; i < ns; ++i) { std::string f = key + "f" + std::to_string(i); if (!sim::out_has(f)) break; int o0 = (int)get_vecd(key + "o")[0], of = (int)get_vecd(f)[0]; if (of != o0) violation("left-open", "%s: %d file(s) still open after the %s operation", story.c_str(), of - o0, i == 0 ? "first" : i == 1 ? "second" : "third"); if (get_vecd(key + "s" + std::to_string(i))[0] != 0) sim::count("failed_operations"); else sim::count("completed_operations"); }
    for (size_t k = 0; k < hs.size(); ++k) for (int i = 0; i < ns; ++i) for (const char* sx : {".h", ".p", ".v", ".b", ".ci"}) {
      std::string kb = key + "b" + std::to_string(k) + sx, ka = key + "a" + std::to_string(i) + "_" + std::to_string(k) + sx, kh = "h" + std::to_string(k) + sx; if (!sim::out_has(kb) || !sim::out_has(ka)) continue;
      if (sim::out_get(kb) != sim::out_get(kh)) violation("object", "held %s: another content under another memory image", hs[k].desc.c_str());
      if (sim::out_get(ka) != sim::out_get(kb)) violation("object", "%s: the held %s changed", story.c_str(), hs[k].desc.c_str()); }
    auto now = sim::vfs_snapshot();
    for (auto& f : clean) { std::string n = f.first; bool output = n.compare(0, 10, "held/saved") == 0; for (auto& d : dirs) for (const char* w : {"f.func", "n.dat", "saved", "again.dat"}) if (n == d + w) output = true; for (auto& s : st) if (s.kind == 1 && s.file == n) output = true; if (output) continue;
      auto it = now.find(n); if (it == now.end()) violation("file", "%s: the file \"%s\" is gone", story.c_str(), n.c_str()); if (it->second != f.second) violation("file", "%s: the file \"%s\" changed", story.c_str(), n.c_str()); }
    if (!sim::out_has(key + "steps")) { if (r.loud()) { sim::count("ends_the_process"); continue; } violation("harness", "%s: %s", story.c_str(), r.str().c_str()); }
    if (!sim::out_has(key + "held")) violation("later-fails", "%s: afterwards the held objects cannot be saved: %s", story.c_str(), r.str().c_str());
    for (auto& f : hsaved) if (f.first.compare(0, 10, "held/saved") == 0 && now[f.first] != f.second) violation("later-differs", "%s: the held object is saved to \"%s\" with other bytes than in a new process", story.c_str(), f.first.c_str());
    if (r.kind != sim::L_DONE || r.code != rv.code) violation("later-fails", "%s: afterwards %s ends with %s, in a new process with %s", story.c_str(), v.desc.c_str(), r.str().c_str(), rv.str().c_str());
    if (rv.ok()) { std::string df = diff_result(want, job_result(v, key)); if (!df.empty()) violation("later-differs", "%s: afterwards %s: %s than in a new process", story.c_str(), v.desc.c_str(), df.c_str()); }
    if (sim::out_has(key + "of") && get_vecd(key + "of")[0] != get_vecd(key + "o")[0]) violation("left-open", "%s then %s: files still open", story.c_str(), v.desc.c_str());
    sim::nontrivial();
  }
}
