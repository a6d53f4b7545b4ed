// T01: reported durations are the elapsed running time.
#include "w/common.h"
extern const char* const scenario_id = "T01";
// A history over 1-3 timers: start / stop (alternating, per timer), reset, clock advances, wall clock jumps, reports.
struct Op { int kind, timer; int64_t ns; };   // 0 advance, 1 wall jump, 2 toggle, 3 reset, 4 report
void scenario() {
  int nt = (int)K("timers", 1, 3), n = (int)K("ops", 4, 40); std::vector<Op> ops;
  for (int i = 0; i < n; ++i) {
    Op o; long w = K("op", 0, 9); o.kind = w < 3 ? 0 : w < 4 ? 1 : w < 8 ? 2 : w < 9 ? 4 : 3; o.timer = (int)K("timer", 0, nt - 1); o.ns = 0;
    if (o.kind <= 1) { long mag = K("mag", 0, 5); static const long top[] = {999999999L, 5, 90, 7000, 200000, 40000000}; long s = K("sec", 0, mag ? top[mag] : 0), frac = K("frac", 0, 999999); o.ns = s * 1000000000LL + frac * 1000; if (!mag) o.ns = frac * 1000; if (o.kind == 1 && KB("back", 50)) o.ns = -o.ns; }
    ops.push_back(o);
  }
  LifeOpt lo = benign("e", false); lo.mono_start += K("subsec", 0, 999999) * 1000; 
  LifeRes r = sim::life(lo, [&] {
    std::vector<alta::timer> t(nt); std::vector<char> running(nt, 0); int k = 0;
    auto rep = [&](int j) { std::string key = "r" + std::to_string(k++); sim::out_num(key + ".e", t[j].elapsed()); std::ostringstream a, b; t[j].print(a); b << t[j]; sim::out_put(key + ".p", a.str()); sim::out_put(key + ".s", b.str()); };
    for (auto& o : ops) switch (o.kind) {
      case 0: sim::clock_advance(o.ns); break;
      case 1: sim::wall_jump(o.ns); break;
      case 2: if (running[o.timer]) { t[o.timer].stop(); running[o.timer] = 0; rep(o.timer); } else { t[o.timer].start(); running[o.timer] = 1; } break;
      case 3: t[o.timer].reset(); break;
      case 4: if (!running[o.timer]) rep(o.timer); break; }
    sim::out_num("n", k); return 0; });
  if (!r.ok()) violation("crash", "timing: %s", r.str().c_str());
  // reference: exact monotonic time per timer (clock readings themselves take 137 ns of simulated time each)
  std::vector<int64_t> acc(nt, 0), since(nt, 0); std::vector<int> iv(nt, 0); std::vector<char> run(nt, 0); int64_t now = 0; int k = 0; bool any = false; int nrun = 0; (void)nrun;
  auto chk = [&](int j) {
    std::string key = "r" + std::to_string(k++); double e = get_vecd(key + ".e")[0], want = acc[j] / 1e9; any = any || iv[j];
    if (std::fabs(e - want) > iv[j] * 1.0 + 1e-3) violation("elapsed", "timer %d reports %.0f s after running %.6f s in %d intervals", j, e, want, iv[j]);
    for (const char* q : {".p", ".s"}) { std::string s = sim::out_get(key + q); unsigned h, m, sec; int used = 0; if (sscanf(s.c_str(), "%uh %um %us%n", &h, &m, &sec, &used) != 3 || used != (int)s.size()) violation("print", "%.0f s are printed as \"%s\"", e, s.c_str()); if (m > 59 || sec > 59 || h * 3600.0 + m * 60.0 + sec != e) violation("print", "%.0f s are printed as \"%s\"", e, s.c_str()); } };
  for (auto& o : ops) switch (o.kind) {
    case 0: now += o.ns; break; case 1: break;
    case 2: if (run[o.timer]) { acc[o.timer] += now - since[o.timer]; iv[o.timer]++; run[o.timer] = 0; chk(o.timer); } else { since[o.timer] = now; run[o.timer] = 1; } break;
    case 3: acc[o.timer] = 0; iv[o.timer] = 0; since[o.timer] = now; break;
    case 4: if (!run[o.timer]) chk(o.timer); break; }
  if (k != (int)get_vecd("n")[0]) violation("crash", "reports are missing");
  if (any) sim::nontrivial();
}
