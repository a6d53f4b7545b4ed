// D01: native datasets survive save, process restart and reload.
#include "w/common.h"
extern const char* const scenario_id = "D01";
// Replaces some samples, with or without their intervals: in the dataset, or in the description of what it must hold then.
static void edit(DataSpec& s, alta::vertical_segment* d, long n, long seed) {
  Rng r(seed);
  for (long e = 0; e < n; ++e) {
    int i = (int)r.below(s.n), len = r.chance(0.5) ? s.cols() : s.nx + s.ny; vec x(len); for (int k = 0; k < len; ++k) x[k] = gen_value(r, 1);
    if (d) d->set(i, x); else for (int k = 0; k < len; ++k) s.v[(size_t)i * s.cols() + k] = x[k];
  }
}
static void save_as(const alta::data& d, bool bin, const std::string& fn) { if (bin) save_binary(d, fn); else d.save(fn); }
void scenario() {
  DataSpec s = gen_data("d", K("big", 0, 39) == 0 ? 20000 : sim::thorough() ? 600 : 250, true);
  int hops = (int)K("hops", 1, 3);
  bool bin = K("fmt", 0, 1);
  std::string f0 = "work/a0.dat";
  LifeOpt o = benign("w0");
  long edits = KB("edit", 30) ? K("edits", 1, 5) : 0, eseed = K("eseed", 1, 1000000);
  LifeRes r = sim::life(o, [&] { auto d = make_vs(s); if (edits) edit(s, d.get(), edits, eseed); put_dump("h0", *d); save_as(*d, bin, f0); sim::out_num("saved", 1); return 0; });
  if (!r.ok()) violation("save-failed", "saving a valid dataset without any fault: %s", r.str().c_str());
  sim::nontrivial();
  std::string fn = f0; Dump prev; if (!get_dump("h0", prev)) violation("harness", "no dump");
  edit(s, nullptr, edits, eseed);
  { size_t c = s.cols(), m = s.nx + s.ny; if (prev.n != s.n || prev.v.size() != s.n * m || prev.ci.size() != s.n * c) violation("content", "the dataset reports %d samples, %zu values and %zu stored numbers", prev.n, prev.v.size(), prev.ci.size());
    for (size_t i = 0; i < s.v.size(); ++i) if (!same_bits(prev.ci[i], s.v[i]) || (i % c < m && !same_bits(prev.v[i / c * m + i % c], s.v[i]))) violation("content", "number %zu of sample %zu is not what it was set to", i % c, i / c); }
  for (int h = 1; h <= hops; ++h) {
    bool nbin = K("fmt", 0, 1); std::string key = "h" + std::to_string(h), nf = "work/a" + std::to_string(h) + ".dat";
    bool expl = KB("type", 50); std::string args = KB("dt", 20) ? "--dt 0.25" : ""; bool stream = KB("viastream", 20);
    LifeOpt q = benign("l");
    LifeRes x = sim::life(q, [&] {
      ptr<alta::data> d;
      if (stream) { std::ifstream in(fn.c_str(), std::ios::binary); d = alta::plugins_manager::load_data(expl ? "vertical_segment" : "", in, mkargs(args)); }
      else d = alta::plugins_manager::load_data(fn, expl ? "vertical_segment" : "", mkargs(args));
      if (!d) return 3;
      put_dump(key, *d);
      if (h < hops) save_as(*d, nbin, nf);
      return 0; });
    if (!x.ok()) violation("reload-failed", "reloading a completely saved %s file: %s", bin ? "binary" : "text", x.str().c_str());
    Dump now; if (!get_dump(key, now)) violation("harness", "no dump");
    std::string df = diff_dump(prev, now, bin ? 0 : 1e-14, bin);
    if (!df.empty()) violation(bin ? "binary-differs" : "text-differs", "hop %d (%s): %s", h, bin ? "binary" : "text", df.c_str());
    prev = now; fn = nf; bin = nbin;
    sim::count("reloads");
  }
}
