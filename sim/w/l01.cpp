// L01: reading any file terminates.
#include "w/formats.h"
#include "w/models.h"
extern const char* const scenario_id = "L01";
static std::string tokens(Rng& r, int n) {
  static const char* t[] = {"#ALTA HEADER BEGIN\n", "#ALTA HEADER END\n", "#ALTA FUNC HEADER\n", "#DIM 2 1\n", "#DIM 3 3\n", "#DIM ", "#PARAM_IN RUSIN_TH_TD\n", "#PARAM_OUT RGB_COLOR\n", "#CMD --func [a, b]\n", "#CMD --func nonlinear_function_beckmann\n", "#FUNC nonlinear_function_beckmann\n", "#FUNC rational_function_chebychev\n", "#FUNC nonlinear_function_lafortune\n", "#NB_LOBES 2\n", "#VERSION 0\n", "#VS 2\n", "#BEGIN_STREAM\n", "#FORMAT binary\n", "#SAMPLE_COUNT 4\n", "#PRECISION ieee754-double\n", "#NP 3\n", "#NQ 2\n", "#NUM_POINTS 3\n", "NUM_POINTS 3\n", "VARS theta_i,phi_i,theta_s,phi_s,R,G,B\n", "#INPUT_DIM 2\n", "#OUTPUT_DIM 1\n", "#TYPE RETRO\n", "#ALTA FUNC HEADER END\n", "bexp ", "a ", "F ", "R ", "F0 ", "ks ", "0.5 ", "1 ", "-3e5 ", "nan ", "inf ", "1e999 ", "abc ", "\n", "\n", " ", "\t", ",", "#", "##", "# ", "[", "]", "[[", "--", "0x10 ", "99999999999 ", "-1 ", "\r\n", "\\", "\"", "'", "=", "\x01", "\xff"};
  std::string s; for (int i = 0; i < n; ++i) s += t[r.below(sizeof t / sizeof *t)]; if (r.chance(0.05)) s.push_back(0); return s;
}
static bool big_numbers(const std::string& b) { int run = 0; for (char c : b) { if (c >= '0' && c <= '9') { if (++run >= 6) return true; } else run = c == '.' && run ? -1000 : 0; } return false; }
enum { OP_NATIVE, OP_SLICE_, OP_ASTM_, OP_UTIA_, OP_UTIAX_, OP_MERL_, OP_FUNC, OP_BOOT, OP_N };
static const char* const op_name[] = {"a native dataset", "a BRDF slice", "an ASTM file", "a UTIA file", "a UTIA image", "a MERL file", "a function file", "a starting point"};
void scenario() {
  int op = (int)K("op", 0, OP_N - 1); if (op == OP_MERL_ && !KB("merl", 100)) op = OP_NATIVE;
  FmtSpec s; s.seed = K("seed", 1, 1000000); s.style = (int)K("style", 0, 3); ModelSpec m; bool have_model = op == OP_FUNC || op == OP_BOOT;
  if (have_model) m = gen_model("m", true, false);
  if (op == OP_BOOT && m.rational) op = OP_FUNC;
  // a valid file of some kind to start from
  std::string base, alt; int src = (int)K("source", 0, 9);      // 0-6 own format, 7 other format, 8 tokens, 9 noise
  auto valid = [&](int what, const char* name) -> std::string {
    std::string r;
    if (what == OP_NATIVE) { DataSpec d = gen_data("d", 40, true); bool bin = KB("bin", 50); sim::life(benign("w"), [&] { auto v = make_vs(d); if (bin) save_binary(*v, name); else v->save(name); return 0; }); sim::vfs_get(name, r); }
    else if (what == OP_FUNC || what == OP_BOOT) { ModelSpec q = have_model ? m : gen_model("q"); if (!q.saveable || q.cmd.find("sgd") != std::string::npos) return tokens(*std::unique_ptr<Rng>(new Rng(7)), 20); sim::life(benign("w"), [&] { auto f = make_model(q); if (!f) return 2; f->save(name, mkargs(q.cmd)); return 0; }); sim::vfs_get(name, r); }
    else { FmtSpec t = s; t.f = what == OP_SLICE_ ? FM_SLICE : what == OP_ASTM_ ? FM_ASTM : what == OP_UTIA_ ? FM_UTIA : what == OP_UTIAX_ ? FM_SLICE : FM_ASTM; t.W = (int)K("w", 1, 12); t.H = (int)K("h", 1, 12); t.n = (int)K("n", 1, 12); t.nx = 4; t.ny = 3; if (t.f == FM_UTIA) return make_utia(s.seed, 0).substr(0, (size_t)K("ulen", 0, 20000)); if (what == OP_MERL_) { int dd[3] = {90, 90, 180}; std::string z((char*)dd, 12); z.resize((size_t)K("mlen", 0, 20000), 1); return z; } r = fmt_bytes(t); }
    return r; };
  Rng tr(K("tok", 1, 1000000000));
  if (src <= 6) base = valid(op, "b"); else if (src == 7) base = valid((int)K("other", 0, OP_N - 1), "b"); else if (src == 8) base = tokens(tr, (int)K("ntok", 0, 60)); else { base.resize((size_t)K("noise", 0, 3000)); for (auto& c : base) c = (char)tr.next(); }
  alt = tokens(tr, 80);
  int n = (int)K("cases", 1, 5);
  for (int i = 0; i < n; ++i) {
    std::string b = base, what = "as is"; LifeOpt o = benign("f"); int nd = (int)K("damages", 0, 3), kind; size_t f, t;
    for (int k = 0; k < nd; ++k) what += ", " + damage("x", b, alt, DMG_NKIND - 1, kind, f, t);
    if (KB("insert", 35)) { size_t at = (size_t)K("at", 0, (long)b.size()); b.insert(at, tokens(tr, (int)K("itok", 1, 6))); what += ", text inserted at " + std::to_string(at); }
    if (KB("punct", 30)) { std::vector<size_t> c; size_t lim = KB("inheader", 60) ? std::min<size_t>(b.size(), 400) : b.size(); for (size_t j = 0; j < lim; ++j) if (strchr(", \t\n#[]-.", b[j]) && b[j]) c.push_back(j);
      if (!c.empty()) { size_t at = c[K("sep", 0, (long)c.size() - 1)]; if (KB("gone", 35)) b.erase(at, 1); else b.insert(at, (size_t)K("more", 1, 2), b[at]); what += ", separator changed at " + std::to_string(at); } }
    std::string file = op == OP_SLICE_ || op == OP_UTIAX_ ? "f.exr" : "f.dat";
    sim::vfs_put(file, b); bool rf = KB("readfault", 30);
    if (rf) { if (KB("bad", 50) && b.size()) { long at = K("badat", 0, (long)b.size() - 1); sim::vfs_set_unreadable(file, at); what += ", unreadable from byte " + std::to_string(at); } else { LifeRes probe; memset(probe.nops, 0, sizeof probe.nops); probe.nops[sim::OP_OPEN] = 1; probe.nops[sim::OP_READ] = 1 + b.size() / 2048 + (op == OP_FUNC || op == OP_BOOT ? 4 + b.size() / 4096 : 0); o.max_transfer = 0; what += ", " + draw_read_fault("y", o, probe); } }
    bool big = big_numbers(b);
    o.step_budget = (op == OP_MERL_ ? 200000000 : op == OP_UTIA_ || op == OP_UTIAX_ ? 80000000 : 20000000) + 20000L * (long)b.size();
    LifeRes x = sim::life(o, [&] {
      static const char* pl[] = {"", "data_brdf_slice", "data_astm", "data_utia", "data_utia", "data_merl"};
      if (op <= OP_MERL_) { auto d = alta::plugins_manager::load_data(file, pl[op], mkargs("")); return d ? 0 : 3; }
      if (op == OP_FUNC) { std::unique_ptr<alta::function> g(alta::plugins_manager::load_function(file)); return g ? 0 : 3; }
      auto g = make_model(m); if (!g) return 2; g->bootstrap(tiny_data(g->parametrization(), 3), mkargs("--bootstrap " + file)); return 0; });
    sim::nontrivial(); sim::count(x.ok() ? "accepted" : "rejected"); sim::count(op_name[op]);
    if (x.kind == sim::L_HANG) { if (big && x.steps < 2000000000) { sim::count("announced_counts_skipped"); continue; } violation("hang", "reading %s (%zu bytes, %s): %s", op_name[op], b.size(), what.c_str(), x.str().c_str()); }
    if (x.kind == sim::L_DEADLOCK) violation("deadlock", "reading %s: %s", op_name[op], x.str().c_str());
  }
}
