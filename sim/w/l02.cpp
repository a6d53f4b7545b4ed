// L02: every tool ends, whatever its command line and its input files say.
#include "w/tools.h"
extern const char* const scenario_id = "L02";
static const char* const flags[] = {"--export", "--input", "--output", "--bootstrap", "--param", "--data", "--help", "--np", "--nq", "--data-file", "--min-np", "--min-nq", "--func", "--ref", "--out-data", "--fresnel", "--samples", "--np-step", "--grid-size", "--boundary-constraint", "--ymin", "--ymax", "--use_delta", "--nlop-max-num-iterations", "--min", "--max", "--lobes", "--in-data", "--fitter", "--export-append", "--dt", "--dim", "--data-correct-cosine", "--brdf", "--verbose", "--splat", "--scheduling-mode", "--scheduling-grow-factor", "--scheduling-chunk-size", "--ref-data", "--polar-plot", "--nlopt-optimizer", "--nb-starting-points", "--nb-cores", "--max-iter", "--linear_error", "--inc-angle", "--fixed-lobe", "--fixed-fresnel", "--fixed", "--fit-with-cosine", "--export-diff", "--error", "--dt-relative", "--dt-positive", "--dt-max", "--delta", "--cos-plot", "--change-param", "--all-values", "--add-ls-energy", "--partial", "--isotropic", "--retro", "--sg-type", "--PARAM_OUT", "--PARAM_IN", "--DIM", "--VS", "--load-func", "--no-such-option"};
static const char* const odd[] = {"", "-1", "0", "1", "2", "3", "7", "0.5", "-0.25", "nan", "inf", "1e30", "-1e30", "-", "--", "[", "]", "[]", "[,]", "[ ]", "[1", "1]", "[1, 2]", "[1, 2, 3]", "[0, 0]", "[-1, -2, -3, -4]", "[3, 3, 3, 3, 3, 3, 3]", "[a, b]", "[[1, 2], 3]", "[nan]", "abc", "in", "in.func", "out", "no/such/file", "#", " ", "'", "%s%n", "x=y",
  "CARTESIAN", "RUSIN_TH_TD", "STARK_2D", "COS_TH", "UNKNOWN_INPUT", "INV_STERADIAN", "RGB_COLOR", "data_grid", "data_merl", "data_brdf_slice", "alta-binary", "vertical_segment", "nonlinear_function_beckmann", "nonlinear_function_diffuse", "nonlinear_fresnel_schlick", "rational_function_legendre", "[nonlinear_function_diffuse, nonlinear_function_blinn]", "[nonlinear_function_beckmann --fixed]", "rational_fitter_leastsquare", "nonlinear_fitter_eigen", "rational_fitter_quadprog", "rational_fitter_eigen", "matlab", "shader", "C++", "explorer"};
static std::string any_value() { return odd[K("odd", 0, (long)(sizeof odd / sizeof *odd) - 1)]; }
static bool option(const std::string& s) { return s.size() > 2 && s[0] == '-' && s[1] == '-'; }
// A vector "[a, b]" with something wrong in it.
static std::string odd_vector(std::string v) {
  std::vector<size_t> c; for (size_t i = 0; i < v.size(); ++i) if (v[i] == ',') c.push_back(i);
  switch (K("vec", 0, 6)) {
    case 0: if (!c.empty()) { v.insert(c[K("comma", 0, (long)c.size() - 1)], ","); break; } v.insert(1, ","); break;
    case 1: v.insert(v.size() - 1, ","); break;
    case 2: v.insert(1, ","); break;
    case 3: v.insert(v.size() - 1, ", " + any_value()); break;
    case 4: if (!c.empty()) { size_t k = c[K("comma", 0, (long)c.size() - 1)]; v.erase(k, v.find_first_of(",]", k + 1) - k); } break;
    case 5: v.insert(1, std::string((size_t)K("long", 200, 600), " 0"[K("fill", 0, 1)])); break;
    default: if (!c.empty()) v[c[K("comma", 0, (long)c.size() - 1)]] = ' '; break;
  }
  return v;
}
static std::string change(std::vector<std::string>& a) {
  long m = K("change", 0, 8); size_t n = a.size(); auto at = [&] { return (size_t)K("at", 0, n ? (long)n - 1 : 0); }; std::vector<size_t> vals; for (size_t i = 0; i < n; ++i) if (!option(a[i])) vals.push_back(i);
  switch (m) {
    case 0: case 1: case 2: if (!vals.empty()) { auto& v = a[vals[K("val", 0, (long)vals.size() - 1)]]; if (v.size() > 1 && v[0] == '[' && v[v.size() - 1] == ']' && KB("asvec", 60)) v = odd_vector(v); else v = any_value(); return "odd value"; } break;
    case 3: if (n) { a.erase(a.begin() + (long)at()); return "word left out"; } break;
    case 4: if (n) { size_t i = at(); a.insert(a.begin() + (long)at(), a[i]); return "word repeated"; } break;
    case 5: { a.push_back(flags[K("flag", 0, (long)(sizeof flags / sizeof *flags) - 1)]); if (KB("valued", 60)) a.push_back(any_value()); return "option added"; }
    case 6: { std::string f = flags[K("flag", 0, (long)(sizeof flags / sizeof *flags) - 1)]; a.insert(a.begin(), {f, any_value()}); return "option added"; }
    case 7: if (n > 1) { std::swap(a[at()], a[at()]); return "words swapped"; } break;
    default: if (!vals.empty()) { auto& v = a[vals[K("val", 0, (long)vals.size() - 1)]]; if (!v.empty()) { size_t i = (size_t)K("pos", 0, (long)v.size() - 1); if (KB("cut", 50)) v.erase(i, 1); else v[i] = "[]0-,. #9"[K("char", 0, 8)]; return "letter changed"; } }
  }
  return "unchanged";
}
// Sizes and counts the command line itself asks for are not held against the tool.
static bool big_number(const std::vector<std::string>& a) { for (auto& s : a) { std::string d; for (char c : s + " ") { if (isdigit((unsigned char)c) || c == 'e' || c == '.') d += c; else { if (d.size() > 2 && atof(d.c_str()) > 200) return true; d.clear(); } } } return false; }
// The first occurrence of an option names a small number of cells.
static bool small_shape(const std::vector<std::string>& a, const char* opt) {
  for (size_t i = 0; i < a.size(); ++i) if (a[i] == opt) {
    if (i + 1 >= a.size() || a[i + 1].size() < 2 || a[i + 1][0] != '[' || a[i + 1][a[i + 1].size() - 1] != ']') return false;
    double p = 1; int n = 0; std::string d; for (char c : a[i + 1]) { if (isdigit((unsigned char)c)) d += c; else if (!d.empty()) { p *= atof(d.c_str()) + 1; ++n; d.clear(); } else if (c != ',' && c != ' ' && c != '[' && c != ']') return false; }
    return n && p < 10000;
  }
  return false;
}
static bool asks_much(const ToolSpec& s) {
  auto has = [&](const char* w) { for (auto& x : s.argv) if (x == w) return true; return false; };
  if (big_number(s.argv) || s.third_party || has("data_merl")) return true;
  if (has("data_grid") && !small_shape(s.argv, "--grid-size")) return true;
  return s.tool == "data2moments" && s.in[0].m.f != FM_SLICE && !small_shape(s.argv, "--samples");
}
void scenario() {
  ToolSpec s = gen_tool("t", TL_ALL, 1); if (!prepare(s)) sim::discard("the inputs cannot be made"); auto clean = sim::vfs_snapshot(); auto argv0 = s.argv;
  int tries = (int)K("tries", 1, 3);
  for (int t = 0; t < tries; ++t) {
    sim::vfs_restore(clean); s.argv = argv0; std::string what; LifeOpt o = tool_opt(s, benign("b")); o.wall_limit_s = 30; o.wall_is_discard = true;
    int nc = (int)K("changes", 0, 3); for (int i = 0; i < nc; ++i) { change(s.argv); }
    int nd = (int)K("damages", 0, 4) == 4 ? (int)K("ndamage", 1, 2) : 0;
    for (int i = 0; i < nd; ++i) { auto& in = s.in[K("which", 0, (long)s.in.size() - 1)]; std::string b; if (!sim::vfs_get(in.file, b)) continue; int k; size_t f, to; std::string w = damage("d", b, "", DMG_NKIND - 1, k, f, to); sim::vfs_put(in.file, b); what += ", \"" + in.file + "\": " + w; }
    if (KB("fault", 20)) { LifeRes probe; memset(probe.nops, 0, sizeof probe.nops); probe.nops[sim::OP_OPEN] = 2; probe.nops[sim::OP_READ] = 4; probe.nops[sim::OP_WRITE] = 3; probe.nops[sim::OP_CLOSE] = 2; what += ", " + (KB("wf", 50) ? draw_write_fault("w", o, probe, 2000) : draw_read_fault("r", o, probe)); }
    std::string line = s.tool; for (auto& a : s.argv) line += a.empty() || a.find(' ') != std::string::npos ? " '" + a + "'" : " " + a;
    o.step_budget = 200000000; LifeRes r = sim::life(o, [&] { return run_tool("x", s); });
    sim::nontrivial(); sim::count((s.tool + (r.ok() ? ".ok" : ".refuses")).c_str());
    if (r.kind == sim::L_HANG && asks_much(s)) { sim::count("asked_for_much"); continue; }
    if (r.died_badly()) violation(r.kind == sim::L_HANG ? "hang" : r.kind == sim::L_DEADLOCK ? "deadlock" : "crash", "%s%s: %s", line.c_str(), what.c_str(), r.str().c_str());
  }
}
