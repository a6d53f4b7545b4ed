// Y01: a script using the Python module never gets a wrong result without an exception.
#include "w/fits.h"
#include "w/formats.h"
#include "w/tools.h"
#include "stub/pyval.h"
extern const char* const scenario_id = "Y01";
using simpy::Val; using simpy::Args;
struct Stop { };   // the script found None or False and gives up
struct Script { int kind = 0; ModelSpec m, g; int op = 0; std::string desc; FmtSpec fmt, ref; DataSpec d; FitSpec fit; bool dict = false; alta::params::input pin = alta::params::CARTESIAN; int dim = 6; long seed = 1; std::vector<std::string> out, in; };
static void put_bits(std::string& s, double v) { if (v == 0) v = 0; if (std::isnan(v)) v = NAN; s.append((const char*)&v, 8); }
static void dig_vec(std::string& s, const vec& v) { sim::check_range(v.data(), v.size() * 8, false); put_bits(s, (double)v.size()); for (int i = 0; i < v.size(); ++i) put_bits(s, v[i]); }
struct Run {
  simpy::Table* t = nullptr; std::string key; int n = 0;
  explicit Run(const std::string& k) : key(k) { auto m = sim::tool_main("python"); m(0, (char**)&t); }
  void log(const std::string& what, const std::string& dig) { sim::out_put(key + "." + std::to_string(n++), what + ":" + dig); }
  Val call(const std::string& f, Args a) { return simpy::call(*t, f, a); }
  std::string dig(const Val& v) {
    std::string s; switch (v.kind) { case Val::NONE: return "None"; case Val::NUM: put_bits(s, v.num); return s; case Val::STR: return v.s; case Val::DICT: for (auto& e : v.d) s += e.first.s + "=" + dig(e.second) + ";"; return s; default: break; }
    if (auto x = v.get<vec>()) { dig_vec(s, *x); return s; }
    if (auto d = v.get<alta::data>()) { auto& q = d->parametrization(); for (int k : {d->size(), q.dimX(), q.dimY(), (int)q.input_parametrization(), (int)q.output_parametrization()}) put_bits(s, k); int st = d->size() > 400 ? d->size() / 200 : 1; for (int i = 0; i < d->size(); i += st) dig_vec(s, d->get(i)); return s; }
    return "object";
  }
  // One statement of the script. None where an object was asked for ends it.
  Val st(const std::string& f, Args a, bool none_ok = false) { Val v = call(f, a); log(f, dig(v)); if (v.kind == Val::NONE && !none_ok) throw Stop(); return v; }
  void saved(const std::string& file) { log("saved", file); }
};
static Val args_of(Run& r, const std::string& cmd) { Val d; d.kind = Val::DICT; auto w = words(cmd); for (size_t i = 0; i < w.size(); ++i) { if (w[i].compare(0, 2, "--")) continue; bool has = i + 1 < w.size() && w[i + 1].compare(0, 2, "--"); d.d.push_back(std::make_pair(Val(w[i].substr(2)), Val(has ? w[i + 1] : std::string("")))); } return r.call("arguments", {d}); }
static Val mkvec(Run& r, const std::vector<double>& x) { return r.call("vec", {Val::copy(x)}); }
static std::vector<double> dirs(alta::params::input in, int dim, Rng& r) { double tl = r.uni(0.1, 1.2), tv = r.uni(0.1, 1.2), pl = r.uni(-3, 3), pv = pl + r.uni(0.3, 2.7); double c[6] = {std::sin(tl) * std::cos(pl), std::sin(tl) * std::sin(pl), std::cos(tl), std::sin(tv) * std::cos(pv), std::sin(tv) * std::sin(pv), std::cos(tv)}; std::vector<double> x(6, 0.3); if (in == alta::params::CARTESIAN) memcpy(x.data(), c, sizeof c); else if (in != alta::params::UNKNOWN_INPUT) alta::params::convert(c, alta::params::CARTESIAN, in, x.data()); x.resize(dim); return x; }
static Val model_of(Run& r, const ModelSpec& m) { Val f = r.st("get_function", {args_of(r, m.cmd), Val::copy(spec_params(m))}); return f; }
static void randomize_py(Run& r, Val& f, const ModelSpec& m) {
  Val p = r.st("function.get", {f}); auto v = p.get<vec>(); if (!v || !v->size()) return; Rng q(m.seed); std::vector<double> x(v->size()); for (auto& e : x) e = q.uni(0.1, 0.9); r.st("function.set", {f, mkvec(r, x)}, true); r.st("function.get", {f}); }
static Val built(Run& r, const Script& s) {
  Val f = model_of(r, s.m); if (!s.m.rational && s.m.cmd.find("diffuse") == std::string::npos) randomize_py(r, f, s.m);
  if (s.op) { Val g = model_of(r, s.g); randomize_py(r, g, s.g); f = r.st(s.op == 1 ? "function.__add__" : "function.__mul__", {f, g}); }
  return f;
}
static void script(Run& r, const Script& s) {
  Rng q(s.seed);
  switch (s.kind) {
    case 0: {   // build a model, save it, read it back into another one
      Val f = built(r, s); auto P = f.get<alta::function>()->parametrization(); auto x = dirs(P.input_parametrization(), P.dimX(), q); if (!s.m.rational) r.st("function.value", {f, mkvec(r, x)});
      r.st("function.save", {f, "f.func"}, true); r.saved("f.func");
      Val g = built(r, s); r.st("function.load", {g, "f.func"}, true); if (!s.m.rational) { r.st("function.get", {g}); r.st("function.value", {g, mkvec(r, x)}); }
      r.st("function.save", {g, "g.func"}, true); r.saved("g.func"); break; }
    case 1: {   // load a function file
      Val f = s.dict ? r.st("load_function", {"in.func", r.call("arguments", {})}) : r.st("load_function", {"in.func"}); auto P = f.get<alta::function>()->parametrization(); auto x = dirs(P.input_parametrization(), P.dimX(), q); if (!s.m.rational) { r.st("function.get", {f}); r.st("function.value", {f, mkvec(r, x)}); } r.st("function.save", {f, "f.func"}, true); r.saved("f.func"); break; }
    case 2: {   // load, look at, convert and save a dataset
      Val d = r.st("load_data", {fmt_plugin[s.fmt.f], "in"}); Val n = r.st("data.size", {d}); for (int i = 0; i < 3; ++i) r.st("data.get", {d, (double)q.below((uint64_t)n.num)}); auto e = r.st("data.parametrization", {d});
      Val c = r.st("data2data", {d, Val::copy(alta::parameters(s.dim, e.get<alta::parameters>()->dimY(), s.pin, alta::params::RGB_COLOR))}); r.st("data.save", {c, "out"}, true); r.saved("out"); break; }
    case 3: {   // compare two datasets
      Val d = r.st("load_data", {fmt_plugin[s.fmt.f], "in"}), e = r.st("load_data", {fmt_plugin[s.ref.f], "ref"}); r.st("data2stats", {d, e}, true); break; }
    case 4: {   // evaluate a model at the samples of a dataset
      Val f = built(r, s); Val d = r.st("load_data", {"", "in"}); r.st("brdf2data", {f, d}, true); r.log("data", r.dig(d)); r.st("data.save", {d, "out"}, true); r.saved("out"); break; }
    case 5: {   // fit
      Val d = r.st("load_data", {"", "in"}); Val ft = r.st("get_fitter", {s.fit.fitter}); auto& m = s.fit.m; Val a = args_of(r, s.fit.args); Val f = r.st("get_function", {a, Val::copy(d.get<alta::data>()->parametrization())}); (void)m;
      Val ok = s.dict ? r.st("fitter.fit_data", {ft, d, f, a}) : r.st("fitter.fit_data", {ft, d, f}); if (!ok.num) throw Stop(); r.st("function.save", {f, "f.func"}, true); r.saved("f.func"); break; }
    case 6: {   // vectors
      std::vector<double> a(5), b(5); for (auto& x : a) x = q.uni(-2, 2); for (auto& x : b) x = q.uni(-2, 2); Val u = mkvec(r, a), v = mkvec(r, b); r.st("vec.__add__", {u, v}); r.st("vec.__sub__", {u, v}); r.st("vec.__setitem__", {u, 2, 0.5}, true); r.st("vec.__getitem__", {u, (double)q.below(5)}); r.st("vec.__len__", {u}); r.st("vec.__str__", {v}); r.st("norm", {v}); r.st("vec.__getitem__", {u, (double)(5 + q.below(3))}); break; }
  }
}
static Script gen() {
  Script s; s.kind = (int)K("script", 0, 20); s.kind = s.kind < 6 ? 0 : s.kind < 10 ? 1 : s.kind < 13 ? 2 : s.kind < 15 ? 3 : s.kind < 18 ? 4 : s.kind < 20 ? 5 : 6; s.seed = K("seed", 1, 1000000); s.dict = KB("dict", 50); char b[300]; auto& c = conv_params[K("to", 0, 11)]; s.pin = c.p; s.dim = c.dim;
  if (s.kind == 0 || s.kind == 4) { for (int i = 0; ; ++i) { s.m = gen_model("m", false, true); if (!(s.kind == 4 && s.m.rational)) break; if (i > 20) { s.m = ModelSpec(); s.m.cmd = "--func nonlinear_function_beckmann"; break; } }
    if (!s.m.rational && s.m.cmd.find('[') == std::string::npos && s.m.cmd.find("--fresnel") == std::string::npos) s.op = (int)K("op", 0, 2); if (s.op) { s.g = s.m; s.g.seed += 1; s.g.cmd = std::string("--func ") + (s.op == 2 ? factors[K("g", 0, 5)] : s.m.nx == 1 ? "nonlinear_function_retroblinn" : lobes_any[K("g", 0, 6)]); if (s.m.nx == 1 && s.op == 2) s.op = 1, s.g.cmd = s.m.cmd; if (s.g.cmd.find("diffuse") != std::string::npos) s.g.cmd = "--func nonlinear_function_ward"; } }
  switch (s.kind) {
    case 0: s.out = {"f.func", "g.func"}; break;
    case 1: s.m = gen_model("m", true, true); s.in = {"in.func"}; s.out = {"f.func"}; break;
    case 2: case 3: for (int i = 0; i < (s.kind == 3 ? 2 : 1); ++i) { ToolIn t = in_measured(i ? "ref" : "in", i ? "ref" : "in", 4, 0, s.kind == 2, true); if (t.m.f == FM_SLICE) t.m.args = ""; (i ? s.ref : s.fmt) = t.m; sim::vfs_put(t.file, fmt_bytes(t.m)); s.in.push_back(t.file); } if (s.kind == 2) s.out = {"out"}; break;
    case 4: s.in = {"in"}; s.out = {"out"}; break;
    case 5: s.fit = gen_fit("fit", FT_LSQ | FT_EIGEN | FT_QUADPROG | FT_NLEIGEN, 10); s.in = {"in"}; s.out = {"f.func"}; break;
  }
  static const char* nm[] = {"a model saved and read back", "a function file loaded", "a dataset converted", "two datasets compared", "a model evaluated", "a fit", "vectors"};
  snprintf(b, sizeof b, "%s (%s%s%s)", nm[s.kind], s.kind <= 1 || s.kind == 4 ? s.m.cmd.c_str() : s.kind <= 3 ? fmt_name[s.fmt.f] : s.kind == 5 ? s.fit.fitter.c_str() : "", s.op == 1 ? " + " : s.op == 2 ? " * " : "", s.op ? s.g.cmd.c_str() : ""); s.desc = b; return s;
}
static int go(const Script& s, const std::string& key) { Run r(key); try { sim::alloc_arm(true); script(r, s); sim::alloc_arm(false); r.log("end", ""); return 0; } catch (const Stop&) { sim::alloc_arm(false); r.log("stop", ""); return 5; } catch (const std::exception& e) { sim::alloc_arm(false); r.log("raise", ""); sim::out_put(key + ".what", e.what()); return 6; } }
void scenario() {
  Script s = gen();
  { bool bad = false; LifeRes p = sim::life(LifeOpt(), [&] { if (s.kind == 1) { auto f = make_model(s.m); if (!f) return 2; f->save("in.func", mkargs(s.m.cmd)); } if (s.kind == 4) { auto& c = conv_params[0]; DataSpec d; d.pin = c.p; d.nx = c.dim; d.ny = s.m.ny; d.pout = s.m.pout; d.n = 1 + (int)(s.seed % 20); fill_dirs(d, s.seed); make_vs(d)->save("in"); } if (s.kind == 5) { auto d = fit_data_of(s.fit); if (!d) return 2; save_binary(*d, "in"); } return 0; }); bad = !p.ok(); if (bad && !p.loud()) violation("crash", "making the inputs of %s: %s", s.desc.c_str(), p.str().c_str()); if (bad) sim::discard("no inputs"); }
  auto clean = sim::vfs_snapshot(); LifeOpt plain; plain.wall_is_discard = s.kind == 5;
  LifeRes r = sim::life(plain, [&] { return go(s, "r"); }); if (r.died_badly()) violation("crash", "%s: %s", s.desc.c_str(), r.str().c_str()); auto good = sim::vfs_snapshot();
  if (r.kind != sim::L_DONE) { sim::count("ends_the_process"); sim::discard("the undisturbed script ends the process"); }
  std::vector<std::string> ref; for (int i = 0; ; ++i) { std::string k = "r." + std::to_string(i); if (!sim::out_has(k)) break; ref.push_back(sim::out_get(k)); }
  if (r.code) { sim::count("undisturbed_script_refused"); sim::note("%s: %s", s.desc.c_str(), sim::out_has("r.what") ? sim::out_get("r.what").c_str() : "gives up"); }
  int n = (int)K("cases", 1, 3);
  for (int i = 0; i < n; ++i) {
    sim::vfs_restore(clean); LifeOpt o = benign("f"); o.wall_is_discard = s.kind == 5; if ((s.kind == 2 || s.kind == 3) && o.max_transfer && o.max_transfer < 4096) o.max_transfer = 4096; std::string f = "nothing"; int m = (int)K("mode", 0, 9); bool must_fail = false;
    if (KB("older", 50)) for (auto& x : s.out) sim::vfs_put(x, "an older and much longer output " + std::string(3000, 'x'));
    if (m <= 2) { o.max_transfer = 0; f = draw_write_fault("w", o, r, 2000); } else if (m <= 4) { o.max_transfer = 0; f = draw_read_fault("r", o, r); }
    else if (m == 5 && !s.in.empty()) { auto& x = s.in[K("missing", 0, (long)s.in.size() - 1)]; sim::vfs_del(x); f = "\"" + x + "\" missing"; must_fail = true; }
    else if (m == 6 && s.kind == 1) { std::string b, alt; int k; size_t a, e; sim::vfs_get("in.func", b); f = damage("d", b, alt, DMG_ZERO, k, a, e); sim::vfs_put("in.func", b); }
    else if (m == 7) { o.alloc_fail_at = K("alloc", 0, r.allocs > 0 ? r.allocs - 1 : 0); o.alloc_fail_sticky = KB("sticky", 30); f = "allocation " + std::to_string(o.alloc_fail_at) + " fails"; }
    else if (m == 8 && r.nops[sim::OP_DL] > 0) { o.faults.push_back(sim::Fault{sim::OP_DL, K("dl", 0, r.nops[sim::OP_DL] - 1), sim::F_EIO, 0, KB("dlsticky", 40)}); f = "the loader fails"; }
    std::string key = "x" + std::to_string(i); LifeRes x = sim::life(o, [&] { return go(s, key); });
    if (x.died_badly()) violation("crash", "%s, %s: %s", s.desc.c_str(), f.c_str(), x.str().c_str());
    if (!x.ok() || x.fired) sim::nontrivial(); else if (f == "nothing") sim::nontrivial();
    sim::count(x.ok() ? "completed" : x.kind == sim::L_DONE ? "raised" : "aborted");
    std::vector<std::string> got; for (int k = 0; ; ++k) { std::string q = key + "." + std::to_string(k); if (!sim::out_has(q)) break; got.push_back(sim::out_get(q)); }
    bool reported = false; auto name = [](const std::string& l) { return l.substr(0, l.find(':')); };
    for (size_t k = 0; k < got.size(); ++k) {
      if (k < ref.size() && got[k] == ref[k]) continue; std::string w = name(got[k]);
      if (w == "raise" || w == "stop") { reported = true; break; }
      if (k + 1 < got.size() && name(got[k + 1]) == "stop") { reported = true; break; }     // None or False was returned
      violation("wrong-result", "%s, %s: statement %zu (%s) gives another result than without, and no exception", s.desc.c_str(), f.c_str(), k, w.c_str());
    }
    if (x.kind == sim::L_DONE && !reported && got.size() != ref.size()) violation("wrong-result", "%s, %s: the script ends early without an exception", s.desc.c_str(), f.c_str());
    if (must_fail && x.ok()) violation("wrong-result", "%s, %s: no exception", s.desc.c_str(), f.c_str());
    if (reported && f == "nothing") violation("refused", "%s: raises only with another memory image or other transfer sizes: %s", s.desc.c_str(), sim::out_has(key + ".what") ? sim::out_get(key + ".what").c_str() : "gives up");
    for (auto& g : got) if (name(g) == "saved") { std::string file = g.substr(6), b; bool have = sim::vfs_get(file, b); if (!have || b != good[file]) violation("false-success", "%s, %s: saving \"%s\" raised no exception, but the file has %zd of %zu bytes", s.desc.c_str(), f.c_str(), file.c_str(), have ? (ssize_t)b.size() : (ssize_t)-1, good[file].size()); }
  }
}
