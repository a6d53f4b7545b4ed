// R03: damaged function files are never taken for a good model.
#include "w/models.h"
#include <sstream>
extern const char* const scenario_id = "R03";
static int load_into(const std::string& key, const ModelSpec& s, bool strict, bool resave = false) {
  std::unique_ptr<alta::function> f(alta::plugins_manager::load_function("f.func")); if (!f) return 3;
  sim::out_num(key + ".got", 1);
  // A model that is not the saved one may have another shape: look at it only as far as it defines itself.
  bool sameshape = f->parametrization().dimX() == s.nx && f->parametrization().dimY() == s.ny;
  if (strict || sameshape) { int pts = 4; put_model(key, f.get(), s, pts); }
  if (resave && sameshape) { f->save("again.func", mkargs(s.cmd)); sim::out_num(key + ".re", 1); }
  return 0;
}
// The reference reading of a function file: one block per function, its name and the words that follow.
struct Block { std::string name; std::vector<std::string> words; };
static std::vector<Block> blocks(const std::string& b) {
  std::vector<Block> r; size_t h = b.find("#ALTA HEADER END"); std::istringstream is(h == std::string::npos ? b : b.substr(h + 16)); std::string w;
  while (is >> w) { if (w == "#FUNC") { r.emplace_back(); is >> r.back().name; } else if (!r.empty()) r.back().words.push_back(w); } return r;
}
static std::string printable(std::string s) { for (auto& c : s) if (c < ' ' || c > '~') c = c == '\n' || c == '\t' ? '|' : '?'; return s.substr(0, 160); }
static bool number(const std::string& w, double& v) { char* e; v = strtod(w.c_str(), &e); return e != w.c_str() && !*e; }
// The header names parametrizations that exist.
static std::string unknown_name(const std::string& b) {
  size_t h = b.find("#ALTA HEADER END"); std::istringstream is(b.substr(0, h)); std::string l, in, out;
  while (std::getline(is, l)) { if (l.find("#PARAM_IN ") == 0) in = l.substr(10); if (l.find("#PARAM_OUT ") == 0) out = l.substr(11); }
  auto trim = [](std::string& s) { while (!s.empty() && isspace((unsigned char)s[0])) s.erase(0, 1); s = s.substr(0, s.find('\r')); }; trim(in); trim(out);
  bool ki = in.empty() || in == "UNKNOWN_INPUT", ko = out.empty() || out == "UNKNOWN_OUTPUT"; for (auto p : all_inputs) ki |= in == alta::params::get_name(p); for (auto p : all_outputs) ko |= out == alta::params::get_name(p);
  return !ki ? in : !ko ? out : "";
}
// What a program that took `damaged` for a model holds (its own save: `again`) must be what that file says.
// (a number that runs into the next name is still that number; one at the end of a function is incomplete;
// rational functions are reduced to a denominator that starts with 1,
// and their degrees follow from their number).
static std::string misread(const std::string& damaged, const std::string& again) {
  auto d = blocks(damaged), a = blocks(again); char m[300];
  if (d.size() != a.size()) { snprintf(m, sizeof m, "the file has %zu functions, the model %zu", d.size(), a.size()); return m; }
  for (size_t i = 0; i < d.size(); ++i) {
    if (d[i].name != a[i].name) return "function " + std::to_string(i) + " is \"" + a[i].name + "\" in the model and \"" + d[i].name + "\" in the file";
    std::vector<double> dv; for (auto& w : d[i].words) { double v; char* e; if (number(w, v)) dv.push_back(v); else if (&w != &d[i].words.back()) { v = strtod(w.c_str(), &e); if (e != w.c_str()) dv.push_back(v); } }
    if (a[i].name == "rational_function") for (auto& w : d[i].words) { const char* c = w.c_str(); char* e; for (double v; v = strtod(c, &e), e != c; c = e) dv.push_back(v); }   // no names in between
    for (auto& w : a[i].words) { double v; if (!number(w, v) || (a[i].name == "rational_function" && w.find('.') == std::string::npos)) continue; bool f = false; for (double u : dv) f |= u == v || close_rel(u, v, 1e-8); if (!f && a[i].name == "rational_function") for (double u : dv) for (double s : dv) f |= s && close_rel(u / s, v, 1e-8); if (!f) return "function " + std::to_string(i) + " (" + a[i].name + ") holds " + w + ", which is not in the file"; }
  }
  return "";
}
void scenario() {
  ModelSpec s = gen_model("m"), other = gen_model("o");
  auto write = [&](const ModelSpec& q, const char* name) { return sim::life(benign("w"), [&] { auto f = make_model(q); if (!f) return 2; f->save(name, mkargs(q.cmd)); return 0; }); };
  LifeRes w = write(s, "f.func"); if (!w.ok()) violation("save-failed", "saving \"%s\": %s", s.cmd.c_str(), w.str().c_str());
  std::string good, alt; sim::vfs_get("f.func", good); bool same = KB("oldsame", 60);
  { ModelSpec o2 = other; if (same) { o2 = s; o2.seed = other.seed; } LifeRes v = write(o2, "g.func"); if (v.ok()) sim::vfs_get("g.func", alt); }
  LifeRes u = sim::life(benign("u"), [&] { return load_into("u", s, true); });
  if (!u.ok()) violation("reload-failed", "loading an undamaged file of \"%s\": %s", s.cmd.c_str(), u.str().c_str());
  ModelDump full; if (!get_model("u", full)) violation("harness", "no dump");
  size_t hdr = good.find("#ALTA HEADER END"); hdr = hdr == std::string::npos ? good.size() : hdr + 17;
  int n = (int)K("cases", 1, 4);
  for (int i = 0; i < n; ++i) {
    std::string bytes = good, what; int kind = -1; size_t from = 0, to = 0; bool missing = false, exact = true; LifeOpt o = benign("f");
    int mode = (int)K("mode", 0, 9); sim::vfs_set_unreadable("f.func", -1);
    bool readfault = mode >= 7;
    if (mode == 9) { if (KB("missing", 20)) { missing = true; what = "file missing"; } else { long at = K("bad", 0, (long)good.size() - 1); sim::vfs_set_unreadable("f.func", at); what = "unreadable from byte " + std::to_string(at); } }
    else if (mode >= 7) { o.max_transfer = 0; o.noise_read = o.noise_eintr = 0; LifeRes probe = u; probe.nops[sim::OP_READ] = 1 + (long)good.size() / 4096; what = draw_read_fault("x", o, probe); }
    else { what = damage("x", bytes, alt, DMG_NKIND - 1, kind, from, to); exact = kind == DMG_TRUNC || kind == DMG_TRUNC_NEAR_END || kind == DMG_ZERO; }
    if (missing) sim::vfs_del("f.func"); else sim::vfs_put("f.func", bytes);
    std::string key = "x" + std::to_string(i);
    sim::vfs_del("again.func");
    LifeRes x = sim::life(o, [&] { return load_into(key, s, exact, !readfault && bytes != good); });
    if (x.died_badly()) violation("crash", "\"%s\", %s: %s", s.cmd.c_str(), what.c_str(), x.str().c_str());
    bool ok = x.ok(); ModelDump d; bool have = ok && get_model(key, d);
    if (!readfault || x.fired || missing || mode == 9) sim::nontrivial();
    sim::count(ok ? "accepted" : "rejected");
    if (ok && missing) violation("missing-accepted", "loading a file that is not there succeeded");
    if (ok && exact) { std::string df = have ? diff_model(full, d, 0, 0, true) : "no values"; if (!df.empty()) violation("wrong-model", "\"%s\", %s: accepted, but %s", s.cmd.c_str(), what.c_str(), df.c_str()); }
    if (!ok && !missing && mode != 9 && bytes == good && !x.fired) violation("reload-failed", "\"%s\": nothing is damaged, but %s", s.cmd.c_str(), x.str().c_str());
    if (ok && !readfault && bytes != good) { std::string un = unknown_name(bytes); if (!un.empty()) violation("misread", "\"%s\", %s: accepted, but its header names the parametrization \"%s\", which does not exist", s.cmd.c_str(), what.c_str(), printable(un).c_str()); }
    if (ok && sim::out_has(key + ".re")) { std::string again; sim::vfs_get("again.func", again); std::string df = misread(bytes, again); if (!df.empty()) violation("misread", "\"%s\", %s: accepted, but %s (the damaged part reads \"%s\")", s.cmd.c_str(), what.c_str(), df.c_str(), printable(bytes.substr(from > 20 ? from - 20 : 0, to - from + 40)).c_str()); sim::count("accepted_and_checked"); }
    LifeOpt o2 = o; o2.garbage = (o.garbage + 1 + (int)K("mem2", 0, 4)) % 7; std::string k2 = key + "b";
    LifeRes y = sim::life(o2, [&] { return load_into(k2, s, exact); });
    if (y.died_badly()) violation("crash", "\"%s\", %s: %s", s.cmd.c_str(), what.c_str(), y.str().c_str());
    if (ok != y.ok()) violation("memory-dependent", "\"%s\", %s: %s with one memory image, %s with another", s.cmd.c_str(), what.c_str(), ok ? "accepted" : "rejected", y.ok() ? "accepted" : "rejected");
    ModelDump e; bool have2 = y.ok() && get_model(k2, e);
    if (have != have2) violation("memory-dependent", "\"%s\", %s: other shape with another memory image", s.cmd.c_str(), what.c_str());
    if (have) { std::string df = diff_model(d, e, 0, 0, true); if (!df.empty()) violation("memory-dependent", "\"%s\", %s: with another memory image %s", s.cmd.c_str(), what.c_str(), df.c_str()); }
  }
}
