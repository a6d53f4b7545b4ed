// E02: what a script gets from the Python module is what the library computes.
// The script is one random history of statements over vectors, arguments, functions, datasets and fitters. It is played
// twice, in two lives: over the functions the module registers, and over `Lib`, which defines each of them from the library.
#include "w/fits.h"
#include "w/formats.h"
#include "w/tools.h"
#include "stub/pyval.h"
extern const char* const scenario_id = "E02";
using simpy::Val; using simpy::Args; using alta::params; using alta::plugins_manager;
struct Raised : std::runtime_error { Raised(const std::string& w) : std::runtime_error(w) {} };
struct Machine { virtual ~Machine() {} virtual Val call(const std::string& f, Args a) = 0; virtual std::vector<double> digest(const Val& v) = 0; virtual alta::parameters par(const Val& v) = 0; virtual bool lobe(const Val& f) = 0; };
static void push(std::vector<double>& o, const vec& v) { sim::check_range(v.data(), v.size() * 8, false); for (int i = 0; i < v.size(); ++i) o.push_back(v[i]); }
static std::vector<double> dig_data(const alta::data& d) { auto& q = d.parametrization(); std::vector<double> o = {(double)d.size(), (double)q.dimX(), (double)q.dimY(), (double)q.input_parametrization(), (double)q.output_parametrization()}; int st = d.size() > 60 ? d.size() / 60 : 1; for (int i = 0; i < d.size(); i += st) push(o, d.get(i)); return o; }
static std::vector<double> dig_dict(const std::vector<std::pair<Val, Val>>& d) { std::map<std::string, std::vector<double>> m; for (auto& e : d) { auto x = e.second.get<vec>(); std::vector<double> o; if (x) push(o, *x); else o.push_back(e.second.num); m[e.first.s] = o; } std::vector<double> o; for (auto& e : m) { o.push_back((double)std::hash<std::string>()(e.first)); o.insert(o.end(), e.second.begin(), e.second.end()); } return o; }
static std::vector<double> dig_str(const std::string& s) { std::vector<double> o; for (char c : s) o.push_back((unsigned char)c); return o; }

// ---- the module
struct Module : Machine {
  simpy::Table* t = nullptr; Module() { auto m = sim::tool_main("python"); m(0, (char**)&t); }
  Val call(const std::string& f, Args a) override { return simpy::call(*t, f, a); }
  std::vector<double> digest(const Val& v) override { switch (v.kind) { case Val::NONE: return {}; case Val::NUM: return {v.num}; case Val::STR: return dig_str(v.s); case Val::DICT: return dig_dict(v.d); default: break; } std::vector<double> o; if (auto x = v.get<vec>()) { push(o, *x); return o; } if (auto d = v.get<alta::data>()) return dig_data(*d); return {1}; }
  alta::parameters par(const Val& v) override { if (auto f = v.get<alta::function>()) return f->parametrization(); return v.get<alta::data>()->parametrization(); }
  bool lobe(const Val& f) override { return (bool)std::dynamic_pointer_cast<alta::nonlinear_function>(f.get<alta::function>()); }
};

// ---- the library
static std::vector<double> parts_value(const alta::function* f, const std::vector<double>& x) {   // sums and products by their definition
  auto c = dynamic_cast<const alta::compound_function*>(f); auto p = dynamic_cast<const alta::product_function*>(f); std::vector<double> o; if (!c && !p) { push(o, f->value(to_vec(x))); return o; }
  std::vector<alta::nonlinear_function*> q; if (c) for (unsigned i = 0; i < c->size(); ++i) q.push_back((*c)[i]); else q = {p->first(), p->second()};
  for (size_t i = 0; i < q.size(); ++i) { auto g = dynamic_cast<alta::function*>(q[i]); auto P = g->parametrization(); std::vector<double> z(6, 0.0); params::convert(x.data(), f->parametrization().input_parametrization(), P.input_parametrization(), z.data()); z.resize(P.dimX()); auto r = parts_value(g, z); if (!i) o = r; else for (size_t k = 0; k < o.size(); ++k) o[k] = c ? o[k] + r[k] : o[k] * r[k]; }
  return o;
}
struct Fn { int op = 0; ptr<alta::function> leaf; std::shared_ptr<Fn> a, b;
  alta::nonlinear_function* nl() const { return dynamic_cast<alta::nonlinear_function*>(leaf.get()); }
  bool lobe() const { return op || nl(); }
  alta::parameters par() const { if (!op) return leaf->parametrization(); auto p = a->par(), q = b->par(); if (p.input_parametrization() == q.input_parametrization()) return p; return alta::parameters(6, p.dimY(), params::CARTESIAN, p.output_parametrization()); }
  int n() const { return op ? a->n() + b->n() : nl() ? nl()->nbParameters() : 0; }
  std::vector<double> get() const { std::vector<double> o; if (!op) { if (nl()) push(o, nl()->parameters()); return o; } for (auto* p : {a.get(), b.get()}) { auto x = p->get(); x.resize(p->n()); o.insert(o.end(), x.begin(), x.end()); } return o; }
  void set(const std::vector<double>& v) { if ((int)v.size() != n() || !lobe()) return; if (!op) { nl()->setParameters(to_vec(v)); return; } a->set(std::vector<double>(v.begin(), v.begin() + a->n())); b->set(std::vector<double>(v.begin() + a->n(), v.end())); }
  std::vector<double> value(const std::vector<double>& x) const { std::vector<double> o; if (!op) return parts_value(leaf.get(), x); auto in = par().input_parametrization(); std::vector<double> r[2]; const Fn* q[2] = {a.get(), b.get()}; for (int i = 0; i < 2; ++i) { auto p = q[i]->par(); std::vector<double> z(6, 0.0); params::convert(x.data(), in, p.input_parametrization(), z.data()); z.resize(p.dimX()); r[i] = q[i]->value(z); } for (size_t k = 0; k < std::min(r[0].size(), r[1].size()); ++k) o.push_back(op == 1 ? r[0][k] + r[1][k] : r[0][k] * r[1][k]); return o; }
  ptr<alta::function> whole() const { if (!op) return leaf; auto x = std::dynamic_pointer_cast<alta::nonlinear_function>(a->whole()), y = std::dynamic_pointer_cast<alta::nonlinear_function>(b->whole()); if (op == 1) return ptr<alta::function>(new alta::compound_function({x, y}, {alta::arguments(), alta::arguments()})); return ptr<alta::function>(new alta::product_function(x, y)); }
};
struct Lib : Machine {
  static Val fn(const ptr<alta::function>& f) { if (!f) return Val(); std::shared_ptr<Fn> r(new Fn); r->leaf = f; return Val::obj(r); }
  static alta::arguments args(const Val& v) { return *v.get<alta::arguments>(); }
  static std::vector<double> nums(const Val& v) { return *v.get<std::vector<double>>(); }
  static Val vec_(const std::vector<double>& x) { return Val::copy(x); }
  static Val data_(const ptr<alta::data>& d) { return Val::obj(d); }
  Val call(const std::string& f, Args a) override {
    if (f == "vec") return a[0];
    if (f == "vec.__add__" || f == "vec.__sub__") { auto x = nums(a[0]), y = nums(a[1]); for (size_t i = 0; i < x.size(); ++i) x[i] += f == "vec.__add__" ? y[i] : -y[i]; return vec_(x); }
    if (f == "vec.__len__") return (double)nums(a[0]).size();
    if (f == "vec.__getitem__") { auto x = nums(a[0]); if (a[1].num >= x.size()) throw Raised("index"); return x[(size_t)a[1].num]; }
    if (f == "vec.__setitem__") { (*a[0].get<std::vector<double>>())[(size_t)a[1].num] = a[2].num; return Val(); }
    if (f == "vec.__str__") { std::ostringstream o; o << "["; auto x = nums(a[0]); for (size_t i = 0; i < x.size(); ++i) o << (i ? ", " : "") << x[i]; o << "]"; return o.str(); }
    if (f == "norm") { long double s = 0; for (double x : nums(a[0])) s += (long double)x * x; return (double)sqrtl(s); }
    if (f == "arguments") { alta::arguments r; if (!a.empty()) for (auto& e : a[0].d) r.update(e.first.s, e.second.s); return Val::copy(r); }
    if (f == "arguments.update") { a[0].get<alta::arguments>()->update(a[1].s, a[2].s); return Val(); }
    if (f == "arguments.__getitem__") return args(a[0])[a[1].s];
    if (f == "get_function") { alta::parameters p = a.size() > 1 ? *a[1].get<alta::parameters>() : alta::parameters(6, 3, params::CARTESIAN, params::RGB_COLOR); if (a.empty()) return fn(plugins_manager::get_function("nonlinear_function_diffuse", p)); if (a[0].kind == Val::STR) return fn(plugins_manager::get_function(a[0].s, p)); return fn(ptr<alta::function>(plugins_manager::get_function(args(a[0]), p))); }
    if (f == "load_function") return fn(ptr<alta::function>(plugins_manager::load_function(a[0].s)));
    if (f == "function.__add__" || f == "function.__mul__" || f == "function.__rmul__") { auto x = a[0].get<Fn>(), y = a[1].get<Fn>(); if (!x->lobe() || !y->lobe()) return Val(); std::shared_ptr<Fn> r(new Fn); r->op = f == "function.__add__" ? 1 : 2; r->a = x; r->b = y; return Val::obj(r); }
    if (f == "function.get") return vec_(a[0].get<Fn>()->get());
    if (f == "function.set") { a[0].get<Fn>()->set(nums(a[1])); return Val(); }
    if (f == "function.value") return vec_(a[0].get<Fn>()->value(nums(a[1])));
    if (f == "function.save") { a[0].get<Fn>()->whole()->save(a[1].s, a.size() > 2 ? args(a[2]) : alta::arguments()); return Val(); }
    if (f == "function.load") { std::ifstream in(a[1].s.c_str()); if (!in.is_open()) throw Raised("no file"); alta::arguments::parse_header(in); if (!a[0].get<Fn>()->whole()->load(in)) throw Raised("not loaded"); return Val(); }
    if (f == "load_data") return data_(plugins_manager::load_data(a[1].s, a[0].s));
    if (f == "get_data") { alta::parameters p = *a[2].get<alta::parameters>(); return data_(a.size() > 3 ? plugins_manager::get_data(a[0].s, (size_t)a[1].num, p, args(a[3])) : plugins_manager::get_data(a[0].s, (size_t)a[1].num, p)); }
    if (f == "data.size" || f == "data.__len__") return (double)a[0].get<alta::data>()->size();
    if (f == "data.get" || f == "data.__getitem__") { std::vector<double> o; push(o, a[0].get<alta::data>()->get((int)a[1].num)); return vec_(o); }
    if (f == "data.set" || f == "data.__setitem__") { a[0].get<alta::data>()->set((int)a[1].num, to_vec(nums(a[2]))); return Val(); }
    if (f == "data.value") { std::vector<double> o; push(o, a[0].get<alta::data>()->value(to_vec(nums(a[1])))); return vec_(o); }
    if (f == "data.save") { a[0].get<alta::data>()->save(a[1].s); return Val(); }
    if (f == "data2data") {
      auto d = a[0].get<alta::data>(); auto p = d->parametrization(), q = *a[1].get<alta::parameters>(); DataSpec s; s.pin = q.input_parametrization(); s.pout = q.output_parametrization(); s.nx = q.dimX(); s.ny = q.dimY(); s.n = d->size(); size_t w = s.nx + 3 * s.ny; std::shared_ptr<double> m(new double[s.n * w + 1](), std::default_delete<double[]>());
      for (int i = 0; i < s.n; ++i) { vec x = d->get(i); std::vector<double> z(6, 0.0); params::convert(x.data(), p.input_parametrization(), s.pin, z.data()); for (int k = 0; k < s.nx; ++k) m.get()[i * w + k] = z[k]; auto y = outs(x.data() + p.dimX(), p.dimY(), s.ny); for (int k = 0; k < s.ny; ++k) m.get()[i * w + s.nx + k] = y[k]; }
      return data_(ptr<alta::data>(new alta::vertical_segment(q, s.n, m))); }
    if (f == "brdf2data") {
      auto fn = a[0].get<Fn>(); auto d = a[1].get<alta::data>(); auto p = d->parametrization(), q = fn->par(); for (int i = 0; i < d->size(); ++i) { vec x = d->get(i); std::vector<double> z(6, 0.0); if (q.input_parametrization() == params::UNKNOWN_INPUT) for (int k = 0; k < q.dimX(); ++k) z[k] = x[k]; else params::convert(x.data(), p.input_parametrization(), q.input_parametrization(), z.data()); z.resize(q.dimX()); auto y = fn->value(z); for (int k = 0; k < p.dimY(); ++k) x[p.dimX() + k] = y[k]; d->set(i, x); }
      return Val(); }
    if (f == "data2stats") {
      auto d = a[0].get<alta::data>(), o = a[1].get<alta::data>(); auto q = d->parametrization(), p = o->parametrization(); int ny = p.dimY(); std::vector<long double> l1(ny), l2(ny), l3(ny), li(ny);
      for (int i = 0; i < o->size(); ++i) { vec x = o->get(i), c(6); c.setZero(); params::convert(x.data(), p.input_parametrization(), params::CARTESIAN, c.data()); if (!(c[2] >= 0 || c[5] >= 0)) continue; std::vector<double> w(6, 0.0); params::convert(c.data(), params::CARTESIAN, q.input_parametrization(), w.data()); w.resize(q.dimX()); vec y = d->value(to_vec(w)); for (int k = 0; k < ny; ++k) { long double e = fabsl((long double)x[p.dimX() + k] - y[k]); l1[k] += e; l2[k] += e * e; l3[k] += e * e * e; if (e > li[k] || std::isnan((double)e)) li[k] = e; } }
      Val r; r.kind = Val::DICT; auto put = [&](const char* n, std::function<long double(int)> g) { vec v(ny); for (int k = 0; k < ny; ++k) v[k] = (double)g(k); r.d.push_back(std::make_pair(Val(n), Val::copy(v))); }; long double n = o->size();
      put("L1", [&](int k) { return l1[k]; }); put("L2", [&](int k) { return sqrtl(l2[k]); }); put("L3", [&](int k) { return cbrtl(l3[k]); }); put("LInf", [&](int k) { return li[k]; }); put("MSE", [&](int k) { return l2[k] / n; }); put("RMSE", [&](int k) { return sqrtl(l2[k] / n); }); return r; }
    if (f == "get_fitter") { auto x = plugins_manager::get_fitter(a[0].s); return Val::obj(x); }
    if (f == "fitter.fit_data") { auto x = a[0].get<alta::fitter>(); alta::arguments g; if (a.size() > 3) { g = args(a[3]); x->set_parameters(g); } auto fn = a[2].get<Fn>(); return x->fit_data(a[1].get<alta::data>(), fn->leaf, g) ? 1.0 : 0.0; }
    throw std::logic_error("no " + f);
  }
  static std::vector<double> outs(const double* y, int ny, int no) { std::vector<double> r; if (ny == no) r.assign(y, y + ny); else if (ny == 1) r.assign((size_t)no, y[0]); else { double s = 0; for (int k = 0; k < ny; ++k) s += y[k]; r.assign((size_t)no, s / ny); } return r; }
  std::vector<double> digest(const Val& v) override { switch (v.kind) { case Val::NONE: return {}; case Val::NUM: return {v.num}; case Val::STR: return dig_str(v.s); case Val::DICT: return dig_dict(v.d); default: break; } if (auto x = v.get<std::vector<double>>()) return *x; if (auto d = v.get<alta::data>()) return dig_data(*d); return {1}; }
  alta::parameters par(const Val& v) override { if (auto f = v.get<Fn>()) return f->par(); return v.get<alta::data>()->parametrization(); }
  bool lobe(const Val& f) override { return f.get<Fn>()->lobe(); }
};

// ---- the script
struct Step { int op; long a, b, c, seed; };
struct Prog { ModelSpec base; std::vector<ModelSpec> leaf; bool measured = false, second = false, native = false, fits = false, with_args = true; FmtSpec m1, m2; DataSpec d; FitSpec fit; std::vector<Step> st; long seed = 1; std::string desc; };
static const alta::params::input pins[] = {params::CARTESIAN, params::RUSIN_TH_TD, params::RUSIN_TH_PH_TD_PD, params::SPHERICAL_TL_PL_TV_PV}; static const int pdims[] = {6, 2, 4, 4};
static std::vector<double> dirs(params::input in, int dim, Rng& r) { double tl = r.uni(0.1, 1.2), tv = r.uni(0.1, 1.2), pl = r.uni(-3, 3), pv = pl + r.uni(0.3, 2.7); double c[6] = {std::sin(tl) * std::cos(pl), std::sin(tl) * std::sin(pl), std::cos(tl), std::sin(tv) * std::cos(pv), std::sin(tv) * std::sin(pv), std::cos(tv)}; std::vector<double> x(6, 0.3); if (in == params::CARTESIAN) memcpy(x.data(), c, sizeof c); else if (in != params::UNKNOWN_INPUT) params::convert(c, params::CARTESIAN, in, x.data()); x.resize(dim); return x; }
struct Play {
  Machine& m; std::string key; int n = 0; std::vector<Val> fs, ds, vs; std::vector<std::string> shape; std::map<std::string, std::string> files; std::vector<int> val;   // val: dataset whose values can be looked up
  Play(Machine& q, const std::string& k) : m(q), key(k) {}
  void log(const std::string& what, const std::vector<double>& d) { sim::out_vec(key + "." + std::to_string(n), d.data(), d.size()); sim::out_put(key + "." + std::to_string(n) + ".w", what); ++n; }
  // One statement. Raised: the statement raised an exception.
  bool st(const std::string& f, Args a, Val& r) { try { r = m.call(f, a); } catch (const std::bad_alloc&) { throw; } catch (const std::logic_error&) { throw; } catch (const std::exception& e) { log(f + " raises", {}); sim::out_put(key + ".what", e.what()); return false; } log(f + (r.kind == Val::NONE ? " gives None" : ""), m.digest(r)); return true; }
  bool st(const std::string& f, Args a) { Val r; return st(f, a, r); }
  Val vec_(const std::vector<double>& x) { return m.call("vec", {Val::copy(x)}); }
  Val args(const std::string& cmd) { Val d; d.kind = Val::DICT; auto w = words(cmd); for (size_t i = 0; i < w.size(); ++i) { if (w[i].compare(0, 2, "--")) continue; bool has = i + 1 < w.size() && w[i + 1].compare(0, 2, "--"); d.d.push_back(std::make_pair(Val(w[i].substr(2)), Val(has ? w[i + 1] : std::string("")))); } return m.call("arguments", {d}); }
  void params_(const Val& f, long seed, int extra) { Val p; if (!m.lobe(f) || !st("function.get", {f}, p)) return; size_t k = m.digest(p).size(); Rng q(seed); std::vector<double> x(k + extra); for (auto& e : x) e = q.uni(0.1, 0.9); st("function.set", {f, vec_(x)}); st("function.get", {f}); }
  void look(const Val& f, long seed) { auto P = m.par(f); Rng q(seed); auto x = dirs(P.input_parametrization(), P.dimX(), q); st("function.value", {f, vec_(x)}); }
  void keep(const Val& f, const std::string& sh) { if (f.kind == Val::OBJ) { fs.push_back(f); shape.push_back(sh); } }
  void keepd(const Val& d, bool v) { if (d.kind == Val::OBJ) { ds.push_back(d); val.push_back(v); } }
  void go(const Prog& p) {
    for (auto& s : p.st) { Rng q(s.seed); Val r;
      switch (s.op) {
        case 0: { auto& l = p.leaf[s.a % p.leaf.size()]; std::string name = l.cmd.find("--", 2) == std::string::npos && l.cmd.find('[') == std::string::npos && l.cmd.size() > 7 ? l.cmd.substr(7) : ""; if (s.b % 12 == 0) { if (!st("get_function", {}, r)) break; keep(r, "default"); } else { bool ok = name.empty() || s.b % 2 ? st("get_function", {args(l.cmd), Val::copy(spec_params(l))}, r) : s.b % 5 == 0 ? st("get_function", {name}, r) : st("get_function", {name, Val::copy(spec_params(l))}, r); if (ok) keep(r, l.cmd); } if (r.kind == Val::OBJ && !l.rational) params_(r, s.seed, 0); break; }
        case 1: if (fs.empty()) break; params_(fs[s.a % fs.size()], s.seed, s.b % 8 == 0 ? 1 : 0); break;
        case 2: if (fs.empty()) break; if (m.lobe(fs[s.a % fs.size()])) look(fs[s.a % fs.size()], s.seed); break;
        case 3: case 4: { if (fs.size() < 2) break; size_t i = s.a % fs.size(), j = s.b % fs.size(); if (shape[i].size() + shape[j].size() > 400) break; if (!m.lobe(fs[i]) || !m.lobe(fs[j])) { if (st(s.op == 3 ? "function.__add__" : "function.__mul__", {fs[i], fs[j]}, r)) keep(r, "?"); break; } if (shape[i].find("retro") != std::string::npos) { } auto P = m.par(fs[i]), Q = m.par(fs[j]); if (P.dimY() != Q.dimY() || P.output_parametrization() != Q.output_parametrization() || P.input_parametrization() == params::UNKNOWN_INPUT || Q.input_parametrization() == params::UNKNOWN_INPUT) break;
          if (i == j) break; if (st(s.op == 3 ? "function.__add__" : s.c % 3 ? "function.__mul__" : "function.__rmul__", {fs[i], fs[j]}, r)) { keep(r, "(" + shape[i] + (s.op == 3 ? " + " : " * ") + shape[j] + ")"); if (r.kind == Val::OBJ) look(r, s.seed); } break; }
        case 5: { if (fs.empty()) break; size_t i = s.a % fs.size(); if (!m.lobe(fs[i])) break; std::string fn = "s" + std::to_string(s.b % 3); bool wa = s.c % 2; if (wa ? st("function.save", {fs[i], fn, args(s.c % 4 == 1 ? "" : "--export alta")}) : st("function.save", {fs[i], fn})) files[fn] = shape[i]; break; }
        case 6: { if (fs.empty()) break; if (s.b % 4 == 0) { st("function.load", {fs[s.a % fs.size()], "nowhere"}); break; } for (size_t k = 0; k < fs.size(); ++k) { size_t i = (s.a + k) % fs.size(); bool done = false; for (auto& f : files) if (f.second == shape[i]) { bool ok = s.c % 2 ? st("function.load", {fs[i], f.first, args("")}) : st("function.load", {fs[i], f.first}); if (ok) { st("function.get", {fs[i]}); look(fs[i], s.seed); } done = true; break; } if (done) break; } break; }
        case 7: if (s.b % 5 == 0) { if (st("load_function", {"nowhere"}, r)) keep(r, "?"); break; } if (s.b % 2 ? st("load_function", {"in.func"}, r) : st("load_function", {"in.func", args("")}, r)) { keep(r, "in.func"); if (r.kind == Val::OBJ && m.lobe(r)) { st("function.get", {r}); look(r, s.seed); } } break;
        case 8: { bool two = p.second && s.a % 2; if (p.measured && (!p.native || s.b % 2)) { auto& f = two ? p.m2 : p.m1; if (st("load_data", {fmt_plugin[f.f], f.file}, r)) keepd(r, f.f != FM_ASTM && f.f != FM_GRID); } else if (p.native) { if (st("load_data", {"", "in"}, r)) keepd(r, false); } break; }
        case 9: { int ny = p.base.ny, k = (int)(s.a % 12); auto& c = conv_params[k]; int nn = 1 + (int)(s.b % 6); if (!st("get_data", {"vertical_segment", (double)nn, Val::copy(alta::parameters(c.dim, ny, c.p, p.base.pout))}, r) || r.kind != Val::OBJ) break; for (int i = 0; i < nn; ++i) { auto x = dirs(c.p, c.dim, q); for (int j = 0; j < ny; ++j) x.push_back(q.uni(0, 2)); st(s.c % 2 ? "data.set" : "data.__setitem__", {r, (double)i, vec_(x)}); } keepd(r, false); break; }
        case 10: { if (ds.empty()) break; auto& d = ds[s.a % ds.size()]; if (!st(s.b % 2 ? "data.size" : "data.__len__", {d}, r)) break; int k = (int)r.num; for (int i = 0; i < 3 && k; ++i) st(s.c % 2 ? "data.get" : "data.__getitem__", {d, (double)q.below(k)}); break; }
        case 11: { if (ds.empty()) break; size_t i = s.a % ds.size(); auto P = m.par(ds[i]); if (P.input_parametrization() == params::UNKNOWN_INPUT) break; auto& c = conv_params[s.b % 12]; int ny = s.c % 3 == 0 ? P.dimY() : s.c % 3 == 1 ? 1 : 3; auto out = ny == P.dimY() ? P.output_parametrization() : ny == 3 ? params::RGB_COLOR : params::INV_STERADIAN; if (P.output_parametrization() == params::UNKNOWN_OUTPUT && ny != P.dimY()) break; if (P.dimY() != 1 && P.dimY() != 3 && ny != P.dimY()) break; if (P.dimY() == 3 && ny != 3) { ny = 3; out = P.output_parametrization(); } if (st("data2data", {ds[i], Val::copy(alta::parameters(c.dim, ny, c.p, out))}, r)) keepd(r, false); break; }
        case 12: { if (ds.empty() || fs.empty()) break; size_t i = s.a % fs.size(), j = s.b % ds.size(); auto P = m.par(fs[i]), Q = m.par(ds[j]); if (!m.lobe(fs[i]) || P.dimY() < Q.dimY() || Q.input_parametrization() == params::UNKNOWN_INPUT || P.input_parametrization() == params::UNKNOWN_INPUT) break; if (st("brdf2data", {fs[i], ds[j]})) log("the dataset after brdf2data", m.digest(ds[j])); break; }
        case 13: { for (size_t k = 0; k < ds.size(); ++k) { size_t i = (s.a + k) % ds.size(); if (!val[i]) continue; size_t j = s.b % ds.size(); auto P = m.par(ds[i]), Q = m.par(ds[j]); if (P.dimY() != Q.dimY() || Q.input_parametrization() == params::UNKNOWN_INPUT) break; st("data2stats", {ds[i], ds[j]}); break; } break; }
        case 14: { if (ds.empty()) break; size_t i = s.a % ds.size(); std::string fn = "d" + std::to_string(s.b % 3); if (m.par(ds[i]).input_parametrization() == params::UNKNOWN_INPUT) break; st("data.save", {ds[i], fn}); break; }
        case 15: { int k = 1 + (int)(s.a % 6); std::vector<double> x(k), y(k); for (auto& e : x) e = q.uni(-2, 2); for (auto& e : y) e = q.uni(-2, 2); if (vs.size() > 6) vs.clear(); vs.push_back(vec_(x)); Val u = vs[s.b % vs.size()]; int ul = (int)m.digest(u).size(); if (ul == k) { if (st("vec.__add__", {u, vec_(y)}, r)) vs.push_back(r); if (st("vec.__sub__", {u, vec_(y)}, r)) vs.push_back(r); st("vec.__sub__", {vec_(y), u}); } st("vec.__setitem__", {u, (double)q.below(ul), q.uni(-1, 1)}); st("vec.__getitem__", {u, (double)q.below(ul + 1)}); st("vec.__len__", {u}); st("vec.__str__", {u}); st("norm", {u}); break; }
        case 16: { Val a = args(s.a % 2 ? "--foo bar --np 3" : "--np 4"); st("arguments.__getitem__", {a, "np"}); st("arguments.update", {a, s.b % 2 ? "np" : "extra", std::to_string(s.seed)}); st("arguments.__getitem__", {a, "np"}); st("arguments.__getitem__", {a, s.b % 3 ? "extra" : "foo"}); break; }
        case 17: if (fs.size() > 1 && s.b % 2) { size_t i = s.a % fs.size(); fs.erase(fs.begin() + i); shape.erase(shape.begin() + i); } else if (ds.size() > 1) { size_t i = s.a % ds.size(); ds.erase(ds.begin() + i); val.erase(val.begin() + i); } break;
        case 18: { if (ds.empty()) break; size_t i = s.a % ds.size(); if (!val[i]) break; auto P = m.par(ds[i]); for (int k = 0; k < 3; ++k) { auto x = dirs(P.input_parametrization(), P.dimX(), q); st("data.value", {ds[i], vec_(x)}); } break; }
        case 19: { if (!p.fits) break; Val d, ft, f, ok; bool own = false; if (s.b % 2) for (size_t k = 0; k < ds.size(); ++k) { size_t i = (s.c + k) % ds.size(); auto P = m.par(ds[i]); if (val[i] || m.digest(ds[i])[0] > 12 || P.dimX() > 3 || !p.fit.rational) continue; d = ds[i]; own = true; break; } if ((!own && (!st("load_data", {"", "fit.in"}, d) || d.kind != Val::OBJ)) || !st("get_fitter", {p.fit.fitter}, ft) || ft.kind != Val::OBJ) break; auto P = m.par(d); Val a = args(p.fit.args); if (!st("get_function", {a, Val::copy(P)}, f) || f.kind != Val::OBJ) break; if (!(p.with_args ? st("fitter.fit_data", {ft, d, f, a}, ok) : st("fitter.fit_data", {ft, d, f}, ok)) || !ok.num) break; st("function.save", {f, "fit.func", a}); if (m.lobe(f)) { st("function.get", {f}); keep(f, "fit"); } break; }
      }
    }
    for (auto& f : fs) if (m.lobe(f)) { st("function.get", {f}); look(f, p.seed); } for (auto& d : ds) log("a dataset at the end", m.digest(d));
  }
};
// Word by word: equal words, or the same number (as close as the results have to be; a zero has no sign).
static bool same_words(const std::string& a, const std::string& b) {
  if (a == b) return true; auto ws = [](const std::string& s) { std::vector<std::string> w; std::istringstream in(s); std::string l; while (std::getline(in, l)) { std::istringstream q(l); std::string x; while (q >> x) w.push_back(x); w.push_back("\n"); } return w; };
  auto u = ws(a), v = ws(b); if (u.size() != v.size()) return false;
  for (size_t i = 0; i < u.size(); ++i) { if (u[i] == v[i]) continue; char *e, *f; double x = strtod(u[i].c_str(), &e), y = strtod(v[i].c_str(), &f); if (*e || *f || !close_rel(x, y, 1e-9)) return false; } return true;
}
static Prog gen() {
  Prog p; p.seed = K("seed", 1, 1000000); int ok = (int)K("out", 0, 5); p.base.pout = ok ? all_outputs[ok - 1] : params::UNKNOWN_OUTPUT; p.base.ny = ok >= 4 ? 3 : 1;
  int nl = (int)K("leaves", 1, 4); for (int i = 0; i < nl; ++i) { ModelSpec s; int how = (int)K("how", 0, 9); if (how == 0) { s = gen_model("leaf", false, true); } else { s.seed = K("leafseed", 1, 1000000); int k = (int)K("pin", 0, 3); s.pin = pins[k]; s.nx = pdims[k]; s.ny = p.base.ny; s.pout = p.base.pout; s.cmd = how <= 3 ? std::string("--func ") + factors[K("factor", 0, 5)] : "--func " + gen_lobe("lobe", s, how == 4 ? 0 : 1); } p.leaf.push_back(s); }
  p.base.nx = 6; for (int i = 0; ; ++i) { ModelSpec s = gen_model("infunc", true, true); p.base.seed = s.seed; p.base.cmd = s.cmd; p.base.boot = s.boot; p.leaf.push_back(s); break; }
  p.native = KB("native", 75); p.measured = KB("measured", 40); p.fits = KB("fits", 12); p.with_args = KB("fitargs", 60);
  if (p.measured) { ToolIn t = in_measured("m1", "m1", 2, 0, true, true); p.m1 = t.m; p.m1.args = ""; p.second = KB("second", 50); if (p.second) { t = in_measured("m2", "m2", 0, 0, true, true); p.m2 = t.m; p.m2.args = ""; } for (FmtSpec* f : {&p.m1, &p.m2}) if (f->f == FM_UTIA_EXR && !f->file.empty()) f->file += ".exr"; }
  if (p.native) { auto& c = conv_params[K("from", 0, 11)]; p.d = gen_dirs("d", c.p, c.dim, 20, p.base.ny, p.base.pout); }
  if (p.fits) p.fit = gen_fit("fit", FT_LSQ | FT_EIGEN | FT_QUADPROG | FT_NLEIGEN, 10);
  int n = (int)K("steps", 3, 30); static const int pick[] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 6, 6, 7, 8, 8, 8, 9, 9, 10, 10, 11, 11, 11, 12, 12, 12, 13, 13, 14, 14, 15, 16, 17, 18, 19};
  for (int i = 0; i < n; ++i) { Step s; s.op = pick[K("op", 0, (long)(sizeof pick / sizeof *pick) - 1)]; s.a = K("a", 0, 59); s.b = K("b", 0, 59); s.c = K("c", 0, 59); s.seed = K("s", 1, 1000000); p.st.push_back(s); }
  if (p.fits) p.st[(size_t)K("fitat", 0, n - 1)].op = 19;
  p.desc = "a script of " + std::to_string(n) + " statements"; return p;
}
void scenario() {
  Prog p = gen(); ModelSpec in = p.leaf.back(); p.leaf.pop_back();
  { for (FmtSpec* f : {&p.m1, &p.m2}) if (!f->file.empty()) sim::vfs_put(f->file, fmt_bytes(*f));
    LifeRes r = sim::life(LifeOpt(), [&] { auto f = make_model(in); if (!f) return 2; f->save("in.func", mkargs(in.cmd)); if (p.native) { fill_dirs(p.d, p.seed); make_vs(p.d)->save("in"); } if (p.fits) { auto d = fit_data_of(p.fit); if (!d) return 2; save_binary(*d, "fit.in"); } return 0; });
    if (!r.ok()) { if (!r.loud()) violation("crash", "making the inputs: %s", r.str().c_str()); sim::discard("no inputs"); } }
  auto clean = sim::vfs_snapshot(); LifeOpt o; o.wall_is_discard = p.fits;
  LifeRes e = sim::life(o, [&] { Lib m; Play q(m, "e"); q.go(p); sim::out_num("e.n", q.n); return 0; });
  if (e.died_badly()) violation("crash", "%s, from the library: %s", p.desc.c_str(), e.str().c_str());
  if (!e.ok()) { sim::count("library_refused"); sim::note("%s", e.str().c_str()); }
  auto want = sim::vfs_snapshot(); sim::vfs_restore(clean); o = benign("env"); o.wall_is_discard = p.fits; if (p.measured && o.max_transfer && o.max_transfer < 4096) o.max_transfer = 4096;
  LifeRes x = sim::life(o, [&] { Module m; Play q(m, "x"); q.go(p); sim::out_num("x.n", q.n); return 0; });
  if (x.died_badly()) violation("crash", "%s: %s", p.desc.c_str(), x.str().c_str());
  int n = 0; for (;; ++n) { std::string k = std::to_string(n); bool a = sim::out_has("e." + k + ".w"), b = sim::out_has("x." + k + ".w"); if (!a || !b) { if (a != b && ((a && x.ok()) || (b && e.ok()))) violation("refused", "%s: after %d statements: %s", p.desc.c_str(), n, a ? "the module's script ends, the library goes on" : "the library's script ends, the module goes on"); break; }
    std::string w = sim::out_get("x." + k + ".w"), v = sim::out_get("e." + k + ".w"); if (w != v) violation("wrong-result", "statement %d of the script: %s (%s), but the library: %s", n, w.c_str(), sim::out_has("x.what") ? sim::out_get("x.what").c_str() : "", v.c_str());
    auto c = get_vecd("x." + k), d = get_vecd("e." + k); bool stats = w == "data2stats"; if (c.size() != d.size()) violation("wrong-result", "statement %d (%s) gives %zu numbers, the library %zu", n, w.c_str(), c.size(), d.size());
    for (size_t i = 0; i < c.size(); ++i) { if (stats && (!std::isfinite(c[i]) || !std::isfinite(d[i]) || std::fabs(d[i]) > 1e90)) continue; if (!close_rel(c[i], d[i], 1e-9)) violation("wrong-result", "statement %d (%s), number %zu: %.17g, but the library computes %.17g", n, w.c_str(), i, c[i], d[i]); }
    sim::count(w.c_str()); }
  if (e.ok() != x.ok()) violation("refused", "%s: the module %s, the library %s", p.desc.c_str(), x.str().c_str(), e.str().c_str());
  if (!e.ok()) sim::discard("the script ends the process");
  auto got = sim::vfs_snapshot(); for (auto& f : want) { auto it = got.find(f.first); if (it == got.end()) violation("wrong-file", "\"%s\" is not there", f.first.c_str()); if (!same_words(it->second, f.second)) { size_t i = 0; while (i < std::min(it->second.size(), f.second.size()) && it->second[i] == f.second[i]) ++i; violation("wrong-file", "\"%s\" differs from what the library writes at byte %zu (%zu and %zu bytes)", f.first.c_str(), i, it->second.size(), f.second.size()); } }
  for (auto& f : got) if (!want.count(f.first)) violation("wrong-file", "\"%s\" is written by the module only", f.first.c_str());
  if (n > 2) sim::nontrivial();
}
