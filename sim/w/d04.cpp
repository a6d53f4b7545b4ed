// D04: dataset files written by others mean what the format says, in whatever form and pieces they arrive.
#include "w/common.h"
#include "w/formats.h"
extern const char* const scenario_id = "D04";
namespace {
struct Want { int nx, ny, pin, pout; std::vector<double> v, lo, hi; bool bounds = false, loose = false; };
struct FileSpec { std::string name, type, args; Want w; bool stream; const char* what; };

// A number as somebody may have written it.
std::string num_text(Rng& r, double v) {
  char b[80]; int f = (int)r.below(7);
  if (f == 0) snprintf(b, sizeof b, "%.17g", v); else if (f == 1) snprintf(b, sizeof b, "%.16e", v); else if (f == 2) snprintf(b, sizeof b, "%.15E", v); else if (f == 3 && std::fabs(v) < 1e9) snprintf(b, sizeof b, "%.8f", v);
  else if (f == 4 && std::fabs(v) < 1e6) snprintf(b, sizeof b, "%d", (int)v); else if (f == 5) snprintf(b, sizeof b, "%.6g", v); else snprintf(b, sizeof b, "%.15g", v);
  if (r.chance(0.05) && b[0] != '-') return std::string("+") + b; if (r.chance(0.05) && b[0] == '0' && b[1] == '.') return b + 1;
  return b;
}
std::string gap(Rng& r) { static const char* g[] = {" ", "\t", "  ", " \t ", "      "}; return g[r.chance(0.6) ? 0 : r.below(5)]; }
const char* comment(Rng& r) { static const char* c[] = {"#", "# a comment", "# DIM 7 9", "# 1 2 3 4 5 6 7 8 9", "#          ", "# ALTA END HEADER"}; return c[r.below(6)]; }

FileSpec gen_text(int k) {
  FileSpec f; f.what = "text"; f.name = "in/t" + std::to_string(k) + (K("ext", 0, 1) ? ".dat" : ".alta"); f.type = KB("type", 50) ? "vertical_segment" : ""; f.stream = KB("stream", 25);
  DataSpec s = gen_data("d", sim::thorough() ? 300 : 120, false, 2); int nx = s.nx, ny = s.ny; Rng r(K("form", 1, 1000000000));
  if (KB("quarters", 30)) for (auto& x : s.v) x = (double)r.range(-12, 12) / 4;       // so that samples lie exactly on the filters
  int vs = KB("vs", 60) ? (int)K("vskind", 0, 2) : -1;
  std::string eol = KB("crlf", 12) ? "\r\n" : "\n"; bool noise = KB("noise", 50);
  std::vector<std::string> h; { std::ostringstream o; o << "#DIM" << gap(r) << nx << gap(r) << ny; h.push_back(o.str()); }
  if (s.pin != alta::params::UNKNOWN_INPUT || r.chance(0.5)) h.push_back("#PARAM_IN" + gap(r) + (s.pin != alta::params::UNKNOWN_INPUT ? alta::params::get_name(s.pin) : r.chance(0.5) ? "UNKNOWN_INPUT" : "UNKNOWN"));
  if (s.pout != alta::params::UNKNOWN_OUTPUT || r.chance(0.5)) h.push_back("#PARAM_OUT" + gap(r) + (s.pout != alta::params::UNKNOWN_OUTPUT ? alta::params::get_name(s.pout) : r.chance(0.5) ? "UNKNOWN_OUTPUT" : "UNKNOWN"));
  if (vs >= 0) { std::string l = "#VS" + gap(r) + std::to_string(vs); for (int i = 1; i < ny; ++i) l += " 0"; h.push_back(l); }
  if (r.chance(0.2)) h.push_back("#SOURCE measured by hand"); if (r.chance(0.1)) h.push_back("#FORMAT text");
  for (size_t i = h.size(); i > 1; --i) std::swap(h[i - 1], h[r.below(i)]);
  std::string b; if (r.chance(0.2)) b += "#ALTA HEADER DATA" + eol; else if (r.chance(0.1)) b += "#ALTA_BEGIN_HEADER" + eol;
  for (auto& l : h) { if (noise && r.chance(0.2)) b += comment(r) + eol; b += l + eol; }
  if (r.chance(0.4)) b += std::string("#ALTA END HEADER") + eol;
  // options
  double dt = 0.1; bool rel = false, mx = false, pos = false; std::vector<double> mn(nx, -1e300), mxv(nx, 1e300), yn(ny, -1e300), yx(ny, 1e300);
  auto arg = [&](const std::string& a) { f.args += (f.args.empty() ? "" : " ") + a; };
  if (KB("dt", 40)) { static const double d[] = {0.25, 0.01, 1.5, 0.0}; dt = d[r.below(4)]; std::ostringstream o; o << "--dt " << dt; arg(o.str()); }
  if (KB("rel", 20)) { rel = true; arg("--dt-relative"); } else if (KB("max", 25)) { mx = true; arg("--dt-max"); }
  if (KB("pos", 20)) { pos = true; arg("--dt-positive"); }
  auto lim = [&](const char* o, std::vector<double>& v, bool neg) {
    if (!KB("filter", 12)) return; std::ostringstream a; a << "--" << o << " "; int n = (int)v.size();
    auto q = [&] { double t = (double)r.range(0, 12) / 4; return (neg ? -t : t) + (r.chance(0.3) ? (neg ? 1.5 : -1.5) : 0); };
    if (r.chance(0.6) || n == 1) { a << "["; for (int i = 0; i < n; ++i) { v[i] = q(); a << (i ? r.chance(0.5) ? ", " : "," : "") << v[i]; } a << "]"; } else { double t = q(); for (auto& x : v) x = t; a << t; }
    arg(a.str()); };
  bool cosc = (s.pin == alta::params::CARTESIAN || s.pin == alta::params::SPHERICAL_TL_PL_TV_PV) && KB("cosine", 40); if (cosc) arg("--data-correct-cosine");
  lim("min", mn, true); lim("max", mxv, false); lim("ymin", yn, true); lim("ymax", yx, false);
  // body
  Want& w = f.w; w.nx = nx; w.ny = ny; w.pin = s.pin; w.pout = s.pout; w.bounds = true;
  for (int i = 0; i < s.n; ++i) {
    if (noise && r.chance(0.1)) b += (r.chance(0.4) ? std::string(comment(r)) : r.chance(0.5) ? std::string() : gap(r)) + eol;
    std::string l; if (r.chance(0.2)) l += gap(r); std::vector<double> row; double lo1 = 0, hi1 = 0;
    for (int k = 0; k < nx + ny; ++k) { std::string t = num_text(r, s.v[(size_t)i * (nx + ny) + k]); row.push_back(strtod(t.c_str(), nullptr)); l += (k ? gap(r) : "") + t; }
    auto extra = [&](double& x) { double v = r.chance(0.3) ? (double)r.range(0, 8) / 4 : r.uni(0, 3); std::string t = num_text(r, v); x = strtod(t.c_str(), nullptr); l += gap(r) + t; };
    if (vs == 1) { extra(hi1); lo1 = hi1; } else if (vs == 2) { extra(lo1); extra(hi1); }
    if (r.chance(0.3)) l += gap(r); b += l; if (i + 1 < s.n || !r.chance(0.2)) b += eol;
    std::vector<double> lo(ny), hi(ny);
    for (int k = 0; k < ny; ++k) {
      double y = row[nx + k], a = k == 0 && vs > 0 ? lo1 : dt, c = k == 0 && vs > 0 ? hi1 : dt;
      if (rel) { lo[k] = y * (1.0 - a); hi[k] = y * (1.0 + c); }
      else if (mx) { lo[k] = y - std::max(y * a, a); hi[k] = y + std::max(y * c, c); }      // the larger of both sizes
      else { lo[k] = y - a; hi[k] = y + c; }
      if (pos) { row[nx + k] = std::max(y, 0.0); lo[k] = std::max(lo[k], 0.0); hi[k] = std::max(hi[k], 0.0); }
    }
    bool in = true; for (int k = 0; k < nx; ++k) in &= row[k] >= mn[k] && row[k] <= mxv[k]; for (int k = 0; k < ny; ++k) in &= row[nx + k] >= yn[k] && row[nx + k] <= yx[k];
    if (in && cosc) { double c1 = s.pin == alta::params::CARTESIAN ? row[2] : cos(row[0]), c2 = s.pin == alta::params::CARTESIAN ? row[5] : cos(row[2]); in = c1 > 0 && c2 > 0; for (int k = 0; in && k < ny; ++k) { row[nx + k] /= c1 * c2; lo[k] /= c1 * c2; hi[k] /= c1 * c2; w.loose = true; } }
    if (in) { w.v.insert(w.v.end(), row.begin(), row.end()); w.lo.insert(w.lo.end(), lo.begin(), lo.end()); w.hi.insert(w.hi.end(), hi.begin(), hi.end()); }
  }
  sim::vfs_put(f.name, b); return f;
}
FileSpec gen_binary(int k) {
  FileSpec f; f.what = "binary"; f.name = "in/b" + std::to_string(k) + ".bin"; f.type = KB("type", 50) ? "vertical_segment" : ""; f.stream = KB("stream", 25);
  DataSpec s = gen_data("d", sim::thorough() ? 300 : 120, true, 4); int nx = s.nx, ny = s.ny; Rng r(K("form", 1, 1000000000));
  std::vector<std::string> h; { std::ostringstream o; o << "#DIM" << gap(r) << nx << gap(r) << ny; h.push_back(o.str()); }
  h.push_back("#PARAM_IN" + gap(r) + (s.pin != alta::params::UNKNOWN_INPUT ? alta::params::get_name(s.pin) : "UNKNOWN_INPUT")); h.push_back("#PARAM_OUT" + gap(r) + (s.pout != alta::params::UNKNOWN_OUTPUT ? alta::params::get_name(s.pout) : "UNKNOWN_OUTPUT"));
  h.push_back("#FORMAT" + gap(r) + "binary"); h.push_back("#VERSION" + gap(r) + "0"); h.push_back("#PRECISION" + gap(r) + "ieee754-double"); h.push_back("#ENDIAN" + gap(r) + "little"); { std::ostringstream o; o << "#SAMPLE_COUNT" << gap(r) << s.n; h.push_back(o.str()); }
  if (s.kind || r.chance(0.5)) h.push_back("#VS" + gap(r) + std::to_string(s.kind));
  for (size_t i = h.size(); i > 1; --i) std::swap(h[i - 1], h[r.below(i)]);
  std::string b; if (r.chance(0.2)) b += "#ALTA HEADER DATA\n"; for (auto& l : h) { if (r.chance(0.1)) b += std::string(comment(r)).find("ALTA") == std::string::npos ? "# made by another program\n" : "# x\n"; b += l + "\n"; }
  b += "#BEGIN_STREAM\n"; if (r.chance(0.05)) s.v[0] = 3.1415926, ((char*)s.v.data())[0] = '#'; b.append((const char*)s.v.data(), s.v.size() * 8); b += "\n#END_STREAM\n";
  if (KB("opts", 20)) f.args = "--dt 0.5 --min 0.25";                                // for text files only
  Want& w = f.w; w.nx = nx; w.ny = ny; w.pin = s.pin; w.pout = s.pout; w.bounds = s.kind > 0;
  for (int i = 0; i < s.n; ++i) { const double* q = &s.v[(size_t)i * s.cols()]; w.v.insert(w.v.end(), q, q + nx + ny);
    for (int k = 0; k < ny && s.kind; ++k) { double y = q[nx + k]; w.lo.push_back(s.kind == 1 ? y - q[nx + ny + k] : q[nx + ny + k]); w.hi.push_back(s.kind == 1 ? y + q[nx + ny + k] : q[nx + 2 * ny + k]); } }
  sim::vfs_put(f.name, b); return f;
}
FileSpec gen_astm(int k) {
  FileSpec f; f.what = "ASTM"; f.name = "in/s" + std::to_string(k) + ".astm"; f.type = "data_astm"; f.stream = KB("stream", 25); Rng r(K("form", 1, 1000000000));
  int nx = (int)K("anx", 3, 4), ny = KB("integrated", 40) ? 1 : 3, n = (int)K("n", 1, 40); std::string eol = KB("crlf", 12) ? "\r\n" : "\n", b; bool noise = KB("noise", 40), sp = KB("spaces", 30);
  std::vector<std::string> h = {"NAME sample no. 7", "NUM_POINTS " + std::to_string(n)}; if (r.chance(0.5)) h.push_back("STANDARD \"ASTM E1392-90(1996)\""); if (r.chance(0.3)) h.push_back("SAMPLE Paint, grey"); if (r.chance(0.3)) h.push_back("DATE 01/02/2003");
  for (size_t i = h.size(); i > 1; --i) std::swap(h[i - 1], h[r.below(i)]);
  for (auto& l : h) b += l + eol;
  std::string c = sp ? ", " : ","; b += "VARS theta_i" + c + (nx == 4 ? "phi_i" + c : "") + "theta_s" + c + "phi_s" + c + (ny == 1 ? "Integrated" : "R" + c + "G" + c + "B") + eol;
  Want& w = f.w; w.nx = nx; w.ny = ny; w.pin = nx == 4 ? alta::params::SPHERICAL_TL_PL_TV_PV : alta::params::UNKNOWN_INPUT; w.pout = ny == 1 ? alta::params::INV_STERADIAN : alta::params::RGB_COLOR;
  for (int i = 0; i < n; ++i) { if (noise && r.chance(0.1)) b += eol; for (int k = 0; k < nx + ny; ++k) { std::string t = num_text(r, gen_value(r, (int)r.below(3))); w.v.push_back(strtod(t.c_str(), nullptr)); b += (k ? c : r.chance(0.1) ? " " : "") + t; } b += eol; }
  sim::vfs_put(f.name, b); return f;
}
bool near(double a, double b, bool loose) { return a == b || std::fabs(a - b) <= (loose ? 1e-9 : 1e-13) * (1 + std::fabs(a) + std::fabs(b)); }
}
void scenario() {
  int n = (int)K("files", 1, 3); std::vector<FileSpec> fs;
  for (int k = 0; k < n; ++k) { long t = K("kind", 0, 9); fs.push_back(t < 6 ? gen_text(k) : t < 8 ? gen_binary(k) : gen_astm(k)); }
  std::vector<int> order; int loads = n + (int)K("again", 0, 2); for (int i = 0; i < loads; ++i) order.push_back(i < n && !KB("shuffle", 20) ? i : (int)K("which", 0, n - 1));
  bool keep = KB("keep", 50);
  LifeRes x = sim::life(benign("l"), [&] {
    std::vector<ptr<alta::data>> kept;
    for (int i = 0; i < loads; ++i) {
      auto& f = fs[order[i]]; ptr<alta::data> d; std::string key = "r" + std::to_string(i);
      if (f.stream) { std::ifstream in(f.name.c_str(), std::ios::binary); d = alta::plugins_manager::load_data(f.type, in, mkargs(f.args)); } else d = alta::plugins_manager::load_data(f.name, f.type, mkargs(f.args));
      if (!d) return 3;
      put_dump(key, *d); auto vs = dynamic_cast<alta::vertical_segment*>(d.get()); std::vector<double> b;
      for (int k = 0; k < d->size(); ++k) { vec xi, lo, hi, lo2, hi2; vs->get(k, xi, lo, hi); vs->get(k, lo2, hi2); for (int j = 0; j < xi.size(); ++j) b.push_back(xi[j]); for (int j = 0; j < lo.size(); ++j) { b.push_back(lo[j]); b.push_back(hi[j]); b.push_back(lo2[j]); b.push_back(hi2[j]); } }
      sim::out_vec(key + ".iv", b.data(), b.size());
      vec m = d->min(), M = d->max(); std::vector<double> e(m.data(), m.data() + m.size()); e.insert(e.end(), M.data(), M.data() + M.size()); sim::out_vec(key + ".mm", e.data(), e.size());
      if (keep) kept.push_back(d);
    }
    return 0; });
  if (!x.ok()) violation("refused", "loading complete, well-formed files: %s", x.str().c_str());
  sim::nontrivial();
  for (int i = 0; i < loads; ++i) {
    auto& f = fs[order[i]]; auto& w = f.w; Dump d; std::string key = "r" + std::to_string(i), in = std::string(f.what) + " file" + (f.args.empty() ? "" : " with " + f.args); if (!get_dump(key, d)) violation("harness", "no dump");
    int n = (int)w.v.size() / (w.nx + w.ny); const char* I = in.c_str();
    if (d.nx != w.nx || d.ny != w.ny) violation("dimensions", "%s: dimensions %d, %d instead of %d, %d", I, d.nx, d.ny, w.nx, w.ny);
    if (d.pin != w.pin || d.pout != w.pout) violation("parametrization", "%s: parametrizations %d, %d instead of %d, %d", I, d.pin, d.pout, w.pin, w.pout);
    if (d.n != n) violation("count", "%s: %d samples instead of %d", I, d.n, n);
    for (size_t k = 0; k < w.v.size(); ++k) if (!same_bits(w.v[k], d.v[k]) && !(w.v[k] == 0 && d.v[k] == 0) && !(w.loose && near(w.v[k], d.v[k], true))) violation("value", "%s: number %zu of sample %zu is %.17g, the file says %.17g", I, k % (w.nx + w.ny), k / (w.nx + w.ny), d.v[k], w.v[k]);
    auto iv = get_vecd(key + ".iv"); int st = w.nx + 4 * w.ny; if ((int)iv.size() != n * st) violation("interval", "%s: %zu numbers in the intervals of %d samples", I, iv.size(), n);
    for (int s = 0; s < n; ++s) {
      for (int k = 0; k < w.nx; ++k) if (!same_bits(iv[s * st + k], d.v[(size_t)s * (w.nx + w.ny) + k])) violation("interval", "%s: the interval of sample %d is reported for other coordinates", I, s);
      for (int k = 0; k < w.ny; ++k) { double *q = &iv[s * st + w.nx + 4 * k]; if (!same_bits(q[0], q[2]) || !same_bits(q[1], q[3])) violation("interval", "%s: two answers for the interval of sample %d", I, s);
        if (w.bounds && (!near(q[0], w.lo[s * w.ny + k], w.loose) || !near(q[1], w.hi[s * w.ny + k], w.loose))) violation("interval", "%s: output %d of sample %d has the interval [%.17g, %.17g] instead of [%.17g, %.17g]", I, k, s, q[0], q[1], w.lo[s * w.ny + k], w.hi[s * w.ny + k]);
        if (!w.bounds) { double y = d.v[(size_t)s * (w.nx + w.ny) + w.nx + k]; if (!(q[0] <= y && y <= q[1])) violation("interval", "%s: the interval of sample %d does not contain its value", I, s); } }
    }
    auto mm = get_vecd(key + ".mm"); if ((int)mm.size() != 2 * w.nx) violation("extent", "%s: %zu numbers describe the extent", I, mm.size());
    for (int k = 0; k < w.nx && n; ++k) { double lo = d.v[k], hi = lo; for (int s = 0; s < n; ++s) { double c = d.v[(size_t)s * (w.nx + w.ny) + k]; lo = std::min(lo, c); hi = std::max(hi, c); } if (mm[k] != lo || mm[w.nx + k] != hi) violation("extent", "%s: coordinate %d is said to extend from %g to %g, and does from %g to %g", I, k, mm[k], mm[w.nx + k], lo, hi); }
  }
  sim::count("loads", loads);
}
