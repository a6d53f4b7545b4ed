// B01: scattered-data interpolation for every seed of the randomness of its search structures.
#include "w/common.h"
extern const char* const scenario_id = "B01";
typedef std::vector<double> V;
struct Set { DataSpec d; std::string file; std::vector<V> q; std::vector<int> at; bool whole = false; };   // at: index of the stored sample asked for, or -1
static Set gen_set(const char* p, int id) {
  Set s; std::string n(p); DataSpec& d = s.d; int pk = (int)K((n + ".pin").c_str(), 0, N_INPUTS); if (!pk) d.nx = (int)K((n + ".nx").c_str(), 1, 6); else { d.pin = all_inputs[pk - 1]; d.nx = input_dims[pk - 1]; }
  d.ny = (int)K((n + ".ny").c_str(), 1, 3); int sz = (int)K((n + ".size").c_str(), 0, 3); d.n = (int)(sz == 0 ? K((n + ".n").c_str(), 1, 4) : sz == 1 ? K((n + ".n").c_str(), 1, 30) : K((n + ".n").c_str(), 1, sim::thorough() ? 1500 : 300));
  int style = (int)K((n + ".style").c_str(), 0, 3); Rng r(K((n + ".seed").c_str(), 1, 1000000000)); d.v.resize((size_t)d.n * d.cols());
  for (int i = 0; i < d.n; ++i) { double* row = &d.v[(size_t)i * d.cols()]; for (int k = 0; k < d.nx; ++k) row[k] = style == 1 ? (double)r.range(0, 6) : style == 2 && k ? 0.5 : style == 3 ? r.uni(-100, 100) : r.uni();
    for (int k = 0; k < d.ny; ++k) row[d.nx + k] = style == 3 ? r.uni(-1e6, 1e6) : r.uni(0.5, 2); }
  if (style == 0 && d.n > 2 && KB((n + ".dup").c_str(), 20)) memcpy(&d.v[0], &d.v[(size_t)d.cols()], d.nx * 8);
  s.whole = style == 1; s.file = "s" + std::to_string(id) + ".dat"; int m = (int)K((n + ".queries").c_str(), 1, 12);
  for (int i = 0; i < m; ++i) { int id = (int)r.below(d.n), how = (int)r.below(4); V x(d.nx); int at = -1; const double* row = &d.v[(size_t)id * d.cols()];
    if (how < 2) { x.assign(row, row + d.nx); at = id; } else if (how == 2) for (int k = 0; k < d.nx; ++k) x[k] = row[k] + r.uni(-0.01, 0.01); else { const double* o = &d.v[(size_t)r.below(d.n) * d.cols()]; for (int k = 0; k < d.nx; ++k) { double u = r.uni(-1, 2); x[k] = row[k] * (1 - u) + o[k] * u; } }
    s.q.push_back(x); s.at.push_back(at); }
  return s;
}
static std::vector<V> answers(const std::string& key, const Set& s) { V all = get_vecd(key); std::vector<V> r; for (size_t i = 0; i + s.d.ny <= all.size(); i += s.d.ny) r.push_back(V(all.begin() + i, all.begin() + i + s.d.ny)); return r; }
void scenario() {
  int ns = (int)K("sets", 1, 3); std::vector<Set> sets; for (int i = 0; i < ns; ++i) sets.push_back(gen_set(("s" + std::to_string(i)).c_str(), i));
  LifeRes w = sim::life(LifeOpt(), [&] { for (auto& s : sets) { auto d = make_vs(s.d); if (s.d.n & 1) save_binary(*d, s.file); else d->save(s.file); } return 0; });
  if (!w.ok()) sim::discard("the samples cannot be saved");
  bool keep = KB("keep", 50); long used = K("used", 0, 40); std::vector<int> order; { Rng r(K("order", 1, 1000000)); for (int i = 0; i < ns; ++i) order.push_back(i); for (int i = ns - 1; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]); }
  auto body = [&](const std::string& key, bool consume) {
    return [=, &sets] {
      std::vector<ptr<alta::data>> kept; for (long i = 0; consume && i < used; ++i) rand();
      for (int id : order) { auto& s = sets[id]; auto d = alta::plugins_manager::load_data(s.file, "data_rbf", mkargs("")); if (!d) return 2; std::string k = key + std::to_string(id);
        double h[4] = {(double)d->size(), (double)d->parametrization().dimX(), (double)d->parametrization().dimY(), (double)d->parametrization().input_parametrization()}; sim::out_vec(k + ".h", h, 4);
        V o, g; for (auto& x : s.q) { vec v(s.d.nx); for (int c = 0; c < s.d.nx; ++c) v[c] = x[c]; vec y = d->value(v); sim::check_range(y.data(), y.size() * 8, false); for (int c = 0; c < y.size(); ++c) o.push_back(y[c]); } sim::out_vec(k + ".v", o.data(), o.size());
        for (int i = 0; i < d->size(); i += 1 + d->size() / 20) { vec x = d->get(i); sim::check_range(x.data(), x.size() * 8, false); g.push_back(i); for (int c = 0; c < x.size(); ++c) g.push_back(x[c]); } sim::out_vec(k + ".g", g.data(), g.size());
        if (keep) kept.push_back(d); }
      return 0; }; };
  int lives = (int)K("lives", 1, 3); LifeOpt first; bool any = false;
  for (int i = 0; i <= lives; ++i) {
    bool twin = i == lives; std::string key = "b" + std::to_string(i) + "."; LifeOpt o = benign("o"); if (!twin) first = o; else o.rand_seed = first.rand_seed;      // the twin repeats the previous randomness under another memory image
    LifeRes b = sim::life(o, body(key, (twin ? i - 1 : i) & 1)); if (b.died_badly()) violation("crash", "randomness %ld: %s", (long)o.rand_seed, b.str().c_str());
    if (!b.ok()) violation("outcome", "randomness %ld: %s", (long)o.rand_seed, b.str().c_str());
    for (int id = 0; id < ns; ++id) {
      auto& s = sets[id]; auto& d = s.d; std::string k = key + std::to_string(id); V h = get_vecd(k + ".h"); if (h[0] != d.n || h[1] != d.nx || h[2] != d.ny || h[3] != d.pin) violation("shape", "%d samples of R^%d -> R^%d became %g of R^%g -> R^%g", d.n, d.nx, d.ny, h[0], h[1], h[2]);
      V g = get_vecd(k + ".g"); for (size_t j = 0; j + 1 + d.nx + d.ny <= g.size(); j += 1 + d.nx + d.ny) { const double* row = &d.v[(size_t)g[j] * d.cols()]; for (int c = 0; c < d.nx + d.ny; ++c) if (!close_rel(row[c], g[j + 1 + c], 1e-14)) violation("sample", "entry %d of sample %g is %.17g, not %.17g", c, g[j], g[j + 1 + c], row[c]); }
      V lo(d.ny, INFINITY), hi(d.ny, -INFINITY); for (int j = 0; j < d.n; ++j) for (int c = 0; c < d.ny; ++c) { double y = d.v[(size_t)j * d.cols() + d.nx + c]; lo[c] = std::min(lo[c], y); hi[c] = std::max(hi[c], y); }
      auto a = answers(k + ".v", s); if (a.size() != s.q.size()) violation("shape", "%zu answers to %zu queries", a.size(), s.q.size());
      for (size_t j = 0; j < a.size(); ++j) for (int c = 0; c < d.ny; ++c) {
        double y = a[j][c], tol = 1e-9 * std::max(std::fabs(lo[c]), std::fabs(hi[c])); if (!std::isfinite(y) || y < lo[c] - tol || y > hi[c] + tol) violation("range", "%d samples, query %zu: %.17g is not in [%g, %g]", d.n, j, y, lo[c], hi[c]);
        if (d.n <= 3) {      // all samples take part
          double num = 0, den = 0; for (int i2 = 0; i2 < d.n; ++i2) { const double* row = &d.v[(size_t)i2 * d.cols()]; double q = 0; for (int x = 0; x < d.nx; ++x) q += (row[x] - s.q[j][x]) * (row[x] - s.q[j][x]); double w = 1 / (1e-10 + q); num += w * row[d.nx + c]; den += w; }
          if (std::fabs(y - num / den) > 1e-7 * std::max(std::fabs(lo[c]), std::fabs(hi[c]))) violation("average", "%d samples, query %zu: %.17g, not %.17g", d.n, j, y, num / den); }
        if (s.at[j] >= 0) {  // asked at a stored sample
          const double* me = &d.v[(size_t)s.at[j] * d.cols()]; double near = INFINITY; for (int i2 = 0; i2 < d.n; ++i2) if (i2 != s.at[j]) { const double* row = &d.v[(size_t)i2 * d.cols()]; double q = 0; for (int x = 0; x < d.nx; ++x) q += (row[x] - me[x]) * (row[x] - me[x]); near = std::min(near, q); }
          bool ties = s.whole; for (int i2 = 0; i2 < d.n && !ties; ++i2) if (i2 != s.at[j]) for (int x = 0; x < d.nx; ++x) if (d.v[(size_t)i2 * d.cols() + x] == me[x]) ties = true;
          if (near >= 1e-3 && !ties) { double tol2 = 1e-6 * (hi[c] - lo[c]) + tol; if (std::fabs(y - me[d.nx + c]) > tol2) violation("stored", "%d samples, asked at sample %d: %.17g, not the stored %.17g", d.n, s.at[j], y, me[d.nx + c]); sim::count("at_stored"); } }
      }
      any = any || !a.empty();
      if (twin) { std::string pk = "b" + std::to_string(i - 1) + "." + std::to_string(id) + ".v"; if (sim::out_get(pk) != sim::out_get(k + ".v")) violation("leftover", "the same randomness under another memory image gives other values"); }
    }
    sim::count("lives_checked");
  }
  if (any) sim::nontrivial();
}
