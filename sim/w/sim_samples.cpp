// A data plugin of the simulator: a small set of samples at random directions that is not a vertical_segment
// and counts how often each sample was set.  It makes the parallel conversion cheap enough to be run often.
#include <core/data.h>
#include <core/args.h>
#include <core/params.h>
#include <core/common.h>
#include <fstream>
#include <stdexcept>
#include <cmath>
#include <vector>
using namespace alta;
struct R { unsigned long long s; double u() { s += 0x9e3779b97f4a7c15ull; unsigned long long z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31; return (z >> 11) * (1.0 / 9007199254740992.0); } double u(double a, double b) { return a + (b - a) * u(); } };
class Samples : public data {
  std::vector<double> v; std::vector<int> sets; int nx, ny;
public:
  Samples(size_t n, const parameters& p, long seed, double below) : data(p, n), v(n * (p.dimX() + p.dimY()), -4321.0), sets(n, 0), nx(p.dimX()), ny(p.dimY()) {
    R r{(unsigned long long)seed};
    for (size_t i = 0; i < n; ++i) {
      double tl = r.u(0, 1.55), tv = r.u(0, 1.55), pl = r.u(-3, 3), pv = r.u(-3, 3); double c[6] = {std::sin(tl) * std::cos(pl), std::sin(tl) * std::sin(pl), std::cos(tl), std::sin(tv) * std::cos(pv), std::sin(tv) * std::sin(pv), std::cos(tv)}, x[8] = {0};
      if (r.u() < below) c[c[2] < c[5] ? 2 : 5] *= -1;       // the half vector stays above
      params::convert(c, params::CARTESIAN, p.input_parametrization(), x);
      for (int k = 0; k < nx; ++k) v[i * (nx + ny) + k] = x[k] - x[k] == 0 ? x[k] : 0.25;
    }
  }
  vec get(int i) const { vec x(nx + ny); for (int k = 0; k < nx + ny; ++k) x[k] = v.at((size_t)i * (nx + ny) + k); return x; }
  vec operator[](int i) const { return get(i); }
  vec value(const vec&) const { return vec::Zero(ny); }
  void set(int i, const vec& x) { sets.at(i)++; for (int k = 0; k < nx + ny; ++k) v.at((size_t)i * (nx + ny) + k) = x[k]; }
  void save(const std::string& f) const { std::ofstream o(f.c_str()); o.precision(17); for (int i = 0; i < size(); ++i) { o << sets[i]; for (int k = 0; k < nx + ny; ++k) o << ' ' << v[(size_t)i * (nx + ny) + k]; o << '\n'; } o.close(); if (!o) throw std::runtime_error("unable to write"); }
};
ALTA_DLL_EXPORT data* provide_data(size_t, const parameters& p, const arguments& a) { return new Samples(a.get_int("sim-n", 10), p, a.get_int("sim-seed", 1), a.get_float("sim-below", 0.0f)); }
