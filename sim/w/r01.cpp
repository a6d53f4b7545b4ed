// R01: damaged native dataset files are never taken for good data.
#include "w/common.h"
extern const char* const scenario_id = "R01";
static int load_into(const std::string& key, const std::string& file, const std::string& args) {
  auto d = alta::plugins_manager::load_data(file, "", mkargs(args)); if (!d) return 3; put_dump(key, *d); return 0;
}
// "" or what is wrong with accepting `d` from the bytes `f` as a text file
// `kind`: numbers that describe the interval of each sample; `full`: the content of the undamaged bytes `good`
static std::vector<std::string> sample_lines(const std::string& f) { std::vector<std::string> r; std::stringstream s(f); std::string l; while (std::getline(s, l)) { std::istringstream in(l); if (l.empty() || l[0] == '#') continue; in >> std::ws; if (!in.eof()) r.push_back(l); } return r; }
static std::string judge_bounds(const std::string& f, const Dump& d, int kind, const std::string& good, const Dump& full) {
  auto rows = sample_lines(f), ref = sample_lines(good); char m[300]; int nc = d.nx + d.ny; size_t w = d.n ? d.ci.size() / d.n : 0;
  for (int i = 0; i < d.n && i < (int)rows.size(); ++i) {
    std::istringstream in(rows[i]); double v; for (int k = 0; k < nc + kind; ++k) if (!(in >> v)) { snprintf(m, sizeof m, "sample %d has an interval although its line does not hold all of it", i); return m; }
    if (i < (int)ref.size() && rows[i] == ref[i] && full.ci.size() == w * full.n) for (size_t k = 0; k < w; ++k) if (!same_bits(d.ci[i * w + k], full.ci[i * w + k])) { snprintf(m, sizeof m, "entry %zu of the interval of sample %d is %.17g, was %.17g", k, i, d.ci[i * w + k], full.ci[i * w + k]); return m; }
  }
  return "";
}
static std::string judge_text(const std::string& f, const Dump& d) {
  std::vector<std::string> rows; size_t pos = 0; bool last_open = false;
  while (pos < f.size()) { size_t e = f.find('\n', pos); bool open = e == std::string::npos; if (open) e = f.size(); std::string l = f.substr(pos, e - pos); pos = e + 1; std::istringstream in(l); if (l.empty() || l[0] == '#') continue; in >> std::ws; if (in.eof()) continue; rows.push_back(l); last_open = open; }
  char m[300]; int nc = d.nx + d.ny;
  if (d.n != (int)rows.size() && !(last_open && d.n == (int)rows.size() - 1)) { snprintf(m, sizeof m, "%d samples for the %zu sample lines of the file", d.n, rows.size()); return m; }
  for (int i = 0; i < d.n; ++i) { std::istringstream in(rows[i]); for (int k = 0; k < nc; ++k) { double v; if (!(in >> v)) { snprintf(m, sizeof m, "sample %d has value %d (%.17g) although its line does not", i, k, d.v[(size_t)i * nc + k]); return m; } if (!same_bits(v, d.v[(size_t)i * nc + k]) && v != d.v[(size_t)i * nc + k]) { snprintf(m, sizeof m, "value %d of sample %d is %.17g, the file has %.17g", k, i, d.v[(size_t)i * nc + k], v); return m; } } }
  return "";
}
static std::string judge_binary(const std::string& f, const Dump& d) {
  char m[300]; size_t b = f.find("#BEGIN_STREAM"); if (b == std::string::npos) return "a dataset although the file has no binary stream";
  b = f.find('\n', b); if (b == std::string::npos) return "a dataset although the file has no binary stream"; ++b;
  size_t row = (size_t)(d.nx + d.ny + d.kind * d.ny) * 8, need = row * d.n;
  if (d.kind < 0 || f.size() < b + need) { snprintf(m, sizeof m, "%d samples although the stream holds only %zu bytes of %zu", d.n, f.size() - b, need); return m; }
  for (int i = 0; i < d.n; ++i) for (int k = 0; k < d.nx + d.ny; ++k) if (memcmp(f.data() + b + row * i + 8 * k, &d.v[(size_t)i * (d.nx + d.ny) + k], 8)) { snprintf(m, sizeof m, "value %d of sample %d is not the stored one", k, i); return m; }
  return "";
}
void scenario() {
  DataSpec s = gen_data("d", sim::thorough() ? 400 : 120, true), old = s; { Rng r(K("oldseed", 1, 1000000)); old.n = std::max(1, (int)(s.n * K("oldn", 0, 3) / 2)); old.v.resize((size_t)old.n * old.cols()); for (auto& v : old.v) v = r.uni(-1, 1); }
  int fmt = (int)K("fmt", 0, 2);    // 0 text, 1 binary, 2 text written by hand with intervals
  auto write = [&](const DataSpec& q, const char* name) {
    if (fmt == 2) { std::ostringstream o; o.precision(16); int kind = s.kind; int c = q.nx + q.ny + kind * q.ny; o << "#DIM " << q.nx << " " << q.ny << "\n"; if (kind) o << "#VS " << kind << "\n"; for (int i = 0; i < q.n; ++i) { for (int k = 0; k < c; ++k) o << (k ? " " : "") << q.v[(size_t)i * q.cols() + k]; o << "\n"; } sim::vfs_put(name, o.str()); return; }
    LifeRes r = sim::life(benign("w"), [&] { auto d = make_vs(q); if (fmt == 1) save_binary(*d, name); else d->save(name); return 0; });
    if (!r.ok()) violation("save-failed", "saving a valid dataset: %s", r.str().c_str()); };
  write(s, "a.dat"); write(old, "old.dat");
  std::string good, alt; sim::vfs_get("a.dat", good); sim::vfs_get("old.dat", alt);
  LifeRes u = sim::life(benign("u"), [&] { return load_into("u", "a.dat", ""); });
  if (!u.ok()) { if (fmt == 2) sim::discard("hand-written file not accepted"); violation("reload-failed", "loading an undamaged file: %s", u.str().c_str()); }
  Dump full; get_dump("u", full);
  size_t hdr = fmt == 1 ? good.find('\n', good.find("#BEGIN_STREAM")) + 1 : good.find_first_not_of('#') == 0 ? 0 : [&] { size_t p = 0; while (p < good.size() && good[p] == '#') p = good.find('\n', p) + 1; return p; }();
  int n = (int)K("cases", 1, 4);
  for (int i = 0; i < n; ++i) {
    std::string bytes = good, what; int kind = -1; size_t from = 0, to = 0; bool missing = false; LifeOpt o = benign("f");
    int mode = (int)K("mode", 0, 9);
    sim::vfs_set_unreadable("a.dat", -1);
    bool readfault = mode >= 7;
    if (mode == 9) { if (KB("missing", 20)) { missing = true; what = "file missing"; } else { long at = K("bad", 0, (long)good.size() - 1); sim::vfs_set_unreadable("a.dat", at); what = "unreadable from byte " + std::to_string(at); } }
    else if (mode >= 7) { o.max_transfer = 0; o.noise_read = o.noise_eintr = 0; LifeRes probe = u; probe.nops[sim::OP_READ] = 1 + (long)good.size() / 4096; what = draw_read_fault("x", o, probe); }
    else what = damage("x", bytes, alt, DMG_NKIND - 1, kind, from, to);
    if (mode == 0) { int k2; size_t a, b; what += ", then " + damage("x", bytes, alt, DMG_NKIND - 1, k2, a, b); kind = std::max(kind, k2); from = std::min(from, a); to = std::max(to, b); }
    if (missing) sim::vfs_del("a.dat"); else sim::vfs_put("a.dat", bytes);
    std::string key = "x" + std::to_string(i);
    LifeRes x = sim::life(o, [&] { return load_into(key, "a.dat", ""); });
    const char* fn = fmt == 1 ? "binary" : "text";
    if (x.died_badly()) violation("crash", "%s file, %s: %s", fn, what.c_str(), x.str().c_str());
    Dump d; bool ok = x.ok() && get_dump(key, d);
    if (!readfault || x.fired || missing || mode == 9) sim::nontrivial();
    sim::count(ok ? "accepted" : "rejected");
    if (readfault) {
      if (missing && ok) violation("missing-accepted", "loading a file that is not there succeeded");
      if (ok) { std::string df = diff_dump(full, d, 0, true); if (!df.empty()) violation("read-error-accepted", "%s file, %s: accepted, but %s", fn, what.c_str(), df.c_str()); }
      else if (!missing && mode != 9 && !x.fired) violation("reload-failed", "%s file, %s: no fault took effect, but %s", fn, what.c_str(), x.str().c_str());
    } else {
      if (ok) {
        bool hdr_ok = from >= hdr && bytes.size() >= hdr;
        bool bin = fmt == 1 && hdr_ok, either = fmt == 1 && !hdr_ok;   // a damaged header may turn a binary file into a text one without samples
        if (hdr_ok && (d.nx != s.nx || d.ny != s.ny || d.pin != full.pin || d.pout != full.pout)) violation("wrong-shape", "%s file, %s: dimensions or parametrization changed", fn, what.c_str());
        if (hdr_ok && bin && d.n != s.n) violation("short-accepted", "binary file, %s: accepted with %d of %d announced samples", what.c_str(), d.n, s.n);
        std::string j = bin ? judge_binary(bytes, d) : judge_text(bytes, d);
        if (either && !j.empty()) { std::string j2 = judge_binary(bytes, d); if (j2.empty() || bytes.find("#BEGIN_STREAM") != std::string::npos) j = j2; }
        if (j.empty() && fmt != 1 && hdr_ok) j = judge_bounds(bytes, d, fmt == 2 ? s.kind : 0, good, full);
        if (j.empty() && kind == DMG_ZERO && mode != 0 && (fmt != 1 || from < hdr)) j = "a part of its text was never written";
        if (!j.empty()) violation("wrong-data", "%s file, %s: accepted, but %s", fn, what.c_str(), j.c_str());
      } else if (bytes == good) violation("reload-failed", "undamaged %s file rejected: %s", fn, x.str().c_str());
    }
    LifeOpt o2 = o; o2.garbage = (o.garbage + 1 + (int)K("mem2", 0, 4)) % 7; std::string k2 = key + "b";
    LifeRes y = sim::life(o2, [&] { return load_into(k2, "a.dat", ""); });
    Dump e; bool ok2 = y.ok() && get_dump(k2, e);
    if (y.died_badly()) violation("crash", "%s file, %s: %s", fn, what.c_str(), y.str().c_str());
    if (ok != ok2) violation("memory-dependent", "%s file, %s: %s with one memory image, %s with another", fn, what.c_str(), ok ? "accepted" : "rejected", ok2 ? "accepted" : "rejected");
    if (ok) { std::string df = diff_dump(d, e, 0, true); if (!df.empty()) violation("memory-dependent", "%s file, %s: with another memory image %s", fn, what.c_str(), df.c_str()); }
  }
}
