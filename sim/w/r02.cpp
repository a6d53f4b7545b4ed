// R02: damaged measured-format files are never taken for good data.
#include "w/formats.h"
extern const char* const scenario_id = "R02";
static int load_into(const std::string& key, const FmtSpec& s) { auto d = fmt_load(s, s.file); if (!d) return 3; put_fmt(key, s, *d, s.f == FM_ASTM ? 400 : 60); return 0; }
// The sample lines an ASTM file still holds completely, read independently. False: it does not hold all it announces.
static bool astm_rows(const std::string& b, const FmtSpec& s, std::vector<double>& out) {
  size_t p = b.find("VARS "); if (p == std::string::npos) return false; p = b.find('\n', p); if (p == std::string::npos) return false; ++p; int got = 0;
  while (got < s.n && p < b.size()) { size_t e = b.find('\n', p); if (e == std::string::npos) e = b.size(); std::string l = b.substr(p, e - p); p = e + 1; if (l.find(',') == std::string::npos) continue; const char* c = l.c_str(); for (int k = 0; k < s.nx + s.ny; ++k) { char* q; double v = strtod(c, &q); if (q == c) return false; out.push_back(v); c = q; while (*c == ',' || *c == ' ') ++c; } ++got; }
  return got == s.n;
}
void scenario() {
  FmtSpec s = gen_fmt("d", 14, 40, true); if (s.f == FM_GRID) { s.f = FM_SLICE; s.args = ""; s.W = (int)K("w2", 1, 16); s.H = (int)K("h2", 1, 16); s.file = "m.exr"; }
  FmtSpec o2 = s; o2.seed += 1; if (s.f == FM_SLICE) { o2.W = (int)K("ow", 1, 16); o2.H = (int)K("oh", 1, 16); } if (s.f == FM_ASTM) o2.n = (int)K("on", 1, 30);
  std::string good = fmt_bytes(s), alt = fmt_bytes(o2); sim::vfs_put(s.file, good);
  LifeRes u = sim::life(benign_for(s, "u"), [&] { return load_into("u", s); });
  if (!u.ok()) violation("reload-failed", "loading a valid %s file: %s", fmt_name[s.f], u.str().c_str());
  FmtDump full; if (!get_fmt("u", full)) violation("harness", "no dump");
  int n = s.f == FM_MERL ? 1 : (int)K("cases", 1, s.f >= FM_UTIA && s.f != FM_ASTM ? 2 : 5);
  for (int i = 0; i < n; ++i) {
    std::string bytes = good, what; int kind = -1; size_t from = 0, to = 0; bool missing = false; LifeOpt o = benign_for(s, "f");
    int mode = (int)K("mode", 0, 9); bool readfault = mode >= 6; sim::vfs_set_unreadable(s.file, -1);
    if (mode == 9) { if (KB("missing", 20)) { missing = true; what = "file missing"; } else { long at = K("bad", 0, (long)good.size() - 1); sim::vfs_set_unreadable(s.file, at); what = "unreadable from byte " + std::to_string(at); } }
    else if (readfault) { o.max_transfer = 0; o.noise_read = o.noise_eintr = 0; LifeRes probe = u; probe.nops[sim::OP_READ] = 1 + (long)good.size() / 4096; what = draw_read_fault("x", o, probe); }
    else if (mode == 5 && s.f != FM_ASTM) { size_t extra = (size_t)K("extra", 1, 64); bytes.append(extra, (char)K("fill", 0, 255)); what = std::to_string(extra) + " bytes appended"; kind = 100; }
    else { what = damage("x", bytes, alt, DMG_NKIND - 1, kind, from, to); if (KB("hdr", s.f == FM_MERL ? 45 : 25) && kind != DMG_TRUNC && kind != DMG_TRUNC_NEAR_END && kind != DMG_STALE_TAIL) { bytes = good; size_t h = std::min<size_t>(good.size(), s.f == FM_MERL ? 12 : 380); from = (size_t)K("hfrom", 0, (long)h - 1); to = std::min(good.size(), from + (size_t)K("hlen", 1, 16)); Rng r(K("hseed", 1, 1000000)); for (size_t k = from; k < to; ++k) bytes[k] = kind == DMG_ZERO ? 0 : (char)r.next(); what = "header bytes " + std::to_string(from) + " to " + std::to_string(to) + (kind == DMG_ZERO ? " zeroed" : " garbled"); } }
    bool exact = readfault || kind == DMG_TRUNC || kind == DMG_TRUNC_NEAR_END || (kind == DMG_ZERO && s.f == FM_ASTM && from > good.find("VARS")) || bytes == good;
    bool shape = true; if (s.f == FM_MERL && !readfault) { int q[3] = {0, 0, 0}; if (bytes.size() >= 12) memcpy(q, bytes.data(), 12); shape = (long)q[0] * q[1] * q[2] == 90L * 90 * 180; }   // the announced sizes
    if (missing) sim::vfs_del(s.file); else sim::vfs_put(s.file, bytes);
    if (mode == 9 && !missing) { long at = K("bad", 0, (long)good.size() - 1); sim::vfs_set_unreadable(s.file, at); what = "unreadable from byte " + std::to_string(at); }
    std::string key = "x" + std::to_string(i);
    LifeRes x = sim::life(o, [&] { return load_into(key, s); });
    if (x.died_badly()) violation("crash", "%s file, %s: %s", fmt_name[s.f], what.c_str(), x.str().c_str());
    FmtDump d; bool ok = x.ok() && get_fmt(key, d);
    if (!readfault || x.fired || missing || mode == 9) sim::nontrivial();
    sim::count((std::string(fmt_name[s.f]) + (ok ? " accepted" : " rejected")).c_str());
    if (missing && ok) violation("missing-accepted", "%s: loading a file that is not there succeeded", fmt_name[s.f]);
    if (ok && !shape) violation("wrong-data", "%s file, %s: accepted, but the sizes in the header are not those of such a file", fmt_name[s.f], what.c_str());
    if (ok && exact) {
      std::string df = diff_fmt(full, d, 0, true);
      if (!df.empty() && s.f == FM_ASTM && (kind == DMG_TRUNC || kind == DMG_TRUNC_NEAR_END)) {     // the last number of the file may have lost digits without a trace
        std::vector<double> rows; if (astm_rows(bytes, s, rows) && d.h[0] == s.n && d.h[1] == s.nx && d.h[2] == s.ny) { std::vector<double> keep; df = "values that are not in the file"; int c = s.nx + s.ny; Rng r(s.seed + 5); bool same = true; for (int q = 0; q < 400; ++q) { int id = q == 0 ? 0 : q == 1 ? s.n - 1 : (int)r.below(s.n); for (int k = 0; k < c; ++k) same = same && same_bits(rows[id * c + k], d.v[q * c + k]); } if (same) df = ""; } }
      if (!df.empty()) violation("wrong-data", "%s file, %s: accepted, but %s", fmt_name[s.f], what.c_str(), df.c_str());
    }
    if (!ok && bytes == good && !missing && mode != 9 && !x.fired) violation("reload-failed", "%s file, %s: nothing is damaged, but %s", fmt_name[s.f], what.c_str(), x.str().c_str());
    if (s.f == FM_MERL && !KB("again", 20)) continue;
    LifeOpt p = o; p.garbage = (o.garbage + 1 + (int)K("mem2", 0, 4)) % 7; std::string k2 = key + "b";
    LifeRes y = sim::life(p, [&] { return load_into(k2, s); });
    if (y.died_badly()) violation("crash", "%s file, %s: %s", fmt_name[s.f], what.c_str(), y.str().c_str());
    FmtDump e; bool ok2 = y.ok() && get_fmt(k2, e);
    if (ok != ok2) violation("memory-dependent", "%s file, %s: %s with one memory image, %s with another", fmt_name[s.f], what.c_str(), ok ? "accepted" : "rejected", ok2 ? "accepted" : "rejected");
    if (ok) { std::string df = diff_fmt(d, e, 0, true); if (!df.empty()) violation("memory-dependent", "%s file, %s: with another memory image %s", fmt_name[s.f], what.c_str(), df.c_str()); }
  }
}
