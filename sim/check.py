#!/usr/bin/env python3
"""Front end of one check: build, search, gate, minimise, report, write evidence.
usage: check.py ID            (VERIF_SEED, VERIF_TIER from the environment)
       check.py ID --replay FILE [--verbose]
"""
import json, os, re, subprocess, sys, time, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build as bld
from props import PROPS
VERIF = bld.VERIF

def log(*a): print(*a, file=sys.stderr, flush=True)
class Sim:
    def __init__(self, pid, thorough):
        self.pid, self.p, self.thorough = pid, PROPS[pid], thorough
        t = time.time()
        b = bld.Builder()
        self.exe, self.dir = b.build(pid, self.p['work'], self.p.get('plugins', ()), self.p.get('softs', ()))
        self.build_s = time.time() - t
        self.tmp = os.path.join(self.dir, 'run'); os.makedirs(self.tmp, exist_ok=True)
    def env(self):
        e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME')}
        e['LC_ALL'] = 'C'
        return e
    def cmd(self, *a):
        c = [self.exe, '--dldir', self.dir] + list(a)
        if self.thorough: c.append('--thorough')
        return c
    def search(self, seed, n, tmax, workers):
        ps = []
        for w in range(workers):
            out = os.path.join(self.tmp, 'out%d.json' % w)
            cnt = (n - w + workers - 1) // workers
            if cnt <= 0: continue
            ps.append((subprocess.Popen(self.cmd('--seed', str(seed), '--from', str(w), '--stride', str(workers), '--n', str(cnt), '--time', str(tmax), '--out', out), env=self.env(), stdout=subprocess.DEVNULL, stderr=open(os.path.join(self.tmp, 'err%d' % w), 'w')), out, w))
        recs = []
        for p, out, w in ps:
            p.wait()
            ok = False
            if os.path.exists(out):
                for l in open(out):
                    try: r = json.loads(l)
                    except ValueError: continue
                    recs.append(r); ok = ok or r['type'] == 'summary'
            if not ok: raise RuntimeError('worker %d died (%s): %s' % (w, p.returncode, open(os.path.join(self.tmp, 'err%d' % w)).read()[-500:]))
        return recs
    def replay_file(self, path, verbose=False):
        r = subprocess.run(self.cmd('--replay', path) + (['--verbose'] if verbose else []), env=self.env(), stdout=subprocess.PIPE, stderr=None if verbose else subprocess.DEVNULL)
        recs = [json.loads(l) for l in r.stdout.decode(errors='replace').splitlines() if l.startswith('{"type":"replay"')]
        if not recs: raise RuntimeError('replay produced nothing')
        return recs[-1]
def write_replay(path, pid, seed, run, thorough, knobs, sched, comment=()):
    with open(path, 'w') as f:
        f.write('# replay of a simulated run of property %s: python3 sim/check.py %s --replay <this file>\n' % (pid, pid))
        f.write('property %s\nseed %d\nrun %d\nthorough %d\n' % (pid, seed, run, thorough))
        for k, v in knobs.items(): f.write('knob %s %d\n' % (k, v))
        if sched is not None:
            for l in sorted({x[0] for x in sched[1]} | set(sched[0])): f.write('explicit_sched %d\n' % l)
            for l, p, t in sched[1]: f.write('sched %d %d %d\n' % (l, p, t))
        for c in comment: f.write('# ' + c.replace('\n', '\n# ') + '\n')

class Minimiser:
    def __init__(self, sim, seed, rec, budget_s):
        self.s, self.seed, self.run, self.tag = sim, seed, rec['run'], rec['tag']
        self.end = time.time() + budget_s; self.n = 0; self.path = os.path.join(sim.tmp, 'min.replay')
        self.rec = rec
        self.knobs = {k[0]: k[1] for k in rec['knobs']}; self.lo = {k[0]: k[2] for k in rec['knobs']}
        self.sched = None
        self.over = {}
    def attempt(self, over, sched):
        if time.time() > self.end: return None
        self.n += 1
        write_replay(self.path, self.s.pid, self.seed, self.run, int(self.s.thorough), over, sched)
        try: r = self.s.replay_file(self.path)
        except Exception: return None
        return r if r['verdict'] == 1 and r['tag'] == self.tag else None
    def go(self):
        # pin everything the original run drew, so that structure changes do not re-draw other knobs
        over = dict(self.knobs)
        r = self.attempt(over, None)
        if not r: over = {}; r = self.attempt(over, None)
        if not r: return None, None, None
        best = r
        changed = True; rounds = 0
        while changed and rounds < 3 and time.time() < self.end:
            changed = False; rounds += 1
            for k in [x[0] for x in best['knobs']]:
                cur = {x[0]: x[1] for x in best['knobs']}
                if k not in cur: continue
                lo = self.lo.get(k, None)
                if lo is None: lo = [x[2] for x in best['knobs'] if x[0] == k][0]
                v = cur[k]
                if v == lo: continue
                cands = [lo]; d = (v - lo) // 2
                if d > 0: cands.append(lo + d)
                if v - 1 not in cands and v - 1 >= lo: cands.append(v - 1)
                for c in cands:
                    o = dict(over); o[k] = c; r = self.attempt(o, None)
                    if r: over, best, changed = o, r, True; break
                if time.time() > self.end: break
        sched = None
        if best['sched']:
            lives = sorted({x[0] for x in best['sched']}); full = [tuple(x) for x in best['sched']]
            r = self.attempt(over, (lives, full))
            if r:
                sched = (lives, full); best = r
                n = 2
                while len(sched[1]) >= 1 and time.time() < self.end:
                    L = sched[1]; size = max(1, len(L) // n); red = False
                    for i in range(0, len(L), size):
                        cand = L[:i] + L[i + size:]
                        r = self.attempt(over, (lives, cand))
                        if r: sched = (lives, cand); best = r; red = True; n = max(n - 1, 2); break
                        if time.time() > self.end: break
                    if not red:
                        if size == 1: break
                        n = min(n * 2, len(L))
        return over, sched, best

def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) tag=(\S+) match=/(.*)/ (.*)$', l)
            if m: out.append(m.groups())
    return out

def main():
    pid = sys.argv[1]
    thorough = os.environ.get('VERIF_TIER', 'quick') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    if '--replay' in sys.argv:
        path = sys.argv[sys.argv.index('--replay') + 1]
        th = bool(re.search(r'^thorough 1', open(path).read(), re.M))
        s = Sim(pid, th); r = s.replay_file(path, '--verbose' in sys.argv)
        print('verdict=%d hash=%s tag=%s\n%s\n%s' % (r['verdict'], r['hash'], r['tag'], r['msg'], r['notes']))
        for f in r['fired']: print('fault', f)
        if r['verdict'] == 1: print('VIOLATION property=%s replay=%s' % (pid, path)); return 1
        return 0
    try: s = Sim(pid, thorough)
    except bld.BuildError as e: log('BUILD ERROR', str(e)); return 2
    p = s.p; tier = 'thorough' if thorough else 'quick'
    n = p['runs'][1 if thorough else 0]; tmax = p.get('time', (55, 600))[1 if thorough else 0]
    if os.environ.get('SIM_RUNS'): n = int(os.environ['SIM_RUNS'])
    if os.environ.get('SIM_TIME'): tmax = float(os.environ['SIM_TIME'])
    workers = int(os.environ.get('SIM_WORKERS', min(8, os.cpu_count() or 1)))
    try: recs = s.search(seed, n, tmax, workers)
    except RuntimeError as e: log('ERROR', e); return 2
    summ = [r for r in recs if r['type'] == 'summary']
    viol = sorted([r for r in recs if r['type'] == 'violation'], key=lambda r: r['run'])
    harn = [r for r in recs if r['type'] == 'harness']
    samples = sorted([r for r in recs if r['type'] == 'sample'], key=lambda r: r['run'])
    # determinism: some runs again in fresh processes; the event hash must be the same
    det = 0; path = os.path.join(s.tmp, 'det.replay'); nondet = []
    for r in samples[:4]:
        write_replay(path, pid, seed, r['run'], int(thorough), {}, None)
        q = s.replay_file(path); det += 1
        if q['hash'] != r['hash'] or q['verdict'] != r['verdict']: nondet.append(r['run'])
    known = [k for k in known_findings() if k[0] == pid]; hit = {}
    rest = []
    for v in viol:
        for k in known:
            if v['tag'] == k[1] and re.search(k[2], v['msg']): hit.setdefault(k, v); break
        else: rest.append(v)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k[3]))
    code = 0; nv = 0; seen = set(); gated = []
    rep = os.path.join(VERIF, 'replays'); 
    for v in rest:
        if v['tag'] in seen or len(seen) >= 3: continue
        write_replay(path, pid, seed, v['run'], int(thorough), {}, None)
        a = s.replay_file(path); b = s.replay_file(path)
        if a['hash'] != b['hash'] or a['hash'] != v['hash'] or a['verdict'] != 1 or a['tag'] != v['tag']:
            log('ERROR: violation of run %d does not replay (%s/%s/%s %s): %s' % (v['run'], v['hash'], a['hash'], b['hash'], a['tag'], v['msg'])); gated.append(v['run']); continue
        seen.add(v['tag'])
        m = Minimiser(s, seed, v, float(os.environ.get('SIM_MIN') or p.get('min_s', 15) * (4 if thorough else 1)))
        over, sched, best = m.go()
        if best is None: over, sched, best = {}, None, a
        os.makedirs(rep, exist_ok=True)
        rp = os.path.join(rep, '%s-seed%d-run%d.replay' % (pid, seed, v['run']))
        def wr(): write_replay(rp, pid, seed, v['run'], int(thorough), over, sched, [best['tag'], best['msg'], best['notes']] + ['fault: life %d class %d op %d %s arg %d on %s' % tuple(f) for f in best['fired']] + ['minimised with %d replays' % m.n])
        wr(); c = s.replay_file(rp); d = s.replay_file(rp)
        if c['verdict'] != 1 or c['hash'] != d['hash']:
            over, sched, best = {}, None, a; wr()
        print('violation [%s] run %d: %s' % (best['tag'], v['run'], best['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, rp)); code = 1; nv += 1
    if code == 0 and (gated or nondet): log('ERROR: nondeterminism in runs', gated, nondet); code = 2
    if code == 0 and harn:
        for h in harn[:3]: log('HARNESS ERROR run %d: %s\n%s' % (h['run'], h['msg'], h['notes']))
        code = 2
    tot = lambda k: sum(x[k] for x in summ)
    def dsum(k):
        o = {}
        for x in summ:
            for a, b in x[k].items(): o[a] = o.get(a, 0) + b
        return {a: b for a, b in sorted(o.items()) if b}
    hashes = set(); [hashes.update(x['hashes']) for x in summ]
    wall = time.time() - t0; sw = max([x['wall'] for x in summ] + [0.001])
    ev = dict(property=pid, tier=tier, seed=seed, level=p.get('level', 'exploration'), wall_s=round(wall, 2), violations=nv,
      assumptions=p.get('assume', []) + ['process-crash model: what a completed write call transferred survives the process', 'code compiled with the repository\'s optimisation level and asserts, plus instrumentation callbacks'],
      coverage=dict(evaluations=tot('runs'), distinct_nontrivial=len(hashes), rule=p['rule'] + ' Distinct = different hash of the complete event log (all I/O operations with their results, decisions, faults, schedule switches, outcomes).',
        samples=[dict(run=r['run'], hash=r['hash'], knobs={k[0]: k[1] for k in r['knobs'][:60]}, faults=r['fired'][:10], trace=r['notes'].splitlines()[:12], schedule_switches=r['sched'][:10]) for r in samples[:3]],
        nontrivial_runs=tot('nontrivial'), discarded_runs=tot('discarded'), simulated_lives=tot('lives'), simulated_steps=tot('steps'), simulated_io_operations=dsum('ops'), faults_injected=dict(dsum('faults'), failed_allocations=tot('allocfail'), disk_full=tot('capfull'), transparent_disturbances=tot('noise')), life_endings=dsum('life_ends'), schedule_switches=tot('switches'), preemption_points=tot('points'), simulated_time_s=round(tot('sim_ns') / 1e9, 3), counters=dsum('counters'),
        seeded_runs_per_hour=int(tot('runs') / sw * 3600), search_wall_s=round(sw, 2), build_s=round(s.build_s, 2), determinism_reruns=det, known_findings_seen=len(hit),
        components_real=p['real'], components_stub=['libc file, clock, environment, random and loader entry points', 'malloc family'] + (['libgomp, pthread synchronisation'] if p.get('mt') else [])))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d runs (%d non-trivial, %d distinct), %d lives, build %.1fs, search %.1fs, total %.1fs, exit %d' % (pid, tot('runs'), tot('nontrivial'), len(hashes), tot('lives'), s.build_s, sw, time.time() - t0, code))
    return code
if __name__ == '__main__': sys.exit(main())
