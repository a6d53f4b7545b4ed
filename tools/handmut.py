#!/usr/bin/env python3
"""Runs checks against hand-written mutants of /repo, in copies under /tmp/hm-*.
usage: handmut.py WORKERS OUT SPEC.py [NAME ...]   SPEC.py defines M = [(name, "CHECK,CHECK", [(file, old, new), ...]), ...]"""
import sys, os, subprocess, threading, time, shutil
nw, out, spec = int(sys.argv[1]), sys.argv[2], sys.argv[3]; only = set(sys.argv[4:])
ns = {}; exec(open(spec).read(), ns); todo = [m for m in ns['M'] if not only or m[0] in only]; lock = threading.Lock()
for n, c, e in todo:   # all edits must apply
    for f, a, b in e:
        t = open('/repo/sources/' + f, errors='surrogateescape').read()
        if t.count(a) < 1: print('does not apply:', n, f, repr(a)); todo = [x for x in todo if x[0] != n]
def work(k):
    D = '/tmp/hm-%d' % k; R = D + '/repo'; V = D + '/verif'; os.makedirs(D, exist_ok=True)
    subprocess.run(['rsync', '-a', '--exclude', '_build', '--delete', '/repo/', R + '/']); subprocess.run(['rsync', '-a', '--exclude', '.git', '--exclude', 'seeded', '--exclude', 'replays', '--exclude', 'evidence', '--delete', '/verif/', V + '/'])
    env = dict(os.environ, SIM_REPO=R, SIM_WORKERS=str(max(1, 8 // nw)), SIM_MIN='0.1', SIM_TIME=str(int(40 * nw)))
    while True:
        with lock:
            if not todo: break
            n, checks, edits = todo.pop(0)
        for f, a, b in edits:
            p = R + '/sources/' + f; t = open(p, errors='surrogateescape').read(); open(p, 'w', errors='surrogateescape').write(t.replace(a, b, 1))
        res = []; t0 = time.time()
        for c in checks.split(','):
            try: p = subprocess.run(['python3', 'sim/check.py', c], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900); txt = p.stdout.decode(errors='replace'); rc = p.returncode
            except subprocess.TimeoutExpired: res.append(c + ' TIMEOUT'); continue
            v = [l for l in txt.split('\n') if 'VIOLATION' in l or ('[' in l and 'run ' in l)]
            res.append('%s %s %s' % (c, {0: 'SURVIVED', 1: 'killed'}.get(rc, 'rc=%d' % rc), (txt[-300:] if rc > 1 else ' '.join(v)[:230])))
            if rc == 1: break
        with lock: open(out, 'a').write('%s | %s | %ds\n' % (n, ' ; '.join(res).replace('\n', ' '), time.time() - t0))
        for f, a, b in edits: shutil.copy2('/repo/sources/' + f, R + '/sources/' + f); os.utime(R + '/sources/' + f)
ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
for t in ts: t.start()
for t in ts: t.join()
open(out, 'a').write('done\n')
