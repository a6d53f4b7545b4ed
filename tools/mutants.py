#!/usr/bin/env python3
"""Random small mutants of /repo's sources, to find what the checks miss. Works in copies under /tmp/mt-*.
usage: mutants.py WORKERS SECONDS OUT FILE:CHECK,CHECK[:FROM-TO] ...   (appends one line per mutant to OUT)"""
import os, re, sys, random, subprocess, time, difflib, threading, shutil
nw, secs, out = int(sys.argv[1]), float(sys.argv[2]), sys.argv[3]
jobs = []
for a in sys.argv[4:]:
    p = a.split(':'); jobs.append((p[0], p[1].split(','), tuple(map(int, p[2].split('-'))) if len(p) > 2 else None))
def code_lines(t):
    com = False; r = []
    for i, l in enumerate(t):
        s = l.strip()
        if com:
            if '*/' in s: com = False
            continue
        if s.startswith('/*'): com = '*/' not in s; continue
        if not s or s.startswith('//') or s.startswith('#') or 'std::cout' in s or 'std::cerr' in s or s.startswith('template') or s in '{};' : continue
        r.append(i)
    return r
OPS = [(r'<=', ['<']), (r'>=', ['>']), (r'(?<![<\->=])<(?![<=])', ['<=']), (r'(?<![>\->=])>(?![>=])', ['>=']), (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
       (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])2(?![\w.])', ['1', '3']), (r'(?<![\w.])3(?![\w.])', ['2']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r'\+\+', ['--']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'dimX\(\)', ['dimY()']), (r'dimY\(\)', ['dimX()']), (r'!(?=[\w(])', ['']), (r'\bif\s*\((?=.*\)\s*\{?$)', ['if(true || ', 'if(false && '])]
def mutate(text, rng, span):
    t = text.split('\n'); ls = [i for i in code_lines(t) if not span or span[0] <= i + 1 <= span[1]]
    for _ in range(100):
        i = rng.choice(ls); l = t[i]; s = l.strip()
        if '#include' in l: continue
        c = []
        for pat, reps in OPS:
            for m in re.finditer(pat, l):
                if pat[0] == '(' and ('<' in pat or '>' in pat) and re.search(r'(ptr|vector|pair|Ref|Map|cast|map|list|Matrix|Prototype|numeric_limits|get_\w+) ?<|<<|>>', l): continue
                if '"' in l[:m.start()] and l[:m.start()].count('"') % 2: continue
                for r in reps: c.append(l[:m.start()] + r + l[m.end():])
        if s.endswith(';') and s.count('(') == s.count(')') and not re.match(r'(const |auto |int |double |vec |std::|size_t |return|bool |unsigned|float |using |static |\w+\s+\w+\s*(=|;|\())', s) : c += [l[:len(l) - len(l.lstrip())] + ';'] * 2
        if re.match(r'return .*;', s) is None and s.startswith('return'): c = []
        if i + 1 < len(t) and s.endswith(';') and t[i+1].strip().endswith(';') and 'for' not in s and rng.random() < .3: c.append(None)
        if not c: continue
        n = rng.choice(c); u = list(t)
        if n is None: u[i], u[i+1] = u[i+1], u[i]
        else: u[i] = n
        if u != t: return '\n'.join(u), i + 1, s, (u[i].strip() if n is not None else 'swapped with: ' + t[i+1].strip())
    return None
lock = threading.Lock(); end = time.time() + secs; seen = set()
def work(k):
    rng = random.Random(os.getpid() * 100 + k + int(time.time())); D = '/tmp/mt-%d' % k; R = D + '/repo'; V = D + '/verif'
    os.makedirs(D, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '/repo/', R + '/']); subprocess.run(['rsync', '-a', '--exclude', '.git', '--exclude', 'seeded', '--exclude', 'replays', '--delete', '/verif/', V + '/'])
    env = dict(os.environ, SIM_REPO=R, SIM_WORKERS=str(max(1, 8 // nw)), SIM_MIN='0.1', SIM_TIME=str(40 * nw / 2))
    while time.time() < end:
        f, checks, span = rng.choice(jobs); o = open('/repo/sources/' + f, errors='surrogateescape').read(); m = mutate(o, rng, span)
        if not m: continue
        text, line, a, b = m
        with lock:
            if (f, text) in seen: continue
            seen.add((f, text))
        open(R + '/sources/' + f, 'w', errors='surrogateescape').write(text)
        res = 'SURVIVED'; t0 = time.time()
        for c in checks:
            try: p = subprocess.run(['python3', 'sim/check.py', c], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900); txt = p.stdout.decode(errors='replace')
            except subprocess.TimeoutExpired: res = 'timeout ' + c; break
            if p.returncode == 2: res = 'nobuild' if 'BUILD ERROR' in txt else 'rc2 ' + c + ' ' + txt[-200:].replace('\n', ' '); break
            if p.returncode: v = re.search(r'^violation (.*)', txt, re.M); res = 'killed ' + c + ' ' + (v.group(1)[:150] if v else '?'); break
        if res == 'SURVIVED':
            p = subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && bash /verif/tools/stable.sh 2>&1 | tail -1' % R], stdout=subprocess.PIPE); st = p.stdout.decode().strip()
            if st != 'missing: [] passed 37': res = 'stable ' + st[:100]
        with lock: open(out, 'a').write('%s | %s:%d | %s  ==>  %s | %.0fs\n' % (res, f, line, a[:110], b[:110], time.time() - t0))
        open(R + '/sources/' + f, 'w', errors='surrogateescape').write(o)
        for g in os.listdir(V + '/.build'):      # keep the cache small
            q = V + '/.build/' + g
            if g.endswith('.o') and os.path.getmtime(q) > t0 and os.path.getatime(q) < time.time() - 600: os.unlink(q)
ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
