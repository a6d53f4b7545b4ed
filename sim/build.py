"""Content-keyed builder: compiles only what a check needs from /repo's working tree."""
import hashlib, os, re, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
B = os.path.join(VERIF, '.build')
RT = os.path.join(VERIF, 'sim', 'rt'); W = os.path.join(VERIF, 'sim', 'w')
INC = ['-I' + os.path.join(VERIF, 'sim', 'wrap'), '-I' + REPO + '/sources', '-I' + REPO + '/external', '-I' + REPO + '/external/quadprog++', '-isystem', '/usr/include/eigen3', '-isystem', '/opt/vp/include']
BASE = ['-DALTA_PLUGIN_DIRECTORY="/usr/lib/alta_plugins"', '-fopenmp', '-O1', '-fPIC', '-w']
INSTR = ['-fsanitize=thread', '-fsanitize-coverage=trace-pc']
WRAP = ['-Wl,--wrap=memcpy', '-Wl,--wrap=memmove', '-Wl,--wrap=memset']
GXX = 'g++'

def sh256(*xs):
    h = hashlib.sha256()
    for x in xs:
        h.update(x if isinstance(x, bytes) else x.encode()); h.update(b'\0')
    return h.hexdigest()[:24]
def rd(p):
    with open(p, 'rb') as f: return f.read()
_hdr = {}
def headers_hash(root, exts=('.h', '.hh', '.hpp', '.inl', '.inc', '')):
    if root in _hdr: return _hdr[root]
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        if d.startswith(REPO) and ('pybind11' in d or 'Catch' in d): continue
        for f in sorted(fs):
            e = os.path.splitext(f)[1]
            if e in ('.h', '.hh', '.hpp', '.inl', '.inc'):
                h.update(f.encode()); h.update(rd(os.path.join(d, f)))
    _hdr[root] = h.hexdigest(); return _hdr[root]
class BuildError(Exception): pass
def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-4000:])

class Builder:
    def __init__(self, jobs=None):
        os.makedirs(B, exist_ok=True)
        self.pool = ThreadPoolExecutor(jobs or os.cpu_count() or 4)
        self.cm = rd(REPO + '/CMakeLists.txt').decode(errors='replace')
        self.repo_h = sh256(headers_hash(os.path.join(VERIF, 'sim', 'wrap')), headers_hash(REPO + '/sources'), headers_hash(REPO + '/external'))
        self.rt_h = headers_hash(RT) + headers_hash(W) + headers_hash(os.path.join(VERIF, 'sim', 'stub'))
    def obj(self, src, flags, key):
        k = sh256(key, src, ' '.join(flags), rd(src)); o = os.path.join(B, k + '.o')
        if not os.path.exists(o):
            t = o + '.%d.tmp' % os.getpid()
            run([GXX] + flags + ['-c', src, '-o', t]); os.rename(t, o)
        return o
    def core_sources(self):
        m = re.search(r'add_library\(core\s+STATIC(.*?)\)', self.cm, re.S)
        return [os.path.join(REPO, s) for s in re.findall(r'\S+\.cpp', m.group(1))]
    def plugin_src(self, name):
        if name.startswith('sim_'): return os.path.join(W, name + '.cpp')     # a plugin of the simulator
        m = re.search(r'^\s*alta_add_plugin\(\s*%s\s+(\S+?)\s*\)' % re.escape(name), self.cm, re.M)
        if not m: raise BuildError('no plugin ' + name)
        return os.path.join(REPO, 'sources/plugins', m.group(1))
    def soft_src(self, name):
        if name == 'python': return os.path.join(REPO, 'sources/python/alta.cpp')
        m = re.search(r'^\s*alta_add_soft\(\s*%s\s+(\S+?)\s*\)' % re.escape(name), self.cm, re.M)
        if not m: raise BuildError('no soft ' + name)
        return os.path.join(REPO, 'sources/softs', m.group(1))
    def repo_flags(self, std='gnu++11', extra=(), instr=True):
        return BASE + list(extra) + (INSTR if instr else []) + ['-std=' + std] + INC
    def link(self, out, objs, args):
        k = sh256(out, *objs, *args); stamp = out + '.key'
        if os.path.exists(out) and os.path.exists(stamp) and rd(stamp).decode() == k: return out
        t = out + '.%d.tmp' % os.getpid()
        run([GXX] + args + ['-o', t] + objs + [a for a in args if a.startswith('-l')]); os.rename(t, out)
        with open(stamp, 'w') as f: f.write(k)
        return out
    def build(self, prop, workload, plugins=(), softs=()):
        """Returns (exe, plugin dir)."""
        d = os.path.join(B, prop); os.makedirs(d, exist_ok=True)
        futs = {}
        sub = lambda n, *a: futs.setdefault(n, self.pool.submit(self.obj, *a))
        slow = ('nonlinear_fitter_ceres', 'nonlinear_fitter_eigen', 'rational_fitter_parallel', 'data_rbf', 'data_utia', 'data_brdf_slice', 'rational_fitter_quadprog')
        plugins = sorted(plugins, key=lambda p: (p not in slow, slow.index(p) if p in slow else 0))
        for p in plugins:
            std, extra = 'gnu++11', []
            if p == 'nonlinear_fitter_ceres': std, extra = 'gnu++17', ['-DGFLAGS_IS_A_DLL=0', '-DGLOG_CUSTOM_PREFIX_SUPPORT']
            sub('p:' + p, self.plugin_src(p), self.repo_flags(std, extra), self.repo_h + (self.rt_h if p.startswith('sim_') else ''))
        if any(p in ('rational_fitter_quadprog', 'rational_fitter_parallel') for p in plugins):
            sub('qp', REPO + '/external/quadprog++/QuadProg++.cc', self.repo_flags(), self.repo_h)
        for w in workload:
            sub('w:' + w, os.path.join(W, w), self.repo_flags(extra=['-I' + os.path.join(VERIF, 'sim')]), self.repo_h + self.rt_h)
        for s in softs:
            py = s == 'python'; stub = os.path.join(VERIF, 'sim', 'stub')   # the Python module, against a stand-in for pybind11
            sub('s:' + s, self.soft_src(s), self.repo_flags(extra=['-I' + stub] if py else ()), self.repo_h + (headers_hash(stub) if py else ''))
        for c in self.core_sources(): sub('c:' + c, c, self.repo_flags(), self.repo_h)
        for r in ('heap', 'vfs', 'sched', 'misc', 'main'):
            sub('r:' + r, os.path.join(RT, r + '.cpp'), ['-O2', '-g1', '-std=gnu++17', '-fPIC', '-w', '-fno-builtin-malloc', '-fno-threadsafe-statics', '-fno-omit-frame-pointer', '-I' + RT], self.rt_h)
        err = None
        for f in futs.values():
            try: f.result()
            except BuildError as e: err = err or e
        if err: raise err
        R = {k: f.result() for k, f in futs.items()}
        core = self.link(os.path.join(d, 'libaltacore_sim.so'), [R[k] for k in R if k[:2] in ('c:', 'w:')], ['-shared', '-fPIC', '-ldl', '-lz'] + WRAP)
        libs = {'nonlinear_fitter_ceres': ['-lceres', '-lglog', '-lgflags'], 'nonlinear_fitter_nlopt': ['-lnlopt'], 'data_rbf': ['-lflann']}
        lf = []
        for p in plugins:
            objs = [R['p:' + p]] + ([R['qp']] if p in ('rational_fitter_quadprog', 'rational_fitter_parallel') else [])
            lf.append(self.pool.submit(self.link, os.path.join(d, 'lib%s.so' % p), objs, ['-shared', '-fPIC', '-Wl,-soname,lib%s.so' % p] + libs.get(p, []) + ['-lz', '-llz4'] + WRAP))
        for s in softs:
            lf.append(self.pool.submit(self.link, os.path.join(d, 'soft_%s.so' % s), [R['s:' + s]], ['-shared', '-fPIC', '-lz'] + WRAP))
        for f in lf: f.result()
        exe = os.path.join(d, 'sim')
        self.link(exe, [R['r:' + r] for r in ('heap', 'vfs', 'sched', 'misc', 'main')] + [core], ['-rdynamic', '-Wl,-rpath,$ORIGIN', '-ldl', '-lpthread'])
        return exe, d
