"""Builds native harnesses against /repo's current sources and runs them (replay of failed
obligations, labelled bounded stand-ins, cross-check of the extraction)."""
import os, subprocess, tempfile, shutil, hashlib, glob, time
from concurrent.futures import ThreadPoolExecutor
from . import cxx, units

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = 'g++'
FLAGS = ['-O0', '-w', '-pthread']


def run(cmd, timeout):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -99, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'


def objdir():
    d = os.path.join(cxx.CACHE, 'obj-' + cxx.tree_hash())
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
        old = sorted(glob.glob(os.path.join(cxx.CACHE, 'obj-*')), key=os.path.getmtime)
        for x in old[:-6]: shutil.rmtree(x, ignore_errors=True)
    os.utime(d)
    return d


class BuildError(Exception): pass


def compile_objs(groups):
    """groups: list of (name, [sources]) compiled as unity objects"""
    d = objdir()
    jobs = []
    objs = []
    for name, srcs in groups:
        h = hashlib.sha256()
        for s in srcs:
            h.update(s.encode())
            if os.path.isabs(s): h.update(open(s, 'rb').read())
        o = os.path.join(d, '%s-%s.o' % (name, h.hexdigest()[:12]))
        objs.append(o)
        if not os.path.exists(o): jobs.append((name, srcs, o))

    def one(j):
        name, srcs, o = j
        tmp = o + '.%d.cpp' % os.getpid()
        with open(tmp, 'w') as f:
            for s in srcs: f.write('#include "%s"\n' % (s if os.path.isabs(s) else os.path.join(cxx.REPO, s)))
        to = o + '.%d.tmp' % os.getpid()
        rc, out, err = run([CXX] + FLAGS + cxx.include_flags() + ['-I', os.path.join(VERIF, 'native'), '-c', tmp, '-o', to], 600)
        os.unlink(tmp)
        if rc == 0: os.replace(to, o)
        return rc, err
    with ThreadPoolExecutor(8) as ex:
        for rc, err in ex.map(one, jobs):
            if rc != 0: raise BuildError(err[:3000])
    return objs


def model_groups():
    srcs = units.sources('src/Model', 'src/Auxillary', 'src/Newtonsolver')
    n = 8
    gs = []
    for i in range(n):
        part = srcs[i::n]
        if part: gs.append(('m%d' % i, part))
    return gs


def opt_groups():
    srcs = [s for s in units.sources('src/IpoptWrapper', 'src/Optimization_helpers') if not s.endswith('Wrapper.cpp') and not s.endswith('Initialvalues.cpp')]
    return [('o%d' % i, [s]) for i, s in enumerate(srcs)] + [('w%d' % i, [s]) for i, s in enumerate(
        [s for s in units.sources('src/IpoptWrapper') if s.endswith(('/Wrapper.cpp', '/Initialvalues.cpp'))])]


def build(harness, parts=('model',), libs=()):
    src = os.path.join(VERIF, 'native', harness + '.cpp')
    groups = [('stub', [os.path.join(VERIF, 'native', 'stub.cpp')]), (harness, [src])]
    if 'model' in parts: groups += model_groups()
    if 'opt' in parts: groups += opt_groups()
    objs = compile_objs(groups)
    exe = os.path.join(objdir(), harness + '-' + hashlib.sha256('|'.join(objs).encode()).hexdigest()[:10])
    if not os.path.exists(exe):
        t = exe + '.%d' % os.getpid()
        rc, out, err = run([CXX] + FLAGS + objs + list(libs) + ['-o', t], 300)
        if rc != 0: raise BuildError(err[:3000])
        os.replace(t, exe)
    return exe


def execute(exe, seed, n, timeout=200):
    """returns (fails, info): fails = [(case, detail)], info = dict of counters"""
    wd = tempfile.mkdtemp(prefix='gv_native_')
    try:
        p = subprocess.run([exe, str(seed), str(n), wd], capture_output=True, text=True, timeout=timeout, cwd=wd, errors='replace')
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        out = e.stdout.decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        rc, err = -99, 'timeout'
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    fails, info = [], {'cases': 0}
    last = ''
    for l in out.splitlines():
        if l.startswith('FAIL '):
            a, _, b = l[5:].partition(' | ')
            fails.append((a.strip(), b))
        elif l.startswith('CASES '): info['cases'] = int(l.split()[1])
        elif l.startswith('RUN '): last = l[4:]
    info['rc'] = rc
    if rc not in (0, -99) and not fails:
        fails.append(('crash', 'exit status %s after %s; %s' % (rc, last, err[-600:])))
    if rc == -99: info['timeout'] = True
    return fails, info
