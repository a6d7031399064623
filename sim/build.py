"""Builds the simulated _graphillion extension from /repo's current sources.

Everything under /repo/src that the shipped extension compiles is compiled
unchanged, with -fsanitize=thread *instrumentation only* (its callbacks are the
simulator's preemption points), and linked with simrt.cc instead of libgomp.
Output: /verif/build/<hash>/_graphillion<suffix>; nothing is written in /repo.
"""
import hashlib, os, shutil, subprocess, sys, sysconfig, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
PY = '/opt/vp/venv/bin/python'
BUILD = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
WRAPS = ['malloc', 'free', 'calloc', 'realloc', '_Znwm', '_Znam', '_ZdlPv', '_ZdaPv',
         '_ZdlPvm', '_ZdaPvm', '_Z7bddinityy', 'PyEval_SaveThread', 'PyEval_RestoreThread',
         'dup', 'fdopen', 'close', 'write', 'read', 'pthread_mutex_lock']
CXXFLAGS = ['-O1', '-g1', '-fPIC', '-fwrapv', '-fno-strict-overflow', '-DNDEBUG', '-DB_64',
            '-DGRAPHILLION_SIM', '-fopenmp', '-w', '-fno-omit-frame-pointer']


def sources():
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cc'), recursive=True)):
        rel = os.path.relpath(f, os.path.join(REPO, 'src'))
        if rel.split(os.sep)[0] in ('test', 'mingw32'):
            continue
        out.append(f)
    return out


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'src'),):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.cc', '.h', '.hpp', '.c')):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode())
                    h.update(open(p, 'rb').read())
    for f in ('simrt.cc', 'build.py'):
        h.update(open(os.path.join(VERIF, 'sim', f), 'rb').read())
    return h.hexdigest()[:16]


def build(quiet=True):
    key = tree_hash()
    out = os.path.join(BUILD, key)
    so = os.path.join(out, '_graphillion' + sysconfig.get_config_var('EXT_SUFFIX'))
    if os.path.exists(so):
        return out
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(so):
        return out
    tmp = out + '.tmp'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    inc = sysconfig.get_path('include')
    env = dict(os.environ)
    cxx = ['g++']
    if os.path.exists('/usr/bin/ccache'):
        env['CCACHE_DIR'] = os.path.join(BUILD, 'ccache')
        env['CCACHE_MAXSIZE'] = '500M'
        cxx = ['ccache', 'g++']
    src = sources()

    def comp(s):
        simrt = s.endswith('simrt.cc')
        o = os.path.join(tmp, os.path.relpath(s, '/').replace('/', '_') + '.o')
        cmd = cxx + CXXFLAGS + ([] if simrt else ['-fsanitize=thread']) + [
            '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'src', 'SAPPOROBDD'),
            '-I' + inc, '-c', s, '-o', o]
        r = subprocess.run(cmd, env=env, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(' '.join(cmd) + '\n' + r.stderr)
            raise SystemExit(3)
        return o

    allsrc = src + [os.path.join(VERIF, 'sim', 'simrt.cc')]
    allsrc.sort(key=lambda s: -os.path.getsize(s) - (10**6 if s.endswith('graphset.cc') else 0))
    with ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        objs = list(pool.map(comp, allsrc))
    tmpso = os.path.join(tmp, os.path.basename(so))
    cmd = ['g++', '-shared', '-o', tmpso] + objs + ['-Wl,--wrap=' + w for w in WRAPS] + [
        '-Wl,-Bsymbolic', '-lpthread']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr)
        raise SystemExit(3)
    for o in objs:
        os.remove(o)
    # keep only a few old builds
    old = sorted((d for d in glob.glob(os.path.join(BUILD, '*')) if len(os.path.basename(d)) == 16),
                 key=os.path.getmtime)
    for d in old[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    os.rename(tmp, out)
    return out


if __name__ == '__main__':
    print(build())
