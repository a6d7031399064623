"""Run engine: lanes of pristine processes, one forked child per simulated run.

A run is a pure function of its trace (JSON): {seed, cfg (simulator knobs), init, ops}.
Lane l is one interpreter with its own PYTHONHASHSEED; run i always runs in lane i % LANES.
"""
import base64, collections, faulthandler, gc, hashlib, json, mmap, os, random, resource, select, signal
import struct, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')
PY = '/opt/vp/venv/bin/python'
LANES = 8
CPU_LIMIT = int(os.environ.get('SIM_CPU_LIMIT', '90'))
WALL_LIMIT = int(os.environ.get('SIM_WALL_LIMIT', '240'))
AS_LIMIT = 6 << 30


def H(*parts):
    return int.from_bytes(hashlib.sha256('|'.join(map(str, parts)).encode()).digest()[:8], 'big')


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, kind + ': ' + msg)
        self.kind, self.msg = kind, msg


class Ctx:
    """What a workload sees while it runs."""

    def __init__(self, sim, shm):
        self.sim, self.shm = sim, shm
        self.stats = collections.Counter()
        self.dig = hashlib.sha1()
        self.states = set()
        self.nontrivial = False
        self.sample = None
        self.final_hash = None

    def step(self, i, name=''):
        self.shm[0:4] = struct.pack('<i', i)
        b = name.encode()[:59]
        self.shm[4:64] = b + b'\0' * (60 - len(b))
        self.dig.update(b'%d:%s;' % (i, b))

    def may_die(self, on):
        """While on, loud termination with a diagnostic is an allowed outcome."""
        self.shm[64] = 1 if on else 0

    def rec(self, *x):
        self.dig.update(repr(x).encode())

    def state(self, h):
        self.states.add(h & 0xffffffffffff)

    def fail(self, kind, msg):
        raise Violation(kind, msg)

    def check(self, cond, kind, msg):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)


def canon(x):
    """Printable, order-independent form of nested sets."""
    if isinstance(x, (set, frozenset)):
        return '{' + ','.join(sorted(canon(y) for y in x)) + '}'
    if isinstance(x, (list, tuple)):
        return '(' + ','.join(canon(y) for y in x) + ')'
    return repr(x)


def apply_cfg(sim, trace):
    sim.seed(trace['seed'])
    for k, v in trace.get('cfg', {}).items():
        sim.set(k, v)


def run_child(workload, sim, shm, trace, wfd):
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
    resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    random.seed(trace['seed'])
    sys.setrecursionlimit(3000)
    ctx = Ctx(sim, shm)
    out = {}
    c0 = sim.counters()
    apply_cfg(sim, trace)
    try:
        workload.run(trace, ctx)
    except Violation as v:
        out['viol'] = [v.kind, v.msg[:4000]]
    except MemoryError:
        # a workload that tolerates memory exhaustion handles it itself
        out['viol'] = ['exception:MemoryError', traceback.format_exc()[-3000:]]
    except Exception as e:
        out['viol'] = ['exception:' + type(e).__name__, traceback.format_exc()[-3000:]]
    sim.set('NEW_FAIL_AT', 0)
    sim.arm(0)
    c1 = sim.counters()
    out['ctr'] = {k: c1[k] - c0[k] for k in c1 if c1[k] != c0[k]}
    ctx.dig.update(b'%d' % (sim.hash() if ctx.final_hash is None else ctx.final_hash))
    out['hash'] = ctx.dig.hexdigest()
    out['stats'] = dict(ctx.stats)
    out['states'] = [s for s in ctx.states][:200]
    out['nt'] = bool(ctx.nontrivial)
    out['sample'] = ctx.sample
    data = json.dumps(out).encode()
    while data:
        n = os.write(wfd, data)
        data = data[n:]
    os._exit(0)


def fork_run(workload, sim, trace):
    """Runs one trace in a forked child; returns the classified outcome."""
    shm = mmap.mmap(-1, 4096)
    r, w = os.pipe()
    er, ew = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r); os.close(er)
            os.dup2(ew, 2); os.close(ew)
            dn = os.open('/dev/null', os.O_RDWR)
            os.dup2(dn, 0); os.dup2(dn, 1)
            run_child(workload, sim, shm, trace, w)
        except BaseException:
            try:
                os.write(2, traceback.format_exc().encode()[-4000:])
            except Exception:
                pass
            os._exit(98)
    os.close(w); os.close(ew)
    buf, err = [], []
    deadline = time.time() + WALL_LIMIT
    fds = [r, er]
    hung = False
    while fds:
        left = deadline - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            hung = True
            break
        rd, _, _ = select.select(fds, [], [], left)
        for fd in rd:
            b = os.read(fd, 1 << 16)
            if not b:
                fds.remove(fd)
            elif fd == r:
                buf.append(b)
            else:
                err.append(b)
                if sum(map(len, err)) > 1 << 20:
                    err = [b''.join(err)[-20000:]]
    os.close(r); os.close(er)
    _, st = os.waitpid(pid, 0)
    err = b''.join(err).decode('utf8', 'replace')
    step = struct.unpack('<i', shm[0:4])[0]
    opname = bytes(shm[4:64]).split(b'\0')[0].decode('utf8', 'replace')
    may_die = shm[64] == 1
    shm.close()
    where = ' at step %d (%s)' % (step, opname)
    out = None
    if buf:
        try:
            out = json.loads(b''.join(buf))
        except ValueError:
            out = None
    if out is None:
        out = {'ctr': {}, 'stats': {}, 'states': [], 'nt': False, 'hash': 'none', 'sample': None}
        if hung or (os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL)):
            out['viol'] = ['hang', 'no progress within the step budget' + where]
        elif os.WIFSIGNALED(st):
            sig = os.WTERMSIG(st)
            # an abort with a diagnostic is "loud"; a wild access is never acceptable
            if may_die and sig == signal.SIGABRT and err.strip():
                out['loud'] = 1
                out['stats'] = {'loud_exit': 1}
            else:
                out['viol'] = ['crash:' + signal.Signals(sig).name, 'process killed by %s%s\n%s' % (
                    signal.Signals(sig).name, where, err[-1500:])]
        else:
            code = os.WEXITSTATUS(st)
            if code == 98:
                out['harness'] = err[-3000:]
            elif code == 97:
                out['viol'] = ['deadlock', err[-600:].strip() + where]
            elif may_die and code not in (0, 97) and err.strip():
                out['loud'] = 1
                out['stats'] = {'loud_exit': 1}
            else:
                out['viol'] = ['exit:%d' % code, 'process terminated%s\n%s' % (where, err[-1500:])]
    if 'viol' in out:
        out['step'] = step
        out['opname'] = opname
        if out['viol'][0].startswith(('mismatch', 'exception')) or True:
            out['viol'][1] += '\n[step %d: %s]' % (step, opname)
    return out


# ------------------------------------------------------------------ lane process
def lane_main(argv):
    build, wname, prop = argv[:3]
    sys.path.insert(0, REPO)
    sys.path.insert(0, build)
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    import _graphillion
    assert os.path.dirname(os.path.abspath(_graphillion.__file__)) == os.path.abspath(build), _graphillion.__file__
    import simlock
    simlock.install()
    import graphillion
    assert os.path.abspath(graphillion.__file__).startswith(os.path.abspath(REPO)), graphillion.__file__
    from simapi import Sim
    import workloads
    sim = Sim(_graphillion.__file__)
    wl = workloads.get(prop)
    if hasattr(wl, 'lane_prepare'):
        wl.lane_prepare()
    gc.disable()
    gc.freeze()
    inp, outp = sys.stdin, os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in inp:
        job = json.loads(line)
        if job['t'] == 'gen':
            rng = random.Random(job['seed'])
            trace = wl.gen(rng, job['tier'], job['idx'])
            trace['seed'] = job['seed']
            trace['idx'] = job['idx']
        else:
            trace = job['trace']
        t0 = time.time()
        res = fork_run(wl, sim, trace)
        res['dt'] = time.time() - t0
        res['id'] = job.get('id')
        if job['t'] == 'gen' and ('viol' in res or 'harness' in res or job.get('want')):
            res['trace'] = trace
        outp.write(json.dumps(res) + '\n')
        outp.flush()


class Lane:
    def __init__(self, build, prop, lane, vseed, hashseed=None):
        self.lane = lane
        self.hashseed = H('hashseed', vseed, lane) % 4294967295 if hashseed is None else hashseed
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=str(self.hashseed), PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1')
        env.pop('PYTHONPATH', None)
        cmd = [PY, os.path.join(HERE, 'lane.py'), build, 'x', prop]
        pre = no_aslr()
        self.p = subprocess.Popen(pre + cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True,
                                  cwd='/')
        self.busy = None

    def send(self, job):
        self.busy = job
        try:
            self.p.stdin.write(json.dumps(job) + '\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            raise SystemExit('lane %d died' % self.lane)

    def recv(self):
        line = self.p.stdout.readline()
        self.busy = None
        if not line:
            raise SystemExit('lane %d died' % self.lane)
        return json.loads(line)

    def call(self, job):
        self.send(job)
        return self.recv()

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(5)
        except Exception:
            self.p.kill()


_aslr = None


def no_aslr():
    global _aslr
    if _aslr is None:
        try:
            ok = subprocess.run(['setarch', '-R', 'true'], capture_output=True).returncode == 0
        except OSError:
            ok = False
        _aslr = ['setarch', '-R'] if ok else []
    return _aslr

