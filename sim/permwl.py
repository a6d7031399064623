"""C20: one history executed under different vertex names, edge orders, orientations, traversals,
argument orders and interpreter hash seeds; everything observable must correspond.

The history is written in index space.  The first execution is the reference; every variant is
another execution, in this process (after the universe was replaced) or in a helper interpreter
that was started with another PYTHONHASHSEED."""
import itertools, json, os, random, signal, socket, struct, subprocess, sys, traceback
import gops
import mpwl
import core
from core import Violation, canon
from graphs_util import label

UND, STR, PAR, DIR = mpwl.UND, mpwl.STR, mpwl.PAR, mpwl.DIR
VOPS = ['_independent', '_dominating', '_covers', '_vcliques']
LABELS = ['int1', 'int0', 'intbig', 'str', 'tup', 'neg', 'strw', 'float', 'bytes', 'numstr', 'nest', 'uni', 'mixsign', 'comma', 'fresh', 'fresh', 'eqnum']
NITER = 1500


def label2(kind, i):
    if kind == 'float': return i * 0.5 - 1.25
    if kind == 'bytes': return b'k%d' % (i * 37 % 101)
    if kind == 'numstr': return str((i * 7 + 9) % 23 + 1)     # '10' sorts before '9'
    if kind == 'nest': return ((i % 2, 'x'), (i // 2,))
    if kind == 'uni': return ['\u03b1', '\u4e2d', '"q"', '\\', ' ', '\t', '(1, 2)', '{}', '%s', '#', 'None', '\U0001f600'][i % 12] + ('' if i < 12 else str(i))
    if kind == 'comma': return ['a,b', ',', '(1,2)', 'x, y', "',", '1,', 'I1\n.', ''][i % 8] + ('' if i < 8 else str(i))
    if kind == 'fresh': return tuple(('ab%d,ab%d' % (i // 2, i // 2 + i % 2)).split(','))
    if kind == 'eqnum': return i + 1
    if kind == 'mixsign': return (-1) ** i * (i + 1) * 10 ** (i % 3)
    return label(kind, i)


class Fresh(dict):
    """gives another object, equal to the last one, on every access"""

    def __getitem__(self, v):
        x = dict.__getitem__(self, v)
        self.n = getattr(self, 'n', 0) + 1
        if isinstance(x, tuple):
            s = x[0]
            return (s, s) if x[1] == s and self.n % 2 else tuple(''.join(list(c)) for c in x)
        return [int, float, int][self.n % 3](x) if x != 1 or self.n % 5 else True


class PWorld(gops.World):
    def __init__(self, init):
        gops.World.__init__(self, dict(init, labels='int1'))
        self.init = init
        perm = init.get('vperm')
        self.lab = {v: label2(init['labels'], perm[v] if perm else v) for v in range(self.nv)}
        assert len(set(self.lab.values())) == self.nv
        if init['labels'] in ('fresh', 'eqnum'):
            self.lab = Fresh(self.lab)
        self.unlab = {l: v for v, l in self.lab.items()}
        self.flip = init.get('flip', 0)

    def ledge(self, i, flip=False):
        u, v = self.edges[i]
        if bool(self.flip >> i & 1) != bool(flip):
            u, v = v, u
        return (self.lab[u], self.lab[v])


def shuffle_params(name, p, seed):
    """the same call with its collections in another order"""
    q = random.Random(seed)
    p = json.loads(json.dumps(p))
    for k in ('groups', 'deg', 'vs', 'roots', 'b', 'w', 'in', 'out', 'fs', 'lin'):
        if isinstance(p.get(k), list):
            q.shuffle(p[k])
    for g in p.get('groups') or []: q.shuffle(g)
    for l in p.get('lin') or []: q.shuffle(l[0])
    if name == 'reliability':
        q.shuffle(p['t'])
        q.shuffle(p['p'])
    if name == 'paths' and p.get('t'): q.shuffle(p['t'])
    if name == 'degree_distribution_graphs': q.shuffle(p['d'])
    return p


def close(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    return a == b


def execute(trace, var, sim):
    """runs the history in one presentation; returns what was observed, in index space"""
    init = dict(trace['init'])
    init.update(var['world'])
    for k, v in var.get('cfg', {}).items():
        sim.set(k, v)
    W = PWorld(init)
    W.setup()
    W.flip_used = W.flip
    out = []
    objs = []
    sh = random.Random(var['pseed'])
    for i, (name, p, f, q) in enumerate(trace['ops']):
        if var['pseed'] and not name.startswith('_'):
            p = shuffle_params(name, p, sh.random())
        if name in VOPS:
            out.append(vertex_op(W, name, p))
            continue
        if name == '_alg':
            if len(objs) < 1:
                out.append(None)
                continue
            a, b = objs[p['a'] % len(objs)], objs[p['b'] % len(objs)]
            k = p['f'] % 7
            r = (a | b if k == 0 else a & b if k == 1 else a - b if k == 2 else a ^ b if k == 3 else
                 a.maximal() if k == 4 else a.supergraphs(b) if k == 5 else a.non_subgraphs(b))
        elif name == 'reliability':
            out.append(W.C.reliability({W.ledge(i, fl and not W.directed): x for i, x, fl in p['p']}, [W.lab[v] for v in p['t']]))
            continue
        else:
            r = mpwl.MPWorkload.one(None, W, name, p, f)
        objs.append(r)
        out.append(observe(W, r, q))
    return out


def observe(W, r, q):
    o = {'n': len(r)}
    if len(r) <= NITER:
        o['fam'] = sorted(W.mask(x) for x in r)
    else:
        o['some'] = sorted(W.mask(x) for x in itertools.islice(r, 40))
    o['member'] = [int([W.ledge(i) for i in gops.bits(m & W.full)] in r) for m in q['member']]
    num = []
    fe = [int(x) for x in q['flips']]
    le = lambda i: W.ledge(i, (not W.directed) and fe[i % len(fe)])
    w = {le(i): x for i, x in enumerate(q['w'])}
    for fn in (r.max_iter, r.min_iter):
        num.append([sum(w[le(e)] for e in gops.bits(W.mask(x))) for x in itertools.islice(fn(w), 6)])
    num.append(r.probability({le(i): x for i, x in enumerate(q['p'])}))
    c = {le(i): x for i, x in enumerate(q['c'])}
    num.append([len(r.cost_le(c, q['k'])), len(r.cost_ge(c, q['k'])), len(r.cost_eq(c, q['k']))])
    e, v = q['e'] % W.m, W.lab[W.verts[q['v'] % len(W.verts)]]
    num += [len(r.including(le(e))), len(r.excluding(le(e))), len(r.including(W.obj([q['member'][0] & W.full])))]
    if not W.directed and not isinstance(v, tuple):     # a tuple means an edge there
        o['vert'] = [len(r.including(v)), len(r.excluding(v))]
    num += [len(r.len(k)) for k in range(0, min(W.m, 5))] + [len(r.larger(W.m // 2)), len(r.smaller(W.m // 2))]
    if o['n'] <= 5000:
        num += [len(r.minimal()), len(r.maximal())]
    num.append(len(~r))
    o['num'] = num
    return o


def vertex_op(W, name, p):
    from graphillion import VertexSetSet
    es = [W.ledge(i) for i in gops.bits(p['g'] & W.full)]
    if not es:
        return None
    C = VertexSetSet
    r = {'_independent': lambda: C.independent_sets(es, p['d']), '_dominating': lambda: C.dominating_sets(es, p['d']),
         '_covers': lambda: C.vertex_covers(es), '_vcliques': lambda: C.cliques(es)}[name]()
    o = {'n': len(r)}
    if len(r) <= NITER:
        o['fam'] = sorted(sorted(W.unlab[v] for v in s) for s in r)
    return o


class Helper:
    """an interpreter with its own hash seed, serving one request per connection in a forked process"""

    def __init__(self, seed):
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.sock.bind('')                    # an abstract address of its own
        self.addr = self.sock.getsockname()
        self.sock.listen(4)
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        fd = self.sock.fileno()
        # it ends when its standard input does
        self.p = subprocess.Popen(core.no_aslr() + [core.PY, os.path.abspath(__file__), os.path.dirname(sys.modules['_graphillion'].__file__), str(fd)],
                                  stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, env=env, pass_fds=[fd], cwd='/')
        self.sock.close()

    def ask(self, trace, k):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.settimeout(core.WALL_LIMIT)
        s.connect(self.addr)
        d = json.dumps([trace, k]).encode()
        s.sendall(struct.pack('<I', len(d)) + d)
        buf = b''
        while True:
            b = s.recv(1 << 16)
            if not b:
                break
            buf += b
        s.close()
        return json.loads(buf) if buf else None


def serve(argv):
    sys.path.insert(0, core.REPO)
    sys.path.insert(0, argv[0])
    import _graphillion, simlock
    simlock.install()
    import graphillion, gc, select
    from simapi import Sim
    sim = Sim(_graphillion.__file__)
    gc.disable(); gc.freeze()
    ls = socket.socket(fileno=int(argv[1]))
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        rd, _, _ = select.select([ls, 0], [], [])
        if 0 in rd and not os.read(0, 1):
            os._exit(0)
        if ls in rd:
            c, _ = ls.accept()
            if os.fork():
                c.close()
                continue
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (core.CPU_LIMIT, core.CPU_LIMIT + 5))
            resource.setrlimit(resource.RLIMIT_AS, (core.AS_LIMIT, core.AS_LIMIT))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            b = b''
            while len(b) < 4 or len(b) < 4 + struct.unpack('<I', b[:4])[0]:
                x = c.recv(1 << 16)
                if not x: os._exit(0)
                b += x
            trace, k = json.loads(b[4:])
            core.apply_cfg(sim, trace)
            random.seed(trace['seed'])
            try:
                a = ['ok', execute(trace, trace['vars'][k], sim)]
            except BaseException:
                a = ['exc', traceback.format_exc()[-3000:]]
            c.sendall(json.dumps(a).encode())
            c.close()
            os._exit(0)


class PermWorkload:
    helpers = ()

    def lane_prepare(self):
        base = int(os.environ.get('PYTHONHASHSEED') or 0)
        self.helpers = [Helper((base * 31 + 17 * k) % 4294967295) for k in (1, 2)]

    def gen(self, rng, tier, idx):
        kind = rng.choice(mpwl.KINDS + ['dir'] * 3)
        init = mpwl.big_world(rng, kind)
        init = {'kind': init['kind'], 'edges': init['edges']}
        W = gops.World(dict(init, labels='int1'))
        names = {'und': UND, 'str': STR, 'par': PAR, 'dir': DIR}[kind]
        ops = []
        n = rng.choice([1, 2, 2, 3] if tier == 'quick' else [2, 3, 4, 6])
        while len(ops) < n:
            x = rng.random()
            if x < 0.15 and kind != 'dir':
                ops.append([rng.choice(VOPS), {'g': W.full if rng.random() < 0.5 else rng.randrange(1, W.full + 1), 'd': rng.choice([1, 1, 2, 3])}, None, None])
                continue
            q = {'member': [rng.randrange(1 << W.m) for _ in range(4)] + [sum(1 << i for i in range(W.m) if rng.random() < 0.25) for _ in range(3)],
                 'w': [rng.choice([rng.randint(-3, 9), rng.randint(0, 5) * 0.5]) for _ in range(W.m)],
                 'p': [rng.choice([0.5, 0.25, 1.0, 0.0, rng.random()]) for _ in range(W.m)],
                 'c': [rng.randint(-2, 6) for _ in range(W.m)], 'k': rng.randint(-3, 2 * W.m), 'e': rng.randrange(99), 'v': rng.randrange(99),
                 'flips': [rng.randint(0, 1) for _ in range(5)]}
            if x < 0.3 and ops:
                ops.append(['_alg', {'a': rng.randrange(99), 'b': rng.randrange(99), 'f': rng.randrange(99)}, None, q])
                continue
            name = rng.choice(names)
            op = gops.get_op(W, name)
            p = op.gen(rng, W)
            if p is None:
                continue
            f = None
            if getattr(op, 'fam', False):
                f = mpwl.fam_of(rng, W)
                p['obj'] = int(f is not None and rng.random() < 0.4)
            ops.append([name, p, f, q])
        vars_ = [{'world': {'labels': 'int1', 'traversal': rng.choice(['as-is', 'bfs', 'greedy', 'dfs'])}, 'pseed': 0, 'where': -1}]
        for _ in range(rng.choice([2, 3, 3, 4])):
            w = {'labels': rng.choice(LABELS), 'vperm': rng.sample(range(W.nv), W.nv), 'order': rng.sample(range(W.m), W.m)}
            if rng.random() < 0.15: w['order'] = list(range(W.m))
            if kind != 'dir': w['flip'] = rng.choice([0, W.full, rng.randrange(W.full + 1)])
            w['traversal'] = rng.choice(['as-is', 'bfs', 'dfs', 'greedy', None])
            if w['traversal'] and rng.random() < 0.5: w['source'] = rng.randrange(99)
            v = {'world': w, 'pseed': rng.randrange(1, 1 << 30), 'where': rng.choice([-1, 0, 1])}
            if rng.random() < 0.2:
                v['cfg'] = {'THREADS': rng.choice([2, 4]), 'PROCS': 4, 'PREEMPT_MEAN': rng.choice([20, 300])}
            vars_.append(v)
        return {'cfg': {'GC_PPM': rng.choice([0, 0, 3000])}, 'init': init, 'ops': ops, 'vars': vars_}

    def run(self, t, ctx):
        ref = None
        for k, v in enumerate(t['vars']):
            ctx.step(k, 'variant %d' % k)
            if v['where'] >= 0 and self.helpers:
                ctx.stats['other_hash_seed'] += 1
                a = self.helpers[v['where'] % len(self.helpers)].ask(t, k)
                if a is None:
                    raise Violation('died', 'a process with another hash seed was terminated; presentation %r' % (v,))
                if a[0] != 'ok':
                    raise Violation('exception', 'with another hash seed: ' + a[1])
                out = a[1]
            else:
                out = execute(t, v, ctx.sim)
                for c in v.get('cfg', {}): ctx.sim.set(c, 0)
            ctx.stats['traversal:%s' % v['world'].get('traversal')] += 1
            ctx.stats['labels:' + v['world']['labels']] += 1
            ctx.state(core.H(json.dumps(v, sort_keys=True)))
            if ref is None:
                ref = out
                for o in t['ops']: ctx.stats['op:' + o[0]] += 1
                continue
            for i, (a, b) in enumerate(zip(ref, out)):
                self.compare(t, i, a, b, v)
        ctx.nontrivial = True
        ctx.sample = {'universe': t['init'], 'ops': [o[0] for o in t['ops']], 'variants': [v['world'] for v in t['vars']]}
        # sums of floats may differ in the last place between interpreters only through the order of terms
        ctx.rec(canon([o.get('n') if isinstance(o, dict) else None for o in ref]))

    def compare(self, t, i, a, b, v):
        name = t['ops'][i][0]
        where = '%s %r: reference presentation and %r' % (name, t['ops'][i][1], dict(v['world'], other_hash_seed=v['where'] >= 0))
        if not isinstance(a, dict):
            if not (a is None and b is None) and not close(a, b):
                raise Violation('mismatch:' + name, '%s give %r and %r' % (where, a, b))
            return
        if a['n'] != b['n']:
            raise Violation('mismatch:' + name, '%s find %d and %d' % (where, a['n'], b['n']))
        if a.get('fam') != b.get('fam'):
            raise Violation('mismatch:' + name, '%s find different ones: %s / %s' % (
                where, [x for x in a['fam'] if x not in b['fam']][:3], [x for x in b['fam'] if x not in a['fam']][:3]))
        if a.get('member') != b.get('member'):
            raise Violation('mismatch:member', '%s differ in membership %r %r' % (where, a['member'], b['member']))
        if a.get('vert') and b.get('vert') and a['vert'] != b['vert']:
            raise Violation('mismatch:number', '%s: including/excluding a vertex give %r and %r' % (where, a['vert'], b['vert']))
        if not close(a.get('num'), b.get('num')):
            raise Violation('mismatch:number', '%s differ in %r' % (where, [(j, x, y) for j, (x, y) in enumerate(zip(a['num'], b['num'])) if not close(x, y)]))


if __name__ == '__main__':
    serve(sys.argv[1:])
