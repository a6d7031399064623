"""C13: the same search under many worker-thread configurations and interleavings, in one process.

Universes are larger than those of the brute-force workloads, so that several workers really share
the levels of a diagram; the reference is the search by one processor, which uses the
single-threaded builder and reducer."""
import gc
import gops
from core import Violation, canon
from graphs_util import rand_graph, rand_digraph

UND, STR, PAR, DIR = map(list, (gops.UNDIRECTED, gops.STRUCTURAL, gops.PARTITION, gops.DIRECTED))
MAXM = {'und': 24, 'str': 13, 'par': 18, 'dir': 16}
KINDS = ['und'] * 6 + ['str'] * 3 + ['par'] * 5 + ['dir']


def grid(a, b, diag=0.0, rng=None):
    es = []
    for i in range(a):
        for j in range(b):
            v = i * b + j
            if j + 1 < b: es.append([v, v + 1])
            if i + 1 < a: es.append([v, v + b])
            if diag and i + 1 < a and j + 1 < b and rng.random() < diag: es.append([v, v + b + 1])
    return es


def complete(n):
    return [[i, j] for i in range(n) for j in range(i + 1, n)]


def big_world(rng, kind):
    mx = MAXM[kind]
    if rng.random() < 0.15:
        return gops.gen_world(rng, directed=kind == 'dir', dense=kind in ('str', 'par'))
    if kind == 'dir':
        nv = rng.choice([4, 5, 5, 6, 7])
        edges = rand_digraph(rng, nv, rng.randint(6, min(mx, nv * (nv - 1))))
    else:
        k = rng.random()
        if k < 0.3:
            a, b = rng.choice([(2, 3), (2, 4), (3, 3), (2, 5), (3, 4), (2, 6), (4, 4), (3, 5)])
            edges = grid(a, b, rng.choice([0, 0, 0.4]), rng)
        elif k < 0.5:
            edges = complete(rng.choice([4, 5, 6, 7]))
        elif k < 0.6:
            a, b = rng.choice([(2, 4), (3, 3), (3, 4), (2, 6)])
            edges = [[i, a + j] for i in range(a) for j in range(b)]
        else:
            nv = rng.choice([5, 6, 7, 8, 9, 10])
            edges = rand_graph(rng, nv, rng.randint(min(mx, nv + 1), min(mx, nv * (nv - 1) // 2)), True)
        if rng.random() < 0.5:
            rng.shuffle(edges)
        if len(edges) > mx:
            edges = edges[:mx]
    init = {'kind': 'D' if kind == 'dir' else 'G', 'edges': edges, 'labels': rng.choice(['int1', 'int1', 'str', 'tup'])}
    init['traversal'] = rng.choice(['bfs', 'bfs', 'dfs', 'greedy', 'as-is'])
    # an index order must stay a permutation of a graph whose vertices are all touched
    vs = sorted({v for e in edges for v in e})
    init['edges'] = [[vs.index(u), vs.index(v)] for u, v in edges]
    return init


def fam_of(rng, W):
    """a family to search within: random subgraphs, sparse or dense, or a power set of some edges"""
    k = rng.random()
    if k < 0.55:
        return None
    if k < 0.8:
        q = rng.choice([0.15, 0.4, 0.6, 0.85])
        n = rng.choice([1, 5, 30, 200, 600])
        return ['masks', sorted({sum(1 << i for i in range(W.m) if rng.random() < q) for _ in range(n)})]
    if k < 0.9:
        return ['without', [rng.randrange(W.m) for _ in range(rng.choice([1, 1, 2]))]]
    return ['size', rng.randint(1, W.m), rng.randint(0, 1)]


def mk_fam(W, f):
    C = W.C
    if f[0] == 'masks':
        return W.obj(f[1])
    if f[0] == 'without':
        o = C({})
        for i in f[1]:
            o = o.excluding(W.ledge(i))
        return o
    o = C({})
    return o.larger(f[1]) if f[2] else o.smaller(f[1])


def configs(rng):
    out = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        out.append({'THREADS': rng.choice([1, 2, 2, 3, 4, 4, 5, 6, 7, 8]), 'PROCS': rng.choice([2, 2, 4, 8, 64]),
                    'STRATEGY': rng.randint(0, 2), 'PREEMPT_MEAN': rng.choice([0, 2, 7, 30, 200, 2000]),
                    'TEAM_SHRINK': rng.choice([0, 0, 0, 200, 700, 1000]),
                    'CONFLICT': rng.choice([0, 0, 3, 20, 60]),
                    'icv': rng.choice([0, 0, 0, 0, rng.randint(1, 8)])})
    return out


class MPWorkload:
    def gen(self, rng, tier, idx):
        kind = rng.choice(KINDS)
        init = big_world(rng, kind)
        W = gops.World(init)
        names = {'und': UND, 'str': STR, 'par': PAR, 'dir': DIR}[kind]
        ops = []
        n = rng.choice([1, 1, 2, 3] if tier == 'quick' else [1, 2, 3, 5])
        while len(ops) < n:
            name = rng.choice(names)
            if name == 'reliability' or rng.random() < 0.2:
                name = rng.choice(['reliability'] * 2 + names) if kind == 'par' else name
            op = gops.get_op(W, name)
            p = op.gen(rng, W)
            if p is None:
                continue
            f = None
            if getattr(op, 'fam', False):
                f = fam_of(rng, W)
                p['obj'] = int(f is not None and rng.random() < 0.4)
            ops.append([name, p, f, configs(rng)])
        return {'cfg': {'GC_PPM': rng.choice([0, 0, 0, 3000])}, 'init': init, 'ops': ops}

    def one(self, W, name, p, f):
        op = gops.get_op(W, name)
        if name == 'reliability':
            return W.C.reliability({W.ledge(i, False): x for i, x, _ in p['p']}, [W.lab[v] for v in p['t']])
        if not getattr(op, 'fam', False):
            return op.real(W, p)
        if f is None:
            return op.call(W, W.C, p, {})
        o = mk_fam(W, f)
        return op.call(W, o, p, {}) if p.get('obj') else op.call(W, W.C, p, {'graphset': o})

    def run(self, t, ctx):
        from graphillion import GraphSet
        sim = ctx.sim
        W = gops.World(t['init'])
        W.setup()
        ctx.may_die(False)
        seen = []
        for i, (name, p, f, cfgs) in enumerate(t['ops']):
            ctx.step(i, name)
            ctx.stats['op:' + name] += 1
            for k, v in (('PROCS', 1), ('THREADS', 1), ('TEAM_SHRINK', 0), ('PREEMPT_MEAN', 0), ('CONFLICT', 0)):
                sim.set(k, v)
            ref = self.one(W, name, p, f)
            num = isinstance(ref, float)
            n = ref if num else len(ref)
            for c in cfgs:
                for k, v in c.items():
                    if k != 'icv':
                        sim.set(k, v)
                if c['icv']:
                    GraphSet.omp_set_num_threads(c['icv'])
                    if GraphSet.omp_get_max_threads() != c['icv']:
                        raise Violation('mismatch:threads', 'omp_set_num_threads(%d) left %d' % (c['icv'], GraphSet.omp_get_max_threads()))
                if GraphSet.omp_get_num_procs() != c['PROCS']:
                    raise Violation('mismatch:procs', 'omp_get_num_procs')
                b = sim.counters()
                got = self.one(W, name, p, f)
                a = sim.counters()
                ctx.stats['searches'] += 1
                if a['switch'] > b['switch']:
                    ctx.stats['searches_interleaved'] += 1
                ctx.state(hash((i, sim.hash())))
                if num:
                    if not abs(got - ref) <= 1e-9:
                        raise Violation('mismatch:' + name, 'one processor: %r, configuration %r: %r' % (ref, c, got))
                    continue
                if got != ref or len(got) != n:
                    x, y = got - ref, ref - got
                    ex = lambda s: [W.show(W.mask(z)) for _, z in zip(range(3), iter(s))]
                    raise Violation('mismatch:' + name, 'one processor: %d subgraphs, configuration %r: %d; extra=%s missing=%s params=%s universe=%s' % (
                        n, c, len(got), ex(x), ex(y), p, W.edges))
            sim.set('PROCS', 1)
            seen.append(n)
            gc.collect()
        ctx.nontrivial = ctx.stats['searches_interleaved'] > 0
        ctx.sample = {'universe': t['init'], 'ops': [[o[0], o[3]] for o in t['ops']], 'sizes': seen}
        ctx.rec(canon(seen))
