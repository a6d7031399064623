"""Searches over long universes (up to some hundred edges, narrow frontiers): members drawn from the result,
sets next to them and sets built by hand are classified with the set-by-set definitions of gops; membership
must agree, and the number of subgraphs must not depend on the way the search is composed."""
import itertools, random
import gops, mpwl, ttref
from core import Violation, canon
from graphwl import omp_cfg

SIZE = {'und': (20, 300), 'str': (14, 30), 'par': (14, 44), 'dir': (16, 120)}
FAST_STR = ['regular_graphs', 'regular_bipartite_graphs', 'bipartite_graphs', 'degree_distribution_graphs', 'letter_P_graphs',
            'forbidden_induced_subgraphs', 'claw_graphs', 'diamond_graphs', 'gem_graphs', 'odd_hole_graphs', 'claw_free_graphs',
            'diamond_free_graphs', 'split_graphs', 'threshold_graphs', 'cographs']
SLOW = {'degree_distribution_graphs': 30, 'graphs': 120, 'balanced_partitions': 26, 'weighted_induced_graphs': 40, 'partitions': 40,
        'bicliques': 60, 'cliques': 120}


def long_world(rng, kind):
    lo, hi = SIZE[kind]
    m = int(lo * (hi / lo) ** (rng.random() ** (2 if kind == 'und' else 1)))
    k = rng.random()
    if k < 0.3:                                   # ladder with gaps
        n = m // 3 + 1
        es = [[2 * i, 2 * i + 2] for i in range(n)] + [[2 * i + 1, 2 * i + 3] for i in range(n)] + [[2 * i, 2 * i + 1] for i in range(n + 1)]
        es = [e for e in es if rng.random() < 0.93]
    elif k < 0.5:                                 # random tree of small width and a few chords
        es = [[max(0, i - rng.randint(1, 3)), i] for i in range(1, m * 4 // 5 + 1)]
        es += [[i, i + rng.randint(2, 3)] for i in range(0, m * 4 // 5 - 3) if rng.random() < 0.25]
    elif k < 0.65:                                # a ring with chords
        es = [[i, (i + 1) % m] for i in range(m)]
        es += [[i, i + 2] for i in range(m - 3) if rng.random() < 0.15]
    elif k < 0.8:                                 # several components
        es, b = [], 0
        while len(es) < m:
            c = rng.choice([[[0, 1]], [[0, 1], [1, 2], [0, 2]], [[0, 1], [1, 2], [2, 3], [3, 0], [0, 2]], [[0, i] for i in range(1, 6)]])
            es += [[u + b, v + b] for u, v in c]
            b = max(map(max, es)) + 1
    else:                                         # power of a path
        es = [[i, i + d] for i in range(m // 2) for d in (1, 2)]
        es = [e for e in es if rng.random() < 0.95]
    es = [list(e) for e in {tuple(e): 0 for e in es}][:hi]
    if rng.random() < 0.4:                        # local disorder
        for i in range(len(es) - 2):
            if rng.random() < 0.3: es[i], es[i + 1] = es[i + 1], es[i]
    if kind == 'dir':
        es = [e if rng.random() < 0.7 else e[::-1] for e in es]
        es += [e[::-1] for e in es if rng.random() < 0.2]
        es = es[:hi]
    vs = sorted({v for e in es for v in e})
    ix = {v: i for i, v in enumerate(vs)}
    init = {'kind': 'D' if kind == 'dir' else 'G', 'edges': [[ix[u], ix[v]] for u, v in es], 'labels': rng.choice(['int1', 'int0', 'str', 'tup'])}
    init['traversal'] = rng.choice(['bfs', 'bfs', 'as-is', 'greedy']) if len(es) < 60 else rng.choice(['bfs', 'bfs', 'as-is'])
    if kind == 'dir' or k >= 0.5: init['traversal'] = rng.choice(['bfs', 'as-is'])
    if 'as-is' == init['traversal']:
        # the edges by their last vertex keep the frontier narrow
        init['edges'].sort(key=lambda e: (max(e), min(e)))
    return init


def built(rng, W):
    """an edge set made by hand: tree, path, matching, cycle, induced set, partition, whole graph, nothing, ..."""
    k = rng.randrange(9)
    idx = list(range(W.m))
    rng.shuffle(idx)
    if k == 0: return 0
    if k == 1: return W.full
    if k == 2:                                      # spanning forest
        p = list(range(W.nv))

        def find(x):
            while p[x] != x: x = p[x]
            return x
        r = 0
        for i in idx:
            a, b = find(W.edges[i][0]), find(W.edges[i][1])
            if a != b:
                p[a] = b
                r |= 1 << i
        return r
    if k == 3:                                      # maximal matching
        seen, r = set(), 0
        for i in idx:
            if not seen & set(W.edges[i]):
                seen |= set(W.edges[i])
                r |= 1 << i
        return r
    if k in (4, 5):                                 # a walk without repeats; closed up for 5
        adj = {}
        for i, (u, v) in enumerate(W.edges):
            adj.setdefault(u, []).append((v, i))
            if not W.directed: adj.setdefault(v, []).append((u, i))
        x = rng.choice(W.verts)
        seen, es = [x], []
        for _ in range(rng.choice([3, 10, 400])):
            c = [(y, i) for y, i in adj.get(x, []) if y not in seen]
            b = [(y, i) for y, i in adj.get(x, []) if y in seen and i not in es]
            if k == 5 and len(es) > 1 and b and (not c or rng.random() < 0.4):
                y, i = rng.choice(b)
                j = seen.index(y)
                return sum(1 << e for e in es[j:]) | 1 << i
            if not c: break
            x, i = rng.choice(c)
            seen.append(x)
            es.append(i)
        return sum(1 << e for e in es)
    if k == 6:                                      # induced by a ball
        x = rng.choice(W.verts)
        s = {x}
        for _ in range(rng.randint(1, 8)):
            s |= {b for a, b in W.edges if a in s and rng.random() < 0.7} | {a for a, b in W.edges if b in s and rng.random() < 0.7}
        return W.induced_mask(s)
    if k == 7:                                      # partition
        c = {v: rng.randrange(3) if rng.random() < 0.3 else 0 for v in W.verts}
        q = rng.randrange(W.nv)
        return sum(1 << i for i, (u, v) in enumerate(W.edges) if c[u] == c[v] and (u < q) == (v < q))
    return sum(1 << i for i in range(W.m) if rng.random() < rng.choice([0.1, 0.5, 0.9]))


class LongWorkload:
    def __init__(self, names, kind):
        self.names, self.kind = [x for x in names if x != 'reliability' and (kind != 'str' or x in FAST_STR)], kind

    def gen(self, rng, tier, idx):
        init = long_world(rng, self.kind)
        W = gops.World(init)
        ops = []
        for _ in range(20):
            name = rng.choice(self.names)
            if W.m > SLOW.get(name, 999):
                continue
            p = gops.get_op(W, name).gen(rng, W)
            if p is None or len(str(p)) > 3000:
                continue
            ops.append([name, p, rng.randrange(1 << 30)])
            if len(ops) >= rng.choice([1, 2, 3]):
                break
        cfg = {'GC_PPM': rng.choice([0, 0, 200])}
        cfg.update(omp_cfg(rng, 0.3))
        return {'cfg': cfg, 'init': init, 'ops': ops}

    def run(self, t, ctx):
        W = gops.World(t['init'])
        W.setup()
        ctx.may_die(False)
        n = 0
        sizes = []
        for i, (name, p, seed) in enumerate(t['ops']):
            ctx.step(i, name)
            ctx.stats['op:' + name] += 1
            op = gops.get_op(W, name)
            r = op.real(W, p)
            rng = random.Random(seed)
            size = r.len() if hasattr(r, 'len') else len(r)
            cand = [built(rng, W) for _ in range(14)]
            mem = [W.mask(x) for x in itertools.chain(itertools.islice(r, 3), itertools.islice(r.rand_iter(), 6))]
            for x in mem:
                if not op.pred(W, p, x):
                    raise Violation('mismatch:' + name, 'a member that is none: %s params=%s universe=%s' % (W.show(x), p, W.edges))
            for x in mem + cand[:3]:
                for _ in range(3 if self.kind == 'str' else 6):
                    y = x
                    for _ in range(rng.choice([1, 1, 2, 2, 3])): y ^= 1 << rng.randrange(W.m)
                    cand.append(y)
            good = 0
            for x in cand:
                a = [W.ledge(j) for j in gops.bits(x)] in r
                b = bool(op.pred(W, p, x))
                good += b
                if a != b:
                    raise Violation('mismatch:' + name, 'membership %s, by definition %s: %s params=%s universe=%s' % (a, b, W.show(x), p, W.edges))
            if (size == 0) != (not mem):
                raise Violation('mismatch:len', '%s: %r subgraphs, but iteration yields %d' % (name, size, len(mem)))
            if getattr(op, 'fam', False) and rng.random() < 0.7:
                # searching within two complementary families finds everything once
                e = W.ledge(rng.randrange(W.m))
                C = W.C
                parts = [op.call(W, C, p, {'graphset': f}) for f in (C({}).including(e), C({}).excluding(e))]
                if parts[0] & parts[1] or parts[0] | parts[1] != r:
                    raise Violation('mismatch:' + name, 'searches within the families with and without %s do not add up; params=%s universe=%s' % (e, p, W.edges))
                n += 1
            ctx.stats['hits'] += good
            ctx.state(hash((name, W.m, size)))
            n += len(cand)
            sizes.append(str(size))
        ctx.nontrivial = n > 0
        ctx.sample = {'universe_size': [W.m, len(W.verts)], 'ops': [o[0] for o in t['ops']], 'classified': n}
        ctx.rec(n, sizes)
