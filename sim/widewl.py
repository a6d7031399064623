"""Searches over universes of 10 to ~18 edges compared exactly with the truth-table reference (ttref):
frontiers, levels and tables that the set-by-set brute force cannot reach, under seeded worker schedules,
collections and tiny tables; earlier results stay alive, are combined and re-verified."""
import gc, itertools
import gops, mpwl, ttref
from core import Violation, canon
from graphwl import mem_cfg, omp_cfg

MAXM = {'und': 18, 'str': 13, 'par': 15, 'dir': 15}


class WideWorkload:
    def __init__(self, names, kind):
        self.names, self.kind = names, kind

    def gen(self, rng, tier, idx):
        mx = MAXM[self.kind] + (2 if tier == 'thorough' and rng.random() < 0.2 else 0)
        while True:
            init = mpwl.big_world(rng, self.kind)
            if len(init['edges']) > mx:
                init['edges'] = init['edges'][:mx]
                vs = sorted({v for e in init['edges'] for v in e})
                init['edges'] = [[vs.index(u), vs.index(v)] for u, v in init['edges']]
            W = gops.World(init)
            if len(W.verts) <= 12:
                break
        if rng.random() < 0.3: init['source'] = rng.randrange(99)
        ops = []
        n = rng.choice([1, 2, 3, 4] if tier == 'quick' else [2, 4, 8])
        while len(ops) < n:
            if ops and rng.random() < 0.2:
                ops.append(['_alg', {'a': rng.randrange(99), 'b': rng.randrange(99), 'f': rng.randrange(99)}, None])
                continue
            name = rng.choice(self.names)
            op = gops.get_op(W, name)
            p = op.gen(rng, W)
            if p is None:
                continue
            f = None
            if getattr(op, 'fam', False):
                f = mpwl.fam_of(rng, W)
                p['obj'] = int(f is not None and rng.random() < 0.4)
            ops.append([name, p, f])
        cfg = mem_cfg(rng, 0.4)
        if 'GC_PPM' in cfg: cfg['GC_PPM'] = min(cfg['GC_PPM'], 5000)
        cfg.update(omp_cfg(rng, 0.4))
        if 'THREADS' in cfg: cfg['CONFLICT'] = rng.choice([0, 3, 20])
        return {'cfg': cfg, 'init': init, 'ops': ops}

    def table(self, T, o, what):
        tt = T.of_dump(o.dumps())
        if len(o) != ttref.pop(tt):
            raise Violation('mismatch:len', '%s: len %d for %d subgraphs' % (what, len(o), ttref.pop(tt)))
        return tt

    def differ(self, W, T, kind, what, got, want):
        raise Violation(kind, '%s: got %d want %d subgraphs; extra=%s missing=%s universe=%s' % (
            what, ttref.pop(got), ttref.pop(want), [W.show(x) for x in T.masks(got & ~want, 3)],
            [W.show(x) for x in T.masks(want & ~got, 3)], W.edges))

    def run(self, t, ctx):
        W = gops.World(t['init'])
        W.setup()
        T = ttref.TT(W, W.order)
        ctx.may_die(False)
        pool = []
        for i, (name, p, f) in enumerate(t['ops']):
            ctx.step(i, name)
            ctx.stats['op:' + name] += 1
            if name == '_alg':
                if not pool: continue
                (a, x), (b, y) = pool[p['a'] % len(pool)], pool[p['b'] % len(pool)]
                k = p['f'] % 5
                r, want = ((a | b, x | y), (a & b, x & y), (a - b, x & ~y), (a ^ b, x ^ y), (~a, T.NOT(x)))[k]
                got = self.table(T, r, 'algebra')
                if got != want: self.differ(W, T, 'mismatch:algebra', 'operation %d' % k, got, want)
                pool.append((r, want))
                continue
            op = gops.get_op(W, name)
            if name == 'reliability':
                got = W.C.reliability({W.ledge(i, fl and not W.directed): x for i, x, fl in p['p']}, [W.lab[v] for v in p['t']])
                want = ttref.reliability(T, p)
                if not abs(got - want) < 1e-9:
                    raise Violation('mismatch:reliability', 'got %r want %r params=%s universe=%s' % (got, want, p, W.edges))
                continue
            want = ttref.expect(T, name, p)
            if not getattr(op, 'fam', False):
                r = op.real(W, p)
            elif f is None:
                r = op.call(W, W.C, p, {})
            else:
                o = mpwl.mk_fam(W, f)
                x = T.of_dump(o.dumps())
                r = op.call(W, o, p, {}) if p.get('obj') else op.call(W, W.C, p, {'graphset': o})
                want &= x
                if T.of_dump(o.dumps()) != x:
                    raise Violation('isolation:graphset', 'the search changed its graphset argument')
                pool.append((o, x))
            got = self.table(T, r, name)
            if got != want:
                self.differ(W, T, 'mismatch:' + name, '%s %s %s' % (name, p, 'within %s' % (f,) if f else ''), got, want)
            for g in itertools.islice(r, 3):
                k = T.of_masks([W.mask(g)])
                if not k & want: raise Violation('mismatch:iter', 'iteration yields %s' % (g,))
            pool.append((r, want))
            ctx.state(hash((i, want & ((1 << 61) - 1), ttref.pop(want))))
            gc.collect()
        ctx.step(len(t['ops']), 'final')
        for k, (o, x) in enumerate(pool):
            got = T.of_dump(o.dumps())
            if got != x: self.differ(W, T, 'isolation:final', 'live result #%d changed' % k, got, x)
        ctx.nontrivial = True
        ctx.sample = {'universe': t['init'], 'ops': [o[0] for o in t['ops']], 'sizes': [ttref.pop(x) for _, x in pool]}
        ctx.rec(canon([ttref.pop(x) for _, x in pool]))
