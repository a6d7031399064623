"""Histories of subgraph searches over one or several universes, compared with brute force,
with the result pool kept alive, combined, collected and re-verified."""
import gc
import random
import gops
from core import Violation, canon
from faults import Faults, gen_fault

UND = list(gops.UNDIRECTED)
STR = list(gops.STRUCTURAL)
PAR = list(gops.PARTITION)
DIR = list(gops.DIRECTED)


def omp_cfg(rng, p=0.4, heavy=False):
    cfg = {}
    if rng.random() < p:
        cfg['THREADS'] = rng.choice([2, 2, 3, 4, 8])
        cfg['PROCS'] = rng.choice([1, 2, 4, 8])
        cfg['PREEMPT_MEAN'] = rng.choice([0, 3, 20, 200, 2000])
        cfg['STRATEGY'] = rng.randint(0, 2)
        if rng.random() < 0.3:
            cfg['TEAM_SHRINK'] = rng.choice([100, 500, 1000])
    return cfg


def mem_cfg(rng, p=0.6):
    cfg = {}
    if rng.random() < p:
        cfg['GC_PPM'] = rng.choice([500, 5000, 50000, 300000])
    if rng.random() < 0.4:
        cfg['NODE_INIT'] = rng.choice([256, 300, 1000])
    if rng.random() < 0.3:
        cfg['POISON'] = 1
    return cfg


class GraphRun:
    """Executes graph ops with a pool of results per world."""

    def __init__(self, ctx, worlds):
        self.ctx = ctx
        self.inits = worlds
        self.worlds = [None] * len(worlds)
        self.cur = {}            # kind -> index of the current universe
        self.pool = {i: [] for i in range(len(worlds))}   # [obj, masks]
        self.dumps = {i: [] for i in range(len(worlds))}

    def world(self, k):
        k %= len(self.inits)
        if self.worlds[k] is None:
            self.worlds[k] = gops.World(self.inits[k])
        W = self.worlds[k]
        kind = W.directed
        if self.cur.get(kind) != k:
            W.setup()
            if getattr(W, 'first_order', None) is None:
                W.first_order = list(W.order)
            elif W.order != W.first_order:
                raise Violation('mismatch:universe', 'the same universe was laid out as %r, then as %r' % (
                    W.first_order, W.order))
            self.cur[kind] = k
        return k, W

    def is_current(self, k):
        return self.cur.get(self.worlds[k].directed) == k if self.worlds[k] else False

    def verify_pool(self, k, what):
        W = self.worlds[k]
        for i, (o, m) in enumerate(self.pool[k]):
            got = W.fam(o)
            if got != m:
                raise Violation('isolation:' + what, 'live result #%d changed: extra=%s missing=%s' % (
                    i, [W.show(x) for x in sorted(got - m)[:4]], [W.show(x) for x in sorted(m - got)[:4]]))

    def push(self, k, o, m):
        p = self.pool[k]
        p.append([o, m])
        if len(p) > 7:
            del p[0]

    def op(self, k, name, p):
        """name: a search, or a pool operation (leading underscore)"""
        k, W = self.world(k)
        if not name.startswith('_'):
            if W.directed != (name in gops.DIRECTED and 'D' == W.init.get('kind')):
                pass
            r = gops.run_op(W, name, p)
            if r is not None:
                self.push(k, *r)
            return
        pool = self.pool[k]
        if name == '_gc':
            gc.collect()
            self.ctx.sim.gc()
        elif name == '_drop':
            if pool: del pool[p['a'] % len(pool)]
        elif name == '_alg' and pool:
            a, b = pool[p['a'] % len(pool)], pool[p['b'] % len(pool)]
            f = p['f'] % 8
            if f == 0: r, w = a[0] | b[0], a[1] | b[1]
            elif f == 1: r, w = a[0] & b[0], a[1] & b[1]
            elif f == 2: r, w = a[0] - b[0], a[1] - b[1]
            elif f == 3: r, w = a[0] ^ b[0], a[1] ^ b[1]
            elif f == 4:
                r, w = a[0].minimal(), frozenset(x for x in a[1] if not any(y != x and y & x == y for y in a[1]))
            elif f == 5:
                r, w = a[0].maximal(), frozenset(x for x in a[1] if not any(y != x and y & x == x for y in a[1]))
            elif f == 6: r, w = ~a[0], frozenset(W.all_masks()) - a[1]
            else:
                e = p['b'] % W.m
                r, w = a[0].including(W.ledge(e)), frozenset(x for x in a[1] if x >> e & 1)
            got = W.fam(r)
            if got != w:
                raise Violation('mismatch:algebra', 'op %d: extra=%s missing=%s' % (f, sorted(got - w)[:4], sorted(w - got)[:4]))
            self.push(k, r, w)
        elif name == '_verify':
            self.verify_pool(k, 'verify')
        elif name == '_dump' and pool:
            o, m = pool[p['a'] % len(pool)]
            self.dumps[k].append((o.dumps(), m))
        elif name == '_load' and self.dumps[k]:
            s, m = self.dumps[k][p['a'] % len(self.dumps[k])]
            o = W.C.loads(s)
            if W.fam(o) != m:
                raise Violation('mismatch:loads', 'a dump of this universe loads back different')
            self.push(k, o, m)

    def finish(self):
        for k in range(len(self.inits)):
            if self.worlds[k] is not None and self.pool[k]:
                self.world(k)      # restore the universe of these families
                self.verify_pool(k, 'final')


class GraphWorkload:
    def __init__(self, names, directed=0.0, dense=0.2, nworlds=(1, 1, 1, 2, 3), nops=(2, 9), aux=0.25,
                 maxm=None, omp=0.35, mem=0.6, oom=0.0):
        self.oom = oom
        self.names, self.directed, self.dense = names, directed, dense
        self.nworlds, self.nops, self.aux, self.maxm, self.omp, self.mem = nworlds, nops, aux, maxm, omp, mem

    def gen(self, rng, tier, idx):
        worlds = []
        for _ in range(rng.choice(self.nworlds)):
            d = rng.random() < self.directed
            worlds.append(gops.gen_world(rng, directed=d, dense=not d and rng.random() < self.dense, maxm=self.maxm, conv=True))
        Ws = [gops.World(w) for w in worlds]
        ops = []
        n = rng.randint(*self.nops)
        if tier == 'thorough' and rng.random() < 0.4:
            n *= 3
        k = 0
        fav = {}
        while len(ops) < n:
            if rng.random() < 0.25:
                k = rng.randrange(len(Ws))
            W = Ws[k]
            if ops and rng.random() < self.aux:
                ops.append([k, rng.choice(['_gc', '_drop', '_alg', '_alg', '_alg', '_verify', '_dump', '_load']),
                            {'a': rng.randrange(1000), 'b': rng.randrange(1000), 'f': rng.randrange(8)}])
                continue
            names = DIR if W.directed else [x for x in self.names if x not in DIR or x == 'graphs'] or UND
            name = fav.setdefault(k, rng.choice(names)) if rng.random() < 0.3 else rng.choice(names)
            p = gops.get_op(W, name).make(rng, W)
            if p is None:
                continue
            ops.append([k, name, p])
            if self.oom and rng.random() < self.oom:
                f = gen_fault(rng)
                if f[0] == 'new' and rng.random() < 0.5:
                    f[1] *= rng.choice([1, 4, 20])
                ops[-1].append(f)
        cfg = mem_cfg(rng, self.mem)
        cfg.update(omp_cfg(rng, self.omp))
        return {'cfg': cfg, 'worlds': worlds, 'ops': ops}

    def run(self, t, ctx):
        R = GraphRun(ctx, t['worlds'])
        F = Faults(ctx)
        ctx.may_die(False)
        for i, op in enumerate(t['ops']):
            k, name, p = op[:3]
            fault = op[3] if len(op) > 3 else None
            ctx.step(i, name)
            ctx.stats['op:' + name] += 1
            if not fault:
                R.op(k, name, p)
            else:
                fired = F.fired()
                gops.after_real = F.disarm
                try:
                    F.arm(fault)
                    R.op(k, name, p)
                except Violation:
                    raise
                except Exception as e:
                    F.disarm()
                    if F.fired() == fired:
                        raise
                    ctx.stats['failed:' + type(e).__name__] += 1
                finally:
                    F.disarm()
                    gops.after_real = None
                if R.worlds[k % len(R.inits)] is not None:
                    R.world(k)
                    R.verify_pool(k % len(R.inits), 'after_failure')
            ctx.state(hash(canon([sorted(m) for _, m in R.pool[k % len(R.pool)]])))
        ctx.step(len(t['ops']), 'final')
        R.finish()
        ctx.nontrivial = len(t['ops']) >= 2
        ctx.sample = {'worlds': t['worlds'], 'cfg': t['cfg'], 'ops': [[o[0], o[1]] for o in t['ops']][:6]}
        ctx.rec(canon([sorted(map(sorted, [m for _, m in p])) for p in R.pool.values()]))
