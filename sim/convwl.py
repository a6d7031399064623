"""Edge, vertex and edge-vertex families of one graph: conversions, vertex-set searches and filters, over one or
several universes, under node-memory pressure, with every live family re-verified."""
import gc
import random
from core import Violation, canon
from graphs_util import rand_graph, label, respell
from graphwl import mem_cfg, omp_cfg

LAB = ['int1', 'str', 'int0', 'neg', 'strw', 'intbig', 'same', 'num', 'num']
OPS = ['mk_e', 'mk_e', 'mk_e', 'all_e', 'e2v', 'e2v', 'e2v', 'e2ev', 'e2ev', 'e2ev', 'indep', 'indep', 'dom', 'dom', 'cover', 'clique',
       'mk_v', 'mk_v', 'mk_ev', 'mk_ev', 'v_filter', 'v_filter', 'v_filter', 'ev_filter', 'ev_filter', 'ev_filter', 'ev_filter',
       'ev_elem', 'ev_elem', 'ev_weight', 'v_weight', 'alg', 'alg', 'alg', 'upd', 'gc', 'drop', 'drop', 'world', 'dump', 'e_filter', 'refused']


def verts(g):
    return frozenset(v for e in g for v in e)


class W:
    """a universe"""

    def __init__(self, init):
        self.init = init
        lab = [label(init['labels'], i) for i in range(init['nv'])]
        self.edges = [(lab[u], lab[v]) for u, v in init['edges']]
        self.verts = [x for x in lab if any(x in e for e in self.edges)]
        self.pool = {'E': [], 'V': [], 'EV': []}
        self.evs = list(self.edges) + list(self.verts)
        self.dumps = []

    def setup(self):
        from graphillion import GraphSet, VertexSetSet, EdgeVertexSetSet
        from graphillion.universe import Universe
        self.C = {'E': GraphSet, 'V': VertexSetSet, 'EV': EdgeVertexSetSet}
        kw = {'traversal': self.init['traversal']} if self.init.get('traversal') else {}
        q = random.Random(len(self.edges))
        GraphSet.set_universe([self.spell(e, q) for e in self.edges], **kw)
        if {frozenset(e[:2]) for e in GraphSet.universe()} != {frozenset(e) for e in self.edges}:
            raise Violation('mismatch:universe', 'edges %r' % (GraphSet.universe(),))
        if frozenset(VertexSetSet.universe()) != frozenset(self.verts) or len(VertexSetSet.universe()) != len(self.verts):
            raise Violation('mismatch:universe', 'vertices %r' % (VertexSetSet.universe(),))
        ev = [self.norm(x) for x in Universe.edge_vertex_universe()]
        if frozenset(ev) != frozenset(self.evs) or len(ev) != len(self.evs):
            raise Violation('mismatch:universe', 'edges and vertices %r' % (ev,))

    def spell(self, x, q):
        return respell(x, q) if self.init['labels'] == 'num' else x

    def norm(self, x):
        """an edge as in self.edges"""
        if isinstance(x, tuple):
            x = x[:2]
            return x if x in self.edges else (x[1], x[0])
        return x

    def key(self, kind, x):
        s = frozenset(self.norm(y) for y in x)
        if len(s) != len(x):
            raise Violation('mismatch:member', 'a member repeats an element: %r' % (x,))
        return s

    def members(self, kind, o):
        out = [self.key(kind, x) for x in o]
        s = frozenset(out)
        if len(s) != len(out):
            raise Violation('mismatch:iter', 'a member was yielded twice')
        return s


class Run:
    def __init__(self, ctx, t):
        self.ctx = ctx
        self.ws = [W(i) for i in t['worlds']]
        self.k = None
        self.q = random.Random(t['mseed'])
        self.switch(0)

    def switch(self, k):
        k %= len(self.ws)
        if k != self.k:
            self.k, self.w = k, self.ws[k]
            self.w.setup()

    # -- pool
    def push(self, kind, o, m, what):
        w = self.w
        got = w.members(kind, o)
        if got != m:
            raise Violation('mismatch:' + what, '%s: extra=%s missing=%s of %d in universe %r' % (
                kind, canon(sorted(got - m, key=canon)[:4]), canon(sorted(m - got, key=canon)[:4]), len(m), w.edges))
        if o.len() != len(m):
            raise Violation('mismatch:len', '%s: %r, not %d' % (what, o.len(), len(m)))
        if not (o == w.C[kind]([list(x) for x in m])):
            raise Violation('mismatch:eq', '%s: not equal to a family built from the same members' % what)
        if len(m) > 600: return
        p = w.pool[kind]
        p.append([o, m])
        if len(p) > 5: del p[self.q.randrange(len(p))]

    def pick(self, kind, r):
        p = self.w.pool[kind]
        if not p:
            getattr(self, 'o_' + {'E': 'mk_e', 'V': 'mk_v', 'EV': 'mk_ev'}[kind])(r, r)
            p = self.w.pool[kind]
        return p[r % len(p)]

    def verify(self, what):
        w = self.w
        for kind in w.pool:
            for o, m in w.pool[kind]:
                got = w.members(kind, o)
                if got != m:
                    raise Violation('isolation:' + what, 'a live %s family changed: extra=%s missing=%s' % (
                        kind, canon(sorted(got - m, key=canon)[:4]), canon(sorted(m - got, key=canon)[:4])))

    def rnd_edges(self, q):
        p = q.random()
        return frozenset(e for e in self.w.edges if q.random() < p)

    def rnd_ev(self, q):
        s = set(self.rnd_edges(q))
        p = q.random() * 0.7
        return frozenset(s | set(verts(s)) | {v for v in self.w.verts if q.random() < p})

    def turn(self, e, q, weight=True):
        if isinstance(e, tuple) and q.random() < 0.4: e = (e[1], e[0])
        e = self.w.spell(e, q)
        # an edge may come with its weight
        return e + (q.choice([1, 0.5, 7]),) if weight and isinstance(e, tuple) and q.random() < 0.15 else e

    # -- making families
    def o_mk_e(self, a, *x):
        q = random.Random(a)
        m = [self.rnd_edges(q) for _ in range(q.choice([0, 1, 2, 3, 6, 15]))]
        self.push('E', self.w.C['E']([[self.turn(e, q) for e in s] for s in m]), frozenset(m), 'new')

    def o_all_e(self, a, *x):
        if len(self.w.edges) > 8: return
        q = random.Random(a)
        al = [frozenset(e for i, e in enumerate(self.w.edges) if k >> i & 1) for k in range(1 << len(self.w.edges))]
        v = q.choice(self.w.verts)
        o, m = self.w.C['E']({}), frozenset(al)
        k = q.randrange(4)
        if k == 0: o, m = o.including(v), frozenset(s for s in m if v in verts(s))
        elif k == 1: o, m = o.excluding(v), frozenset(s for s in m if v not in verts(s))
        elif k == 2:
            n = q.randint(0, len(self.w.edges))
            o, m = o.graph_size(n), frozenset(s for s in m if len(s) == n)
        self.push('E', o, m, 'all')

    def o_mk_v(self, a, *x):
        q = random.Random(a)
        p = q.random()
        m = [frozenset(v for v in self.w.verts if q.random() < p) for _ in range(q.choice([0, 1, 2, 4, 10]))]
        self.push('V', self.w.C['V']([list(s) for s in m]), frozenset(m), 'new')

    def o_mk_ev(self, a, *x):
        q = random.Random(a)
        m = [self.rnd_ev(q) for _ in range(q.choice([0, 1, 2, 3, 6]))]
        self.push('EV', self.w.C['EV']([[self.turn(e, q, False) for e in s] for s in m]), frozenset(m), 'new')

    # -- conversions
    def o_e2v(self, a, b, *x):
        o, m = self.pick('E', a)
        self.push('V', o.to_vertexsetset(), frozenset(verts(s) for s in m), 'to_vertexsetset')

    def o_e2ev(self, a, b, *x):
        if b % 9 == 0 and len(self.w.edges) <= 7:
            al = [frozenset(e for i, e in enumerate(self.w.edges) if k >> i & 1) for k in range(1 << len(self.w.edges))]
            self.push('EV', self.w.C['EV']({}), frozenset(s | verts(s) for s in al), 'EdgeVertexSetSet({})')
            return
        o, m = self.pick('E', a)
        self.push('EV', o.to_edgevertexsetset(), frozenset(s | verts(s) for s in m), 'to_edgevertexsetset')

    # -- vertex sets of arbitrary graphs on the vertices
    def graph(self, a):
        """edges handed to the search, adjacency"""
        q = random.Random(a)
        vs = self.w.verts
        k = q.random()
        if k < 0.5:
            es = list(self.w.edges)
        else:
            pr = [(u, v) for i, u in enumerate(vs) for v in vs[:i]]
            p = q.random()
            es = [e for e in pr if q.random() < p]
        q.shuffle(es)
        es = [self.turn(e, q, False) for e in es]
        if es and q.random() < 0.2: es.append(self.turn(q.choice(es), q, False))
        adj = {v: set() for v in vs}
        for u, v in es:
            adj[u].add(v)
            adj[v].add(u)
        return es, adj, q

    def within(self, adj, d):
        out = {}
        for v in adj:
            seen, front = {v}, {v}
            for _ in range(d):
                front = {y for x in front for y in adj[x]} - seen
                seen |= front
            out[v] = seen - {v}
        return out

    def subsets(self):
        vs = self.w.verts
        return [frozenset(v for i, v in enumerate(vs) if k >> i & 1) for k in range(1 << len(vs))]

    def o_indep(self, a, *x):
        es, adj, q = self.graph(a)
        d = q.choice([None, 1, 2, 2, 3, 4, 9])
        near = self.within(adj, d or 1)
        m = frozenset(s for s in self.subsets() if not any(near[v] & s for v in s))
        f = self.w.C['V'].independent_sets
        self.push('V', f(es) if d is None else f(es, d), m, 'independent_sets(%r)' % d)

    def o_dom(self, a, *x):
        es, adj, q = self.graph(a)
        d = q.choice([None, 1, 2, 2, 3, 4, 9])
        near = self.within(adj, d or 1)
        m = frozenset(s for s in self.subsets() if all(v in s or near[v] & s for v in adj))
        f = self.w.C['V'].dominating_sets
        self.push('V', f(es) if d is None else f(es, d), m, 'dominating_sets(%r)' % d)

    def o_cover(self, a, *x):
        es, adj, q = self.graph(a)
        m = frozenset(s for s in self.subsets() if all(u in s or v in s for u, v in es))
        self.push('V', self.w.C['V'].vertex_covers(es), m, 'vertex_covers')

    def o_clique(self, a, *x):
        es, adj, q = self.graph(a)
        m = frozenset(s for s in self.subsets() if all(u == v or v in adj[u] for u in s for v in s))
        self.push('V', self.w.C['V'].cliques(es), m, 'cliques')

    def o_refused(self, a, b, *x):
        """edges and members that the documentation says are refused"""
        q = random.Random(b)
        w = self.w
        if q.random() < 0.6:
            es, adj, _ = self.graph(a)
            v, u = q.choice(w.verts), 'no such vertex'
            bad = q.choice([(v, u), (u, v), (u, u), (v,), (v, q.choice(w.verts), 1), ()])
            es.insert(q.randrange(len(es) + 1), bad)
            name = q.choice(['independent_sets', 'dominating_sets', 'vertex_covers', 'cliques'])
            call, want = (lambda: getattr(w.C['V'], name)(es)), ValueError
        else:
            if not w.edges: return
            e = q.choice(w.edges)
            s = set(self.rnd_ev(q)) | {e} | set(e)
            s.discard(q.choice(e))
            sets = [list(self.rnd_ev(q)) for _ in range(q.randint(0, 3))]
            sets.insert(q.randrange(len(sets) + 1), list(s))
            name = 'EdgeVertexSetSet with an edge without its end'
            call, want = (lambda: w.C['EV'](sets)), KeyError
        try:
            r = call()
        except want:
            self.verify('refused')
            return
        raise Violation('mismatch:accepted', '%s accepted %r' % (name, bad if want is ValueError else sets))

    # -- filters
    def filt(self, kind, a, b, c):
        o, m = self.pick(kind, a)
        q = random.Random(b)
        k = q.randrange(12)
        w = self.w
        el = {'E': w.edges, 'V': w.verts, 'EV': w.evs}[kind]
        el = q.choice(el)
        arg = self.turn(el, q)
        fam = self.pick(kind, c)
        s = self.rnd_ev(q) if kind == 'EV' else frozenset(v for v in w.verts if q.random() < 0.3) if kind == 'V' else \
            frozenset(e for e in w.edges if q.random() < 0.3)
        form_ = q.choice([list, set, frozenset])
        form = lambda y: form_([self.turn(e, q) for e in y])
        n = q.randint(0, 7)
        if k == 0: r, x, t = o.including(arg), [y for y in m if el in y], 'including(element)'
        elif k == 1: r, x, t = o.excluding(arg), [y for y in m if el not in y], 'excluding(element)'
        elif k == 2: r, x, t = o.including(form(s)), [y for y in m if y >= s], 'including(set)'
        elif k == 3: r, x, t = o.excluding(form(s)), [y for y in m if not y >= s], 'excluding(set)'
        elif k == 4: r, x, t = o.including(fam[0]), [y for y in m if any(y >= z for z in fam[1])], 'including(family)'
        elif k == 5: r, x, t = o.excluding(fam[0]), [y for y in m if not any(y >= z for z in fam[1])], 'excluding(family)'
        elif k == 6: r, x, t = o.included(form(s)), [y for y in m if y <= s], 'included(set)'
        elif k == 7: r, x, t = o.included(fam[0]), [y for y in m if any(y <= z for z in fam[1])], 'included(family)'
        elif k == 8: r, x, t = o.graph_size(n), [y for y in m if len(y) == n], 'graph_size'
        elif k == 9: r, x, t = o.smaller(n), [y for y in m if len(y) < n], 'smaller'
        elif k == 10: r, x, t = o.larger(n), [y for y in m if len(y) > n], 'larger'
        else:
            v = q.choice(w.verts)
            if kind == 'E': r, x, t = o.including(v), [y for y in m if v in verts(y)], 'including(vertex)'
            else: r, x, t = o.including(v), [y for y in m if v in y], 'including(vertex)'
        self.push(kind, r, frozenset(x), t)

    def o_v_filter(self, a, b, c, *x): self.filt('V', a, b, c)
    def o_ev_filter(self, a, b, c, *x): self.filt('EV', a, b, c)
    def o_e_filter(self, a, b, c, *x): self.filt('E', a, b, c)

    def o_ev_elem(self, a, b, *x):
        o, m = self.pick('EV', a)
        q = random.Random(b)
        w = self.w
        k = q.randrange(8)
        el = q.choice(w.evs)
        s = q.choice(sorted(m, key=canon)) if m and q.random() < 0.5 else self.rnd_ev(q)
        form_ = q.choice([list, set, frozenset])
        form = lambda y: form_([self.turn(e, q) for e in y])
        arg = self.turn(el, q)
        if k == 0:
            got, want, t = arg in o, any(el in y for y in m), 'contains element %r' % (arg,)
        elif k == 1:
            got, want, t = form(s) in o, s in m, 'contains set'
        elif k == 2:
            c = o.copy()
            c.add(form(s))
            return self.push('EV', c, m | {s}, 'add')
        elif k == 3:
            c = o.copy()
            v = q.choice(w.verts)
            c.add_vertex(v)
            return self.push('EV', c, frozenset(y | {v} for y in m), 'add_vertex')
        elif k == 4:
            c = o.copy()
            c.discard(form(s))
            return self.push('EV', c, m - {s}, 'discard')
        elif k == 5:
            c = o.copy()
            if s in m:
                c.remove(form(s))
                return self.push('EV', c, m - {s}, 'remove')
            try:
                c.remove(form(s))
            except KeyError:
                return
            raise Violation('mismatch:remove', 'removing an absent member returned')
        elif k == 6:
            if not m: return
            got = self.w.key('EV', o.choice())
            got, want, t = got in m, True, 'choice'
        else:
            if not m: return
            c = o.copy()
            g = self.w.key('EV', c.pop())
            if g not in m: raise Violation('mismatch:pop', canon(g))
            return self.push('EV', c, m - {g}, 'pop')
        if got != want:
            raise Violation('mismatch:' + t.split()[0], '%s: %r' % (t, got))

    def weight(self, kind, a, b):
        o, m = self.pick(kind, a)
        q = random.Random(b)
        els = self.w.evs if kind == 'EV' else self.w.verts
        cost = {e: q.randint(-3, 5) for e in els}
        c = lambda y: sum(cost[e] for e in y)
        arg = {self.turn(e, q): x for e, x in cost.items()}
        k = q.randrange(6)
        if k < 2:
            it = o.min_iter(arg) if k == 0 else o.max_iter(arg)
            got = [self.w.key(kind, x) for x in it]
            if frozenset(got) != m or len(got) != len(m):
                raise Violation('mismatch:weighted', 'yields %d of %d members' % (len(set(got) & m), len(m)))
            cs = [c(x) for x in got]
            if cs != sorted(cs, reverse=k == 1):
                raise Violation('mismatch:weighted', 'order %r' % cs)
        elif k < 5:
            bd = q.randint(-5, 12)
            f, h, t = [(o.cost_le, lambda y: y <= bd, 'cost_le'), (o.cost_ge, lambda y: y >= bd, 'cost_ge'), (o.cost_eq, lambda y: y == bd, 'cost_eq')][k - 2]
            self.push(kind, f(arg, bd), frozenset(y for y in m if h(c(y))), t)
        else:
            pr = {e: q.choice([0, 1, 0.5, 0.25]) for e in els}
            want = 0
            for y in m:
                p = 1
                for e in els: p *= pr[e] if e in y else 1 - pr[e]
                want += p
            got = o.probability({self.turn(e, q): x for e, x in pr.items()})
            if abs(got - want) > 1e-9:
                raise Violation('mismatch:probability', '%r, not %r' % (got, want))

    def o_ev_weight(self, a, b, *x): self.weight('EV', a, b)
    def o_v_weight(self, a, b, *x): self.weight('V', a, b)

    # -- algebra within a kind
    def o_alg(self, a, b, c, *x):
        q = random.Random(c)
        kind = q.choice(['V', 'V', 'EV', 'EV', 'E'])
        (o1, m1), (o2, m2) = self.pick(kind, a), self.pick(kind, b)
        k = q.randrange(8)
        if k == 0: r, m = o1 | o2, m1 | m2
        elif k == 1: r, m = o1 & o2, m1 & m2
        elif k == 2: r, m = o1 - o2, m1 - m2
        elif k == 3: r, m = o1 ^ o2, m1 ^ m2
        elif k == 4: r, m = o1.minimal(), frozenset(y for y in m1 if not any(z < y for z in m1))
        elif k == 5: r, m = o1.maximal(), frozenset(y for y in m1 if not any(z > y for z in m1))
        elif len(m1) * len(m2) > 6000: return
        elif k == 6: r, m = o1.join(o2), frozenset(y | z for y in m1 for z in m2)
        else: r, m = o1.meet(o2), frozenset(y & z for y in m1 for z in m2)
        self.push(kind, r, frozenset(m), 'alg%d' % k)

    def o_upd(self, a, b, c, *x):
        q = random.Random(c)
        kind = q.choice(['V', 'EV', 'E'])
        e1, e2 = self.pick(kind, a), self.pick(kind, b)
        o, m2 = e1[0], e2[1]
        k = q.randrange(4)
        if k == 0: o |= e2[0]; e1[1] = e1[1] | m2
        elif k == 1: o &= e2[0]; e1[1] = e1[1] & m2
        elif k == 2: o -= e2[0]; e1[1] = e1[1] - m2
        else: o ^= e2[0]; e1[1] = e1[1] ^ m2
        if o is not e1[0]: raise Violation('mismatch:inplace', 'another object')

    def o_gc(self, a, *x):
        gc.collect()
        self.ctx.sim.gc()

    def o_drop(self, a, b, *x):
        p = self.w.pool[['E', 'V', 'EV'][a % 3]]
        if p: del p[b % len(p)]

    def o_world(self, a, *x):
        self.switch(a)
        self.verify('switch')

    def o_dump(self, a, b, *x):
        if a % 2 and self.w.dumps:
            kind, s, m = self.w.dumps[b % len(self.w.dumps)]
            self.push(kind, self.w.C[kind].loads(s), m, 'loads')
        else:
            kind = ['E', 'V', 'EV'][b % 3]
            o, m = self.pick(kind, a)
            self.w.dumps = (self.w.dumps + [(kind, o.dumps(), m)])[-4:]


class ConvWorkload:
    def gen(self, rng, tier, idx):
        worlds = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            nv = rng.randint(2, 7)
            w = {'nv': nv, 'edges': rand_graph(rng, nv, rng.randint(1, min(9, nv * (nv - 1) // 2))), 'labels': rng.choice(LAB)}
            if rng.random() < 0.7: w['traversal'] = rng.choice(['bfs', 'dfs', 'greedy', 'as-is'])
            worlds.append(w)
        n = rng.randint(4, 25)
        if tier == 'thorough' and rng.random() < 0.3: n *= 3
        fav = rng.choice(OPS)
        ops = [[fav if rng.random() < 0.15 else rng.choice(OPS)] + [rng.randrange(1 << 30) for _ in range(4)] for _ in range(n)]
        cfg = mem_cfg(rng)
        cfg.update(omp_cfg(rng, 0.3))
        return {'cfg': cfg, 'worlds': worlds, 'ops': ops, 'mseed': rng.randrange(1 << 30), 'check': rng.choice([1.0, 0.3])}

    def run(self, t, ctx):
        R = Run(ctx, t)
        ctx.may_die(False)
        for i, op in enumerate(t['ops']):
            ctx.step(i, op[0])
            ctx.stats['op:' + op[0]] += 1
            getattr(R, 'o_' + op[0])(*op[1:])
            if R.q.random() < t['check']: R.verify(op[0])
            ctx.state(hash(canon([[m for _, m in p] for p in R.w.pool.values()])))
        ctx.step(len(t['ops']), 'final')
        for k in range(len(R.ws)):
            R.switch(k)
            R.verify('final')
        ctx.nontrivial = len(t['ops']) >= 5
        ctx.sample = {'worlds': t['worlds'], 'cfg': t['cfg'], 'ops': [o[0] for o in t['ops']][:8]}
        ctx.rec(canon([[[m for _, m in p] for p in w.pool.values()] for w in R.ws]))
