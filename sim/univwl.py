"""Histories of universes: edge, vertex, directed and plain ones set, refused, left and set again in every way the
library offers (weights by tuple or by map, isolated vertices, graph objects, explicit vertex universes), with families
of every class made, converted, weighed, complemented and re-verified in between, under node-memory pressure."""
import gc
import random
from core import Violation, canon
from graphs_util import rand_graph, rand_digraph, label, respell, read_repr, Gobj, set_converters, unset_converters
from graphwl import mem_cfg, omp_cfg

LAB = ['int1', 'str', 'int0', 'neg', 'strw', 'intbig', 'same', 'num', 'num']
OPS = ['e_univ', 'e_univ', 'e_back', 'e_back', 'v_univ', 'v_univ', 'v_univ', 'd_univ', 'd_back', 's_univ', 's_back', 's_grow', 'bad', 'bad',
       'new', 'new', 'new', 'new', 'weigh', 'weigh', 'weigh', 'iter_w', 'conv', 'conv', 'conv', 'compl', 'vset', 'vset', 'search',
       'cost', 'alg', 'gc', 'drop', 'messages', 'threads', 'dump', 'load', 'repr', 'repr', 'foreign', 'foreign']
KINDS = ['E', 'V', 'EV', 'D', 'S']


def num(q):
    return q.choice([1, 1.0, 0, 2, -1, 0.5, -2.5, 7, 10**9, q.randint(-9, 9)])


class Run:
    def __init__(self, ctx, t):
        from graphillion import GraphSet, VertexSetSet, EdgeVertexSetSet, DiGraphSet, setset
        from graphillion.universe import Universe
        self.ctx, self.t = ctx, t
        self.C = {'E': GraphSet, 'V': VertexSetSet, 'EV': EdgeVertexSetSet, 'D': DiGraphSet, 'S': setset}
        self.U = Universe
        self.q = random.Random(t['mseed'])
        self.pool = {k: [] for k in KINDS}      # [obj, members]
        self.dumps = {k: [] for k in KINDS}
        self.saved = {'E': [], 'D': [], 'S': []}
        self.g = self.d = self.s = self.vu = None
        self.seen = []
        self.o_e_univ(t['first'])
        self.o_d_univ(t['first'] ^ 1)
        self.o_s_univ(t['first'] ^ 2)

    def spell(self, x, q):
        return respell(x, q) if self.g['num'] else x

    # -- keys
    def norm(self, x):
        if isinstance(x, tuple) and self.g:
            x = x[:2]
            return x if x in self.g['edges'] else (x[1], x[0])
        return x

    def key(self, kind, x):
        if kind == 'E' or kind == 'D':
            if isinstance(x, Gobj) != bool((self.g if kind == 'E' else self.d)['conv']):
                raise Violation('mismatch:member', 'a graph was returned as %r' % (x,))
        y = [self.norm(e) if kind in ('E', 'EV') else e for e in x]
        s = frozenset(y)
        if len(s) != len(y):
            raise Violation('mismatch:member', 'a member repeats an element: %r' % (x,))
        return s

    def members(self, kind, o):
        out = [self.key(kind, x) for x in o]
        s = frozenset(out)
        if len(s) != len(out):
            raise Violation('mismatch:iter', 'a member was yielded twice')
        return s

    def check(self, kind, o, m, what):
        got = self.members(kind, o)
        if got != m:
            raise Violation(what, '%s: extra=%s missing=%s of %d; universe %r, vertices %r' % (
                kind, canon(sorted(got - m, key=canon)[:4]), canon(sorted(m - got, key=canon)[:4]), len(m), self.g, self.vu))
        if o.len() != len(m):
            raise Violation(what, '%s: len %r, not %d' % (kind, o.len(), len(m)))

    def verify(self, what):
        for k in KINDS:
            for o, m in self.pool[k]:
                self.check(k, o, m, 'isolation:' + what)
        self.universes()

    def push(self, kind, o, m, what):
        self.check(kind, o, m, 'mismatch:' + what)
        if len(m) > 300: return
        p = self.pool[kind]
        p.append([o, m])
        if len(p) > 4: del p[self.q.randrange(len(p))]

    def elems(self, kind):
        return {'E': lambda: self.g['edges'], 'V': lambda: list(self.vu), 'EV': lambda: self.g['edges'] + self.g['verts'],
                'D': lambda: self.d['edges'], 'S': lambda: self.s}[kind]()

    def pick(self, kind, r):
        if not self.pool[kind]: self.o_new(r, kind)
        return self.pool[kind][r % len(self.pool[kind])]

    # -- what the library says the universes are
    def weighted(self, u):
        return {e[:2]: e[2] for e in u if len(e) > 2}, [e[:2] for e in u]

    def universes(self):
        if self.d is None or self.s is None: return     # at the beginning
        for k, g in (('E', self.g), ('D', self.d)):
            u = self.C[k].universe()
            if isinstance(u, Gobj) != bool(g['conv']):
                raise Violation('mismatch:universe', 'universe() is %r' % (u,))
            w, es = self.weighted(u)
            if sorted(es) != sorted(g['edges']) or w != g['w']:
                raise Violation('mismatch:universe', '%s: %r, not %r with weights %r' % (k, u, g['edges'], g['w']))
            if g['order'] is None: g['order'] = es
            if es != g['order']:
                raise Violation('mismatch:universe', '%s: the order changed from %r to %r' % (k, g['order'], es))
        u = self.C['V'].universe()
        w = {x: y for x, y in self.vu.items() if y != 1}
        if [x[0] if isinstance(x, tuple) else x for x in u] != list(self.vu) if self.vexp else \
                set(x[0] if isinstance(x, tuple) else x for x in u) != set(self.vu) or len(u) != len(self.vu):
            raise Violation('mismatch:universe', 'vertices %r, not %r' % (u, self.vu))
        if {x[0]: x[1] for x in u if isinstance(x, tuple)} != w:
            raise Violation('mismatch:universe', 'vertices %r with weights %r' % (u, w))
        u = [self.norm(x) for x in self.U.edge_vertex_universe()]
        ev = self.g['edges'] + self.g['verts']
        if frozenset(u) != frozenset(ev) or len(u) != len(ev):
            raise Violation('mismatch:universe', 'edges and vertices %r' % (u,))
        if list(self.C['S'].universe()) != self.s:
            raise Violation('mismatch:universe', 'setset: %r, not %r' % (self.C['S'].universe(), self.s))

    # -- edge universes
    def rand_univ(self, a, directed):
        q = random.Random(a)
        nv = q.randint(2, 6)
        f = rand_digraph if directed else rand_graph
        ix = f(q, nv, q.randint(1, 6))
        kind = q.choice(LAB)
        lab = [label(kind, i) for i in range(nv)]
        edges = [(lab[u], lab[v]) for u, v in ix]
        if not edges: edges = [(lab[0], lab[1])]
        verts = sorted({x for e in edges for x in e})
        g = {'edges': edges, 'verts': verts, 'w': {}, 'order': None, 'conv': q.random() < 0.25, 'num': kind == 'num'}
        kw = {}
        if q.random() < 0.6: kw['traversal'] = q.choice(['bfs', 'dfs', 'greedy', 'as-is'])
        if kw.get('traversal') == 'as-is': g['order'] = edges
        if q.random() < 0.3: kw['source'] = q.choice(verts)
        es = [respell(e, q) for e in edges] if kind == 'num' else list(edges)
        if g['order']: g['order'] = list(es)
        if q.random() < 0.5:
            for i, e in enumerate(edges):
                if q.random() < 0.6:
                    g['w'][e] = num(q)
                    es[i] += (g['w'][e],)
        return q, g, es, kw, lab

    def converters(self, kind, g):
        (set_converters if g['conv'] else unset_converters)(self.C[kind])

    def save(self):
        if not self.g: return
        live = {k: self.pool[k] for k in ('E', 'V', 'EV')}
        self.saved['E'] = (self.saved['E'] + [(dict(self.g), dict(self.vu), self.vexp, live, {k: self.dumps[k] for k in live})])[-3:]

    def fresh(self, *kinds):
        for k in kinds:
            self.pool[k], self.dumps[k] = [], []

    def o_e_univ(self, a, *x):
        self.save()
        q, g, es, kw, lab = self.rand_univ(a, False)
        self.converters('E', g)
        arg = Gobj(es) if g['conv'] else es
        vw = {}
        if q.random() < 0.5:
            if q.random() < 0.6:
                ws = {}
                for e in g['edges']:
                    if q.random() < 0.5:
                        ws[e] = num(q)
                        g['w'].setdefault(e, ws[e])     # a weight in the list comes first
                for v in g['verts']:
                    if q.random() < 0.5: ws[v] = vw[v] = num(q)
                if q.random() < 0.3: ws['no such vertex'] = 5
                kw['weights'] = ws
            if q.random() < 0.3: kw['isolated'] = ['lonely']
            f = self.U.set_universe
        else:
            f = self.C['E'].set_universe
        if isinstance(arg, list) and q.random() < 0.2: arg = tuple(arg)
        f(arg, **kw)
        self.fresh('E', 'V', 'EV')
        self.seen = (self.seen + g['edges'] + g['verts'])[-30:]
        self.g, self.vu, self.vexp = g, {v: vw.get(v, 1) for v in g['verts']}, False
        self.universes()

    def o_e_back(self, a, *x):
        """a universe left earlier is set again from what universe() gave"""
        if not self.saved['E']: return
        i = a % len(self.saved['E'])
        new = self.saved['E'].pop(i)
        self.save()
        g, vu, vexp, live, dumps = new
        q = random.Random(a)
        g['conv'] = q.random() < 0.25
        self.converters('E', g)
        es = [e + (g['w'][e],) if e in g['w'] else e for e in g['order']]
        vw = {v: w for v, w in vu.items() if w != 1}
        kw = {'weights': vw} if vw and not vexp else {}
        f = self.U.set_universe if kw or q.random() < 0.5 else self.C['E'].set_universe
        f(Gobj(es) if g['conv'] else es, traversal='as-is', **kw)
        self.g = g
        if vexp: self.set_vu(q, vu)
        self.vu, self.vexp = vu, vexp
        for k in live: self.pool[k], self.dumps[k] = live[k], dumps[k]
        self.verify('back')

    # -- vertex universes
    def set_vu(self, q, vu):
        if q.random() < 0.5:
            self.C['V'].set_universe([(v, w) if w != 1 or q.random() < 0.2 else (v,) if q.random() < 0.3 else v for v, w in vu.items()])
        elif q.random() < 0.5:
            self.U.set_vertex_universe(list(vu), weights={v: w for v, w in vu.items() if w != 1 or q.random() < 0.5}, tuple_vertex=q.random() < 0.5)
        else:
            self.U.set_vertex_universe([(v, w) if w != 1 else v for v, w in vu.items()], weights={v: 3 for v in vu if vu[v] != 1})

    def o_v_univ(self, a, *x):
        q = random.Random(a)
        vs = list(self.g['verts'])
        q.shuffle(vs)
        k = q.random()
        if k < 0.25: vs = vs[:max(1, len(vs) - q.randint(1, 3))]
        elif k < 0.5:
            for i in range(q.randint(1, 3)): vs.insert(q.randint(0, len(vs)), type(vs[0])(1000 + i))
        self.save()
        vu = {v: num(q) if q.random() < 0.5 else 1 for v in vs}
        self.set_vu(q, vu)
        self.vu, self.vexp = vu, True
        self.fresh('V')
        self.pool['E'], self.pool['EV'] = list(self.pool['E']), list(self.pool['EV'])
        self.verify('vertex_universe')

    # -- directed and plain universes
    def o_d_univ(self, a, *x):
        if self.d: self.saved['D'] = (self.saved['D'] + [(dict(self.d), self.pool['D'], self.dumps['D'])])[-2:]
        q, g, es, kw, lab = self.rand_univ(a, True)
        self.converters('D', g)
        self.C['D'].set_universe(Gobj(es) if g['conv'] else es, **kw)
        self.fresh('D')
        self.seen = (self.seen + g['edges'] + g['verts'])[-30:]
        self.d = g
        self.universes()

    def o_d_back(self, a, *x):
        if not self.saved['D']: return
        g, p, ds = self.saved['D'].pop(a % len(self.saved['D']))
        self.saved['D'].append((dict(self.d), self.pool['D'], self.dumps['D']))
        self.converters('D', g)
        es = [e + (g['w'][e],) if e in g['w'] else e for e in g['order']]
        self.C['D'].set_universe(Gobj(es) if g['conv'] else es, traversal='as-is')
        self.d, self.pool['D'], self.dumps['D'] = g, p, ds
        self.verify('back')

    def o_s_univ(self, a, *x):
        if self.s is not None: self.saved['S'] = (self.saved['S'] + [(self.s, self.pool['S'], self.dumps['S'])])[-2:]
        q = random.Random(a)
        kind = q.choice(LAB)
        self.s = [label(kind, i) for i in range(q.randint(1, 6))]
        q.shuffle(self.s)
        self.C['S'].set_universe(list(self.s))
        self.fresh('S')
        self.universes()

    def o_s_back(self, a, *x):
        if not self.saved['S']: return
        s, p, ds = self.saved['S'].pop(a % len(self.saved['S']))
        self.saved['S'].append((self.s, self.pool['S'], self.dumps['S']))
        self.C['S'].set_universe(list(s))
        self.s, self.pool['S'], self.dumps['S'] = s, p, ds
        self.verify('back')

    def o_s_grow(self, a, b, *x):
        if len(self.s) >= 9: return
        e = self.pick('S', a)
        el = type(self.s[0])(5000 + len(self.s))
        if b % 2: got = el in e[0]
        else:
            got = False
            e[0].discard(el)
        if got: raise Violation('mismatch:contains', 'a new element is contained')
        self.s.append(el)
        self.verify('grow')

    # -- calls that are refused
    def o_bad(self, a, *x):
        q = random.Random(a)
        es = list(self.g['edges'])
        mk = lambda x: Gobj(x) if self.g['conv'] else x
        mkd = lambda x: Gobj(x) if self.d['conv'] else x
        e = q.choice(es)
        ds = list(self.d['edges'])
        V, U, E, D = self.C['V'], self.U, self.C['E'], self.C['D']
        vs = list(self.vu)
        f = q.choice([
            lambda: E.set_universe(mk(es + [e])),
            lambda: E.set_universe(mk([e[:2] + (9,)] + es)),
            lambda: E.set_universe(mk(es + [(e[1], e[0])])),
            lambda: U.set_universe(mk([])),
            lambda: U.set_universe(mk(es), traversal='zigzag'),
            lambda: U.set_universe(mk(es), traversal='bfs', source='nowhere'),
            lambda: U.set_universe(mk(es), weights=5),
            lambda: U.set_universe(mk(es), isolated=5),
            lambda: U.set_universe(mk([e, 5])),
            lambda: U.set_universe(mk([([], 1)])),
            lambda: U.set_universe(5),
            lambda: V.set_universe(vs + vs[:1]),
            lambda: V.set_universe([(vs[0], 2), vs[0]]),
            lambda: V.set_universe([vs[0], (1, 2, 3)]),
            lambda: V.set_universe([vs[0], []]),
            lambda: U.set_vertex_universe(vs, weights=7),
            lambda: U.set_vertex_universe(7),
            lambda: D.set_universe(mkd(ds + ds[:1])),
            lambda: D.set_universe(mkd([])),
            lambda: D.set_universe(mkd(ds), traversal='zigzag'),
            lambda: D.set_universe(mkd([7])),
            lambda: self.C['S'].set_universe(self.s + self.s[:1]),
            lambda: self.C['S'].set_universe([[]]),
            lambda: self.C['S'].set_universe(7)])
        try:
            f()
        except Exception as ex:
            self.ctx.stats['refused:' + type(ex).__name__] += 1
        else:
            raise Violation('mismatch:accepted', 'a universe that cannot be was accepted')
        self.verify('refused')

    def o_foreign(self, a, b, c, *x):
        """elements that are not, or no longer, in the universe"""
        q = random.Random(c)
        kind = q.choice(['E', 'D', 'D', 'V', 'EV'])
        known = {'E': lambda: self.g['edges'] + self.g['verts'], 'D': lambda: self.d['edges'] + self.d['verts'],
                 'V': lambda: list(self.vu), 'EV': lambda: self.g['edges'] + self.g['verts']}[kind]()
        l = [x for x in self.seen if x not in known and not (isinstance(x, tuple) and (x[1], x[0]) in known)]
        if kind == 'V': l = [x for x in l if not isinstance(x, tuple)]
        if not l: return
        x = l[b % len(l)]
        o, m = self.pick(kind, a)
        k = q.randrange(7)
        C = self.C[kind]
        try:
            if k == 0: r = o.including(x)
            elif k == 1: r = o.excluding(x)
            elif k == 2: r = x in o
            elif k == 3: r = o.add(x)
            elif k == 4: r = o.remove(x)
            elif k == 5: r = o.discard(x)
            elif isinstance(x, tuple): r = C([Gobj([x]) if kind in 'ED' and (self.g if kind == 'E' else self.d)['conv'] else [x]])
            elif kind == 'V': r = C([[x]])
            elif kind == 'EV': r = C([[x]])
            else: r = C.trees(x) if kind == 'E' else C.rooted_trees(x)
        except Exception as ex:
            self.ctx.stats['foreign:' + type(ex).__name__] += 1
        else:
            if k != 2 or r is not False:
                raise Violation('mismatch:foreign', '%s: %r, which is not in the universe, was accepted (%d)' % (kind, x, k))
        self.verify('foreign')

    # -- families
    def rnd(self, kind, q):
        p = q.random()
        s = frozenset(e for e in self.elems(kind) if q.random() < p)
        if kind == 'EV': s |= {v for e in s if isinstance(e, tuple) for v in e}
        return s

    def form(self, kind, s, q):
        s = [(e[1], e[0]) if kind == 'E' and q.random() < 0.3 else e for e in s]
        s = [self.spell(e, q) for e in s]
        s = [e + (4,) if kind in ('E', 'D') and q.random() < 0.15 else e for e in s]
        if kind in ('E', 'D') and (self.g if kind == 'E' else self.d)['conv']: return Gobj(s)
        return q.choice([list, set])(s) if kind != 'S' else set(s)

    def o_new(self, a, kind=None, *x):
        q = random.Random(a)
        if kind not in KINDS: kind = q.choice(KINDS)
        m = [self.rnd(kind, q) for _ in range(q.choice([0, 1, 2, 3, 5, 9]))]
        self.push(kind, self.C[kind]([self.form(kind, s, q) for s in m]), frozenset(m), 'new')

    def wmap(self, kind):
        """weights of the universe"""
        if kind == 'E': return dict(self.g['w'])
        if kind == 'D': return dict(self.d['w'])
        if kind == 'V': return dict(self.vu)
        return None

    def o_weigh(self, a, b, *x):
        """weighted iteration by the weights of the universe"""
        q = random.Random(b)
        kind = q.choice(['E', 'V', 'D', 'EV'])
        o, m = self.pick(kind, a)
        if kind == 'EV':
            if self.vexp: return
            w = dict(self.g['w'])
            w.update(self.vu)
        else:
            w = self.wmap(kind)
        up = q.random() < 0.5
        self.ordered(kind, (o.min_iter if up else o.max_iter)(), m, w, 1, up)

    def o_iter_w(self, a, b, *x):
        q = random.Random(b)
        kind = q.choice(KINDS)
        o, m = self.pick(kind, a)
        w = {e: num(q) for e in self.elems(kind) if q.random() < 0.7}
        up = q.random() < 0.5
        arg = {(e[1], e[0]) if kind in ('E', 'EV') and isinstance(e, tuple) and q.random() < 0.4 else e: x for e, x in w.items()}
        if kind == 'S' and q.random() < 0.5:
            self.ordered(kind, (o.min_iter if up else o.max_iter)(arg, -2), m, w, -2, up)
        else:
            self.ordered(kind, (o.min_iter if up else o.max_iter)(arg), m, w, 1, up)

    def ordered(self, kind, it, m, w, default, up):
        got = [self.key(kind, x) for x in it]
        if len(got) != len(m) or frozenset(got) != m:
            raise Violation('mismatch:weighted_iter', '%s: %d sets (%d members) of %d' % (kind, len(got), len(m & set(got)), len(m)))
        ws = [sum(w.get(e, default) for e in s) for s in got]
        if ws != sorted(ws, reverse=not up):
            raise Violation('mismatch:weighted_order', '%s: %r by %r' % (kind, ws, w))

    def o_conv(self, a, b, *x):
        o, m = self.pick('E', a)
        vs = lambda s: frozenset(v for e in s for v in e)
        if b % 3 == 0:
            self.push('EV', o.to_edgevertexsetset(), frozenset(s | vs(s) for s in m), 'to_edgevertexsetset')
            return
        want = frozenset(vs(s) for s in m)
        if all(v in self.vu for s in want for v in s):
            self.push('V', o.to_vertexsetset(), want, 'to_vertexsetset')
        else:
            try:
                o.to_vertexsetset()
            except KeyError:
                return
            raise Violation('mismatch:to_vertexsetset', 'a vertex outside the vertex universe was converted')

    def o_compl(self, a, b, *x):
        kind = ['E', 'V', 'D', 'S'][b % 4]
        el = self.elems(kind)
        if len(el) > 7: return
        o, m = self.pick(kind, a)
        al = [frozenset(e for i, e in enumerate(el) if k >> i & 1) for k in range(1 << len(el))]
        r = b >> 4
        if r % 3 == 0: self.push(kind, ~o, frozenset(al) - m, 'invert')
        elif r % 3 == 1 and kind != 'S': self.push(kind, o.complement(), frozenset(frozenset(el) - s for s in m), 'complement')
        else: self.push(kind, self.C[kind]({}), frozenset(al), 'all')

    def o_vset(self, a, b, *x):
        """vertex sets of a graph on the vertices of the vertex universe"""
        q = random.Random(b)
        vs = list(self.vu)
        if len(vs) > 8: return
        pr = [(u, v) for i, u in enumerate(vs) for v in vs[:i]]
        p = q.random()
        es = [e for e in pr if q.random() < p]
        al = [frozenset(v for i, v in enumerate(vs) if k >> i & 1) for k in range(1 << len(vs))]
        E = {frozenset(e) for e in es}
        k = q.randrange(4)
        V = self.C['V']
        if k == 0: self.push('V', V.independent_sets(es), frozenset(s for s in al if not any(e <= s for e in E)), 'independent_sets')
        elif k == 1: self.push('V', V.vertex_covers(es), frozenset(s for s in al if all(e & s for e in E)), 'vertex_covers')
        elif k == 2: self.push('V', V.cliques(es), frozenset(s for s in al if all(u == v or frozenset((u, v)) in E for u in s for v in s)), 'cliques')
        else: self.push('V', V.dominating_sets(es), frozenset(s for s in al if all(v in s or any(frozenset((u, v)) in E for u in s) for v in vs)), 'dominating_sets')

    def o_search(self, a, b, *x):
        """matchings of the edge universe, out-degrees of the directed one"""
        if b % 2:
            es = self.g['edges']
            al = [frozenset(e for i, e in enumerate(es) if k >> i & 1) for k in range(1 << len(es))]
            self.push('E', self.C['E'].matchings(), frozenset(s for s in al if all(sum(v in e for e in s) <= 1 for v in self.g['verts'])), 'matchings')
        else:
            es = self.d['edges']
            al = [frozenset(e for i, e in enumerate(es) if k >> i & 1) for k in range(1 << len(es))]
            self.push('D', self.C['D'].graphs(out_degree_constraints={v: range(0, 2) for v in self.d['verts']}),
                      frozenset(s for s in al if all(sum(v == e[0] for e in s) <= 1 for v in self.d['verts'])), 'out_degree')

    def o_cost(self, a, b, *x):
        q = random.Random(b)
        kind = q.choice(['E', 'V', 'EV', 'D'])
        o, m = self.pick(kind, a)
        c = {e: q.randint(-3, 4) for e in self.elems(kind)}
        k = q.randint(-4, 8)
        self.push(kind, o.cost_le(c, k), frozenset(s for s in m if sum(c[e] for e in s) <= k), 'cost_le')
        p = {e: q.choice([0.5, 0, 1, 0.25]) for e in self.elems(kind)}
        want = 0
        for s in m:
            w = 1
            for e in p: w *= p[e] if e in s else 1 - p[e]
            want += w
        if abs(o.probability(p) - want) > 1e-9: raise Violation('mismatch:probability', kind)

    def o_alg(self, a, b, c, *x):
        kind = KINDS[c % 5]
        (o, m), (p, n) = self.pick(kind, a), self.pick(kind, b)
        k = c >> 4
        if k % 4 == 0: self.push(kind, o | p, m | n, 'union')
        elif k % 4 == 1: self.push(kind, o & p, m & n, 'intersection')
        elif k % 4 == 2: self.push(kind, o ^ p, m ^ n, 'symmetric_difference')
        else:
            e = self.elems(kind)[k % len(self.elems(kind))]
            f = 'supersets' if kind == 'S' else 'including'
            self.push(kind, getattr(o, f)(e), frozenset(s for s in m if e in s), 'including')

    def o_gc(self, *x):
        gc.collect()
        self.ctx.sim.gc()

    def o_drop(self, a, b, *x):
        p = self.pool[KINDS[a % 5]]
        if p: del p[b % len(p)]

    def o_messages(self, a, *x):
        """progress messages change nothing and the former setting is returned"""
        C = self.C[KINDS[a % 5 % 4]]
        on = bool(a >> 5 & 1)
        was = C.show_messages(on)
        if bool(was) != getattr(self, 'msg', False):
            raise Violation('mismatch:show_messages', 'the former setting was %r' % (was,))
        self.msg = on

    def o_threads(self, a, *x):
        E = self.C['E']
        n = a % 4 + 1
        E.omp_set_num_threads(n)
        if E.omp_get_max_threads() != n or E.omp_get_num_threads() != 1 or E.omp_get_num_procs() < 1:
            raise Violation('mismatch:threads', '%r %r %r' % (E.omp_get_max_threads(), E.omp_get_num_threads(), E.omp_get_num_procs()))

    def o_repr(self, a, b, *x):
        kind = KINDS[b % 5]
        o, m = self.pick(kind, a)
        r = read_repr(o, len(m))
        if r is None: return
        got = frozenset(frozenset(self.norm(e) if kind in ('E', 'EV') else e for e in y) for y in r)
        if got != m:
            raise Violation('mismatch:repr', '%r for %s' % (r, canon(m)))

    def o_dump(self, a, b, *x):
        kind = KINDS[b % 5]
        o, m = self.pick(kind, a)
        self.dumps[kind] = (self.dumps[kind] + [(o.dumps(), m)])[-3:]

    def o_load(self, a, b, *x):
        kind = KINDS[b % 5]
        if self.dumps[kind]:
            s, m = self.dumps[kind][a % len(self.dumps[kind])]
            self.push(kind, self.C[kind].loads(s), m, 'loads')


class UnivWorkload:
    def __init__(self, more=()):
        self.more = list(more)

    def gen(self, rng, tier, idx):
        n = rng.randint(5, 30)
        if tier == 'thorough' and rng.random() < 0.3: n *= 3
        ops_ = OPS + self.more * 6
        fav = rng.choice(ops_)
        ops = [[fav if rng.random() < 0.15 else rng.choice(ops_)] + [rng.randrange(1 << 30) for _ in range(4)] for _ in range(n)]
        cfg = mem_cfg(rng)
        cfg.update(omp_cfg(rng, 0.3))
        return {'cfg': cfg, 'first': rng.randrange(1 << 30), 'ops': ops, 'mseed': rng.randrange(1 << 30), 'check': rng.choice([1.0, 0.4])}

    def run(self, t, ctx):
        import os
        import sys
        fd = os.open('/dev/null', os.O_WRONLY)
        os.dup2(fd, 2)      # progress messages
        os.close(fd)
        R = Run(ctx, t)
        ctx.may_die(False)
        for i, op in enumerate(t['ops']):
            ctx.step(i, op[0])
            ctx.stats['op:' + op[0]] += 1
            getattr(R, 'o_' + op[0])(*op[1:])
            if R.q.random() < t['check']: R.verify(op[0])
            ctx.state(hash(canon([[m for _, m in p] for p in R.pool.values()])))
        ctx.step(len(t['ops']), 'final')
        R.verify('final')
        while R.saved['E']:
            R.o_e_back(0)
            R.saved['E'].pop()
        ctx.nontrivial = len(t['ops']) >= 5
        ctx.sample = {'first': t['first'], 'cfg': t['cfg'], 'ops': [o[0] for o in t['ops']][:8]}
        ctx.rec(canon([[m for _, m in p] for p in R.pool.values()]))
