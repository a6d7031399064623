"""Histories of family operations against the reference model (set families of any class).

The machine keeps a pool of (real object, model) pairs and a pool of live iterators.
Trace ops are state-free: integers are reduced modulo the current state when executed, so
dropping any op leaves a well-formed trace.
"""
import random
import models as M
from core import Violation, canon
from faults import Faults, gen_fault
from graphs_util import rand_graph, rand_digraph, label, LABELS, Gobj, set_converters

MAXFAM = 300          # cap on family size
POOL = 9


# ------------------------------------------------------------------ adapters
class Ad:
    grows = False
    ops_missing = frozenset()

    def key(self, x):
        """member as yielded -> frozenset of canonical elements"""
        s = frozenset(x)
        if len(s) != len(x):
            raise Violation('mismatch:member', 'a member repeats an element: %r' % (x,))
        return s

    def arg_set(self, s, r):
        s = list(s)
        k = r % 3
        return set(s) if k == 0 else frozenset(s) if k == 1 else self.arg_list(s, r)

    def arg_list(self, s, r):
        return set(s)

    def elem(self, e, r):
        return e


class SetAd(Ad):
    name = 'setset'
    grows = True
    ops_missing = frozenset(['including_set', 'excluding_set', 'included_set', 'complement',
                             'cost_ge', 'cost_eq', 'including_fam', 'excluding_fam', 'included_fam',
                             'incl_vertex', 'excl_vertex', 'contains_vertex', 'remove_vertex', 'discard_vertex'])

    def setup(self, init):
        from graphillion import setset
        self.C = setset
        self.elems = [label(init['labels'], i) for i in range(init['n'])]
        self.fresh = [label(init['labels'], i) for i in range(init['n'], init['n'] + 6)]
        if init.get('universe', True):
            setset.set_universe(list(self.elems))
        else:
            self.fresh = self.elems + self.fresh
            self.elems = []

    def univ(self):
        return list(self.C.universe())

    def grow(self, r):
        if self.fresh:
            e = self.fresh.pop(0)
            self.elems.append(e)
            return e
        return None

    def new(self, sets, r=0):
        return self.C([set(s) for s in sets])

    def new_dict(self, inc, exc):
        d = {}
        if inc is not None: d['include'] = list(inc)
        if exc is not None: d['exclude'] = list(exc)
        return self.C(d)

    m = dict(sub='subsets', sup='supersets', nsub='non_subsets', nsup='non_supersets', hitting='hitting',
             size='set_size', rm_some='remove_some_element', add_some='add_some_element',
             swap_some='remove_add_some_elements', incl='supersets', excl='non_supersets')


class GraphAd(Ad):
    name = 'GraphSet'
    conv = False
    ops_missing = frozenset(['flip_all'])
    m = dict(sub='subgraphs', sup='supergraphs', nsub='non_subgraphs', nsup='non_supergraphs',
             hitting='blocking', size='graph_size', rm_some='remove_some_edge', add_some='add_some_edge',
             swap_some='remove_add_some_edges', incl='including', excl='excluding')

    def setup(self, init):
        from graphillion import GraphSet
        self.C = GraphSet
        lab = [label(init['labels'], i) for i in range(init['nv'])]
        self.verts = lab
        edges = [(lab[u], lab[v]) for u, v in init['edges']]
        ue = self.weighted(init, edges)
        kw = {}
        if init.get('traversal'):
            kw['traversal'] = init['traversal']
        GraphSet.set_universe(ue, **kw)
        self.elems = self.univ()
        if {frozenset(e) for e in self.elems} != {frozenset(e) for e in edges} or len(self.elems) != len(edges):
            raise Violation('mismatch:universe', 'universe() %r for %r' % (self.elems, edges))

    def weighted(self, init, edges):
        """the edges as passed to set_universe"""
        self.defaults = {}
        ue = list(edges)
        if init.get('weights'):
            self.defaults = {e: w for e, w in zip(edges, init['weights']) if w is not None}
            ue = [(e[0], e[1], self.defaults[e]) if e in self.defaults else e for e in edges]
        self.wuniv = {frozenset([e[:2]] + list(e[2:])) for e in ue}
        if init.get('conv'):
            self.conv = True
            set_converters(self.C, len(edges) % 2)
            ue = Gobj(ue)
        return ue

    def restore(self, univ):
        """switch to the universe univ() gave, here or in another process"""
        us = [e + (self.defaults[e],) if e in self.defaults else e for e in univ]
        self.C.set_universe(Gobj(us) if self.conv else us, traversal='as-is')

    def univ(self):
        u = self.C.universe()
        if isinstance(u, Gobj) != self.conv:
            raise Violation('mismatch:universe', 'universe() is %r' % (u,))
        if {frozenset([e[:2]] + [x for x in e[2:] if x != {'color': 1}]) for e in u} != self.wuniv:
            raise Violation('mismatch:universe', 'universe() %r, not %r' % (u, self.wuniv))
        return [e[:2] for e in u]

    def key(self, x):
        if isinstance(x, Gobj) != self.conv:
            raise Violation('mismatch:member', 'a graph was returned as %r' % (x,))
        return Ad.key(self, [e[:2] for e in x])

    def flipped(self, e, r):
        e = (e[1], e[0]) if r % 3 == 1 else e
        return e + (2.5,) if (r >> 5) % 11 == 0 else e

    elem = flipped

    def arg_set(self, s, r):
        s = [self.flipped(e, r >> (2 + i)) for i, e in enumerate(s)]
        if self.conv and r & 8: return Gobj(s)
        return [set(s), frozenset(s), list(s)][r % 3]

    def new(self, sets, r=0):
        return self.C([(Gobj if self.conv else list)(self.arg_set(s, r + i)) for i, s in enumerate(sets)])

    def new_dict(self, inc, exc):
        d = {}
        if inc is not None: d['include'] = list(inc)
        if exc is not None: d['exclude'] = list(exc)
        return self.C(d)

    def vertex_elems(self, v):
        return [e for e in self.elems if v in e]


class DiAd(GraphAd):
    name = 'DiGraphSet'

    def setup(self, init):
        from graphillion import DiGraphSet
        self.C = DiGraphSet
        lab = [label(init['labels'], i) for i in range(init['nv'])]
        self.verts = lab
        edges = [(lab[u], lab[v]) for u, v in init['edges']]
        kw = {}
        if init.get('traversal'):
            kw['traversal'] = init['traversal']
        DiGraphSet.set_universe(self.weighted(init, edges), **kw)
        self.elems = self.univ()
        if sorted(self.elems) != sorted(edges):
            raise Violation('mismatch:universe', 'universe() %r for %r' % (self.elems, edges))

    def flipped(self, e, r):
        if r % 3 == 1 and (e[1], e[0]) not in self.elems: e = (e[1], e[0])
        return e + (2.5,) if (r >> 5) % 11 == 0 else e

    elem = flipped


class VertAd(Ad):
    name = 'VertexSetSet'
    ops_missing = frozenset(['flip_all', 'incl_vertex', 'excl_vertex', 'contains_vertex', 'remove_vertex', 'discard_vertex'])
    m = dict(sub='subgraphs', sup='supergraphs', nsub='non_subgraphs', nsup='non_supergraphs',
             hitting='blocking', size='graph_size', rm_some='remove_some_vertex', add_some='add_some_vertex',
             swap_some='remove_add_some_vertices', incl='including', excl='excluding')

    def setup(self, init):
        from graphillion import GraphSet, VertexSetSet
        from graphillion.universe import Universe
        self.C = VertexSetSet
        lab = [label(init['labels'], i) for i in range(init['nv'])]
        edges = [(lab[u], lab[v]) for u, v in init['edges']]
        self.defaults = {}
        if init.get('vweights'):
            self.defaults = {x: w for x, w in zip(lab, init['vweights']) if w is not None and any(x in e for e in edges)}
            if init['nv'] % 2:
                Universe.set_universe(edges, weights=dict(self.defaults))
            else:  # the order of the vertices is the one given
                GraphSet.set_universe(edges)
                vs = [x for x in lab if any(x in e for e in edges)]
                VertexSetSet.set_universe([(x, self.defaults[x]) if x in self.defaults else x for x in vs])
        else:
            GraphSet.set_universe(edges)
        self.elems = self.univ()
        if set(self.elems) != {x for e in edges for x in e} or len(self.elems) != len(set(self.elems)):
            raise Violation('mismatch:universe', 'vertex universe %r for %r' % (self.elems, edges))

    def univ(self):
        u = list(self.C.universe())
        want = {x: w for x, w in self.defaults.items() if w != 1}
        if {x[0]: x[1] for x in u if isinstance(x, tuple)} != want:
            raise Violation('mismatch:universe', 'universe() %r with weights %r' % (u, want))
        return [x[0] if isinstance(x, tuple) else x for x in u]

    def arg_set(self, s, r):
        s = list(s)
        return [set(s), frozenset(s), list(s)][r % 3]

    def new(self, sets, r=0):
        return self.C([list(s) for s in sets])

    def new_dict(self, inc, exc):
        d = {}
        if inc is not None: d['include'] = list(inc)
        if exc is not None: d['exclude'] = list(exc)
        return self.C(d)


class EVAd(Ad):
    name = 'EdgeVertexSetSet'
    ops_missing = frozenset(['flip', 'flip_all', 'new_dict', 'rm_some', 'add_some', 'swap_some', 'hitting',
                             'complement', 'add_elem', 'remove_elem', 'discard_elem', 'quotient', 'remainder',
                             'incl_vertex', 'excl_vertex', 'contains_vertex', 'remove_vertex', 'discard_vertex', 'invert', 'add_set',
                             'including_set', 'excluding_set', 'included_set', 'upd_quotient', 'upd_remainder'])
    m = dict(sub='subgraphs', sup='supergraphs', nsub='non_subgraphs', nsup='non_supergraphs',
             size='graph_size', incl='including', excl='excluding')

    def setup(self, init):
        from graphillion import GraphSet, EdgeVertexSetSet
        from graphillion.universe import Universe
        self.C = EdgeVertexSetSet
        lab = [label(init['labels'], i) for i in range(init['nv'])]
        edges = [(lab[u], lab[v]) for u, v in init['edges']]
        self.defaults = {}
        if init.get('weights'):
            self.defaults = {e: w for e, w in zip(edges, init['weights']) if w is not None}
            self.defaults.update({x: w for x, w in zip(lab, init['vweights']) if w is not None and any(x in e for e in edges)})
        Universe.set_universe(edges, traversal='as-is', weights=dict(self.defaults) if self.defaults else None)
        self.edges = edges
        self.elems = self.univ()

    def univ(self):
        from graphillion.universe import Universe
        return list(Universe.edge_vertex_universe())

    def close(self, s):
        s = set(s)
        for e in list(s):
            if isinstance(e, tuple) and e in self.edges:
                s |= set(e)
        return frozenset(s)

    def new(self, sets, r=0):
        return self.C([list(s) for s in sets])


ADS = {a.name: a for a in (SetAd, GraphAd, DiAd, VertAd, EVAd)}


# ------------------------------------------------------------------ generation
def gen_init(rng, cls, labels=None, conv=False):
    if cls == 'setset':
        n = rng.choice([2, 3, 4, 5, 5, 6, 6, 7])
        return {'cls': cls, 'n': n, 'labels': labels or rng.choice(['int1', 'str', 'tup', 'int0', 'neg']),
                'universe': rng.random() < 0.8}
    nv = rng.choice([2, 3, 4, 4, 5, 5])
    if cls == 'DiGraphSet':
        ne = rng.randint(1, min(7, nv * (nv - 1)))
        edges = rand_digraph(rng, nv, ne)
        lab = labels or rng.choice(['int1', 'str', 'int0', 'neg'])
    elif cls == 'VertexSetSet':
        nv = rng.choice([3, 4, 5, 6, 7])
        edges = rand_graph(rng, nv, rng.randint(nv - 1, nv + 3), True)
        lab = labels or rng.choice(['int1', 'str', 'int0', 'neg'])
    elif cls == 'EdgeVertexSetSet':
        nv = rng.choice([2, 3, 3, 4])
        edges = rand_graph(rng, nv, rng.randint(1, 4))
        lab = labels or rng.choice(['int1', 'str'])
    else:
        edges = rand_graph(rng, nv, rng.randint(1, min(7, nv * (nv - 1) // 2)))
        lab = labels or rng.choice(['int1', 'str', 'int0', 'neg', 'strw'])
    init = {'cls': cls, 'nv': nv, 'edges': edges, 'labels': lab}
    if cls in ('GraphSet', 'DiGraphSet') and rng.random() < 0.6:
        init['traversal'] = rng.choice(['bfs', 'dfs', 'greedy', 'as-is'])
    wt = lambda n: [None if rng.random() < 0.2 else rng.choice([rng.randint(-3, 6), rng.randint(-9, 9) / 2, 1, 0, 10**9]) for _ in range(n)]
    if rng.random() < 0.3:
        if cls != 'VertexSetSet': init['weights'] = wt(len(edges))
        if cls in ('VertexSetSet', 'EdgeVertexSetSet'): init['vweights'] = wt(nv)
    if cls in ('GraphSet', 'DiGraphSet') and conv and rng.random() < 0.25:
        init['conv'] = True
    return init


BIN = ['union', 'intersection', 'difference', 'symdiff', 'quotient', 'remainder', 'join', 'meet',
       'sub', 'sup', 'nsub', 'nsup']
UPD = ['union', 'intersection', 'difference', 'symdiff', 'quotient', 'remainder']
UN = ['minimal', 'maximal', 'hitting', 'invert', 'complement', 'rm_some', 'add_some', 'swap_some', 'copy']
GROUPS = {
    'make': ['new_list', 'new_list', 'new_list', 'new_dict', 'new_copy', 'new_empty'],
    'bin': BIN + ['multi', 'including_fam', 'excluding_fam', 'included_fam'],
    'memo': ['minimal', 'maximal', 'nsub', 'nsup', 'rand_some', 'hitting', 'minimal', 'maximal'],
    'upd': ['upd_' + x for x in UPD] + ['multi_upd'],
    'un': UN,
    'elem': ['incl', 'excl', 'flip', 'add_elem', 'remove_elem', 'discard_elem', 'contains_elem',
             'incl_vertex', 'excl_vertex', 'contains_vertex', 'remove_vertex', 'discard_vertex'],
    'sets': ['add_set', 'remove_set', 'discard_set', 'contains_set', 'pop', 'choice', 'including_set',
             'excluding_set', 'included_set', 'clear', 'flip_all'],
    'size': ['smaller', 'larger', 'size', 'len_size', 'len'],
    'cmp': ['cmp', 'disjoint', 'bool'],
    'weight': ['min_iter', 'max_iter', 'cost_le', 'cost_ge', 'cost_eq', 'prob', 'rand_some', 'choices', 'rand_uniform'],
    'iter': ['it_new', 'it_new', 'it_next', 'it_next', 'it_next', 'it_next', 'it_drain', 'it_drop'],
    'mem': ['drop', 'drop', 'gc', 'churn'],
    'grow': ['grow', 'set_universe'],
    'io': ['roundtrip', 'dumps', 'loads_old'],
    'reconf': ['rm_some', 'add_some', 'swap_some'],
    'bad': ['bad'],
    'repr': ['repr'],
}
BASE_W = {'make': 5, 'bin': 6, 'memo': 2, 'upd': 3, 'un': 3, 'elem': 4, 'sets': 3, 'size': 1.5, 'cmp': 1.5,
          'weight': 1.5, 'iter': 3, 'mem': 3, 'grow': 0.5, 'io': 0.7, 'reconf': 1, 'bad': 0.3, 'repr': 0.1}


def gen_ops(rng, n, weights):
    names = [k for k in weights if weights[k] > 0]
    # swarm: leave out some groups in each run
    keep = [k for k in names if rng.random() < 0.8 or weights[k] >= 5] or names
    if 'make' in names and 'make' not in keep:
        keep.append('make')
    ws = [weights[k] for k in keep]
    # and prefer a few operations
    fav = {k: rng.choice(GROUPS[k]) for k in keep}
    ops = []
    for _ in range(n):
        g = rng.choices(keep, ws)[0]
        o = fav[g] if rng.random() < 0.25 else rng.choice(GROUPS[g])
        if not ops or (len(ops) < 3 and rng.random() < 0.7):
            o = 'new_list'
        ops.append([o] + [rng.randrange(1 << 30) for _ in range(5)])
    return ops


def gen_mem_cfg(rng, mode=None):
    """node memory pressure of this run"""
    cfg = {}
    mode = mode or rng.choice(['none', 'hook', 'hook', 'hook', 'small', 'small'])
    if mode == 'hook':
        cfg['GC_PPM'] = rng.choice([2000, 10000, 50000, 200000])
        if rng.random() < 0.5:
            cfg['NODE_INIT'] = rng.choice([256, 300, 1000])
    elif mode == 'small':
        cfg['NODE_INIT'] = rng.choice([256, 256, 300, 512])
    elif mode == 'tiny':
        cfg['NODE_INIT'] = rng.choice([64, 100, 256])
    elif mode == 'deny':
        cfg['NODE_INIT'] = rng.choice([256, 300, 512, 1000])
        cfg['DENY_BIG'] = 6000
        cfg['DENY_PERMILLE'] = rng.choice([300, 600, 900])
    if rng.random() < 0.3:
        cfg['POISON'] = 1
    return cfg


# ------------------------------------------------------------------ execution
class Machine:
    def __init__(self, ctx, init, check_every=1.0, seed=0):
        self.ctx = ctx
        self.ad = ADS[init['cls']]()
        self.ad.setup(init)
        self.pool = []       # [obj, model]
        self.iters = []      # dict(it, left, kind, ...)
        self.dumps = []      # (text, model)
        self.check_every = check_every
        self.r = random.Random(seed)
        self.f = Faults(ctx)
        self.cur_it = None

    # -- helpers
    def u(self):
        return list(self.ad.univ())

    def pick(self, r):
        if not self.pool:
            self.push(self.ad.new([]), frozenset())
        return self.pool[r % len(self.pool)]

    def push(self, obj, model):
        if len(model) > MAXFAM:
            return
        self.pool.append([obj, model])
        if len(self.pool) > POOL:
            del self.pool[self.r.randrange(len(self.pool))]

    def rnd_set(self, r, univ=None):
        u = self.ad.elems if univ is None else univ
        q = random.Random(r)
        k = q.random()
        s = frozenset(e for e in u if q.random() < k)
        if isinstance(self.ad, EVAd):
            s = self.ad.close(s)
        return s

    def rnd_fam(self, r):
        q = random.Random(r)
        n = q.choice([0, 1, 1, 2, 3, 4, 6, 9, 14])
        return [self.rnd_set(q.randrange(1 << 30)) for _ in range(n)]

    def members(self, obj):
        self.f.disarm()
        out = []
        n = 0
        for x in obj:
            out.append(self.ad.key(x))
            n += 1
            if n > 5000:
                raise Violation('mismatch:iter', 'iteration does not end')
        s = frozenset(out)
        if len(s) != len(out):
            raise Violation('mismatch:iter', 'a member was yielded twice: %s' % canon(out))
        return s

    def verify(self, obj, model, what):
        got = self.members(obj)
        if got != model:
            extra, missing = got - model, model - got
            raise Violation('mismatch:' + what, 'extra=%s missing=%s (model has %d members)' % (
                canon(sorted(extra, key=canon)[:6]), canon(sorted(missing, key=canon)[:6]), len(model)))
        if self.r.random() < 0.3:
            k = self.r.randrange(3)
            if k == 0:
                if obj.len() != len(model):
                    raise Violation('mismatch:len', '%s: len %r, %d members' % (what, obj.len(), len(model)))
            elif k == 1:
                if bool(obj) != bool(model):
                    raise Violation('mismatch:bool', what)
            elif not isinstance(self.ad, EVAd):
                other = self.ad.new(list(model))
                if not (obj == other) or (obj != other):
                    raise Violation('mismatch:eq', '%s: not equal to a family built from the same members' % what)

    def verify_all(self, what):
        for i, (o, m) in enumerate(self.pool):
            got = self.members(o)
            if got != m:
                raise Violation('isolation:' + what, 'live family #%d changed: extra=%s missing=%s' % (
                    i, canon(sorted(got - m, key=canon)[:6]), canon(sorted(m - got, key=canon)[:6])))

    def snapshot_state(self):
        self.ctx.state(hash(canon([m for _, m in self.pool])))

    # -- run
    def run(self, ops):
        for i, op in enumerate(ops):
            self.ctx.step(i, op[0])
            self.ctx.stats['op:' + op[0]] += 1
            if op[0] in self.ad.ops_missing:
                continue
            fault = op[6] if len(op) > 6 else None
            self.cur_it = None
            try:
                if fault:
                    self.f.arm(fault)
                if hasattr(self, 'o_' + op[0]):
                    getattr(self, 'o_' + op[0])(*op[1:6])
                else:
                    self.generic(op[0], *op[1:6])
            except Violation:
                raise
            except Exception as e:
                if not fault or not self.f.hit():
                    raise
                self.ctx.stats['failed:' + type(e).__name__] += 1
                if self.cur_it in self.iters:
                    self.iters.remove(self.cur_it)
                self.cur_it = None
                self.f.disarm()
                self.verify_all(op[0])
            finally:
                self.f.disarm()
            if self.r.random() < self.check_every:
                self.verify_all(op[0])
                self.snapshot_state()
        self.ctx.step(len(ops), 'final')
        self.verify_all('final')
        for it in list(self.iters):
            self.drain(it)
        self.verify_all('final')
        self.snapshot_state()
        if len(ops) >= 5:
            self.ctx.nontrivial = True
        self.ctx.rec(canon([m for _, m in self.pool]))

    MODEL_BIN = dict(union=M.union, intersection=M.intersection, difference=M.difference, symdiff=M.symdiff,
                     quotient=M.quotient, remainder=M.remainder, join=M.join, meet=M.meet, sub=M.subsets,
                     sup=M.supersets, nsub=M.non_subsets, nsup=M.non_supersets)
    METH = dict(symdiff='symmetric_difference')
    OPER = dict(union='__or__', intersection='__and__', difference='__sub__', symdiff='__xor__',
                quotient='__truediv__', remainder='__mod__')

    def generic(self, name, a, b, c, d, e):
        if name in self.MODEL_BIN:
            o1, m1 = self.pick(a)
            o2, m2 = self.pick(b)
            if name in ('quotient', 'remainder') and not m2:
                return
            if len(m1) * len(m2) > 12000:
                return
            if c % 4 == 0 and name in self.OPER:
                import operator
                f = {'union': operator.or_, 'intersection': operator.and_, 'difference': operator.sub,
                     'symdiff': operator.xor, 'quotient': operator.truediv, 'remainder': operator.mod}[name]
                got = f(o1, o2)
            else:
                got = getattr(o1, self.ad.m.get(name, self.METH.get(name, name)))(o2)
            want = self.MODEL_BIN[name](m1, m2)
            self.verify(got, want, name)
            self.push(got, want)
        else:
            raise KeyError(name)

    # in-place forms share the names: decide by group prefix
    def upd(self, name, a, b, c):
        ent = self.pick(a)
        o2, m2 = self.pick(b)
        if name in ('quotient', 'remainder') and not m2:
            return
        o1 = ent[0]
        want = self.MODEL_BIN[name](ent[1], m2)
        if c % 2:
            import operator
            f = {'union': operator.ior, 'intersection': operator.iand, 'difference': operator.isub,
                 'symdiff': operator.ixor, 'quotient': operator.itruediv, 'remainder': operator.imod}[name]
            res = f(o1, o2)
            if res is not o1:
                # augmented assignment rebinds the caller's name only
                self.verify(res, want, 'i' + name)
                if self.members(o1) == ent[1]:
                    raise Violation('mismatch:i' + name, 'in-place operator did not update the object')
        else:
            meth = {'union': 'update', 'symdiff': 'symmetric_difference_update'}.get(name, name + '_update')
            getattr(o1, meth)(o2)
        # o1 and o2 may be the same entry
        ent[1] = want
        self.verify(o1, want, name + '_update')

    def o_upd_union(self, a, b, c, d, e): self.upd('union', a, b, c)
    def o_upd_intersection(self, a, b, c, d, e): self.upd('intersection', a, b, c)
    def o_upd_difference(self, a, b, c, d, e): self.upd('difference', a, b, c)
    def o_upd_symdiff(self, a, b, c, d, e): self.upd('symdiff', a, b, c)
    def o_upd_quotient(self, a, b, c, d, e): self.upd('quotient', a, b, c)
    def o_upd_remainder(self, a, b, c, d, e): self.upd('remainder', a, b, c)

    def o_multi(self, a, b, c, d, e):
        name = ['union', 'intersection', 'difference', 'symdiff'][d % 4]
        o1, m1 = self.pick(a)
        k = e % 4
        others = [self.pick(x) for x in (b, c, b >> 7)][:k]
        got = getattr(o1, self.METH.get(name, name))(*[x[0] for x in others])
        want = m1
        for x in others:
            want = self.MODEL_BIN[name](want, x[1])
        self.verify(got, want, name + '*%d' % k)
        if got is o1:
            raise Violation('mismatch:alias', name + ' returned its receiver')
        self.push(got, want)

    def o_multi_upd(self, a, b, c, d, e):
        name = ['union', 'intersection', 'difference', 'symdiff'][d % 4]
        ent = self.pick(a)
        k = e % 4
        others = [self.pick(x) for x in (b, c, b >> 7)][:k]
        want = ent[1]
        # an operand that is the receiver itself may be read before or after the
        # first steps: both orders are sequential
        cur = alt = want
        for x in others:
            cur = self.MODEL_BIN[name](cur, x[1])
            alt = self.MODEL_BIN[name](alt, alt if x is ent else x[1])
        meth = {'union': 'update', 'symdiff': 'symmetric_difference_update'}.get(name, name + '_update')
        getattr(ent[0], meth)(*[x[0] for x in others])
        if alt != cur and self.members(ent[0]) == alt:
            cur = alt
        ent[1] = cur
        self.verify(ent[0], cur, meth + '*%d' % k)

    # construction
    def o_new_list(self, a, b, c, d, e):
        sets = self.rnd_fam(a)
        self.push_checked(self.ad.new(sets, b), M.F(sets), 'new')

    def push_checked(self, o, m, what):
        self.verify(o, m, what)
        self.push(o, m)

    def o_new_empty(self, a, b, c, d, e):
        self.push_checked(self.ad.C() if a % 2 else self.ad.C([]), frozenset(), 'new_empty')

    def o_new_copy(self, a, b, c, d, e):
        o, m = self.pick(a)
        n = o.copy() if b % 2 else self.ad.C(o)
        self.push_checked(n, m, 'copy')

    o_copy = o_new_copy

    def o_new_dict(self, a, b, c, d, e):
        q = random.Random(a)
        u = self.u()
        inc, exc = [], []
        for x in u:
            t = q.random()
            if t < 0.25: inc.append(x)
            elif t < 0.5: exc.append(x)
        if isinstance(self.ad, VertAd):
            o = self.ad.new_dict(inc, exc if b % 3 else None) if (inc or exc) else self.ad.C({})
            if not b % 3: exc = []
        else:
            o = self.ad.new_dict(inc if b % 3 != 1 else None, exc if b % 3 != 2 else None)
            if b % 3 == 1: inc = []
            if b % 3 == 2: exc = []
        want = M.constrained(inc, exc, u)
        self.push_checked(o, want, 'new_dict')

    # unary
    def unary(self, name, a, model):
        o, m = self.pick(a)
        got = getattr(o, self.ad.m.get(name, name))()
        want = model(m)
        self.verify(got, want, name)
        self.push(got, want)

    def o_minimal(self, a, *x): self.unary('minimal', a, M.minimal)
    def o_maximal(self, a, *x): self.unary('maximal', a, M.maximal)
    def o_hitting(self, a, *x):
        u = self.u()
        # the library documents no value for the empty family; see DESIGN
        if len(u) <= 8 and self.pick(a)[1]:
            self.unary('hitting', a, lambda m: M.hitting(m, u))
    def o_rm_some(self, a, *x): self.unary('rm_some', a, M.rm_some)
    def o_add_some(self, a, *x):
        if self.u(): self.unary('add_some', a, lambda m: M.add_some(m, self.u()))
    def o_swap_some(self, a, *x):
        if self.u(): self.unary('swap_some', a, lambda m: M.swap_some(m, self.u()))

    def o_invert(self, a, *x):
        u = self.u()
        if len(u) > 8: return
        o, m = self.pick(a)
        got = ~o
        want = M.invert(m, u)
        self.verify(got, want, 'invert')
        self.push(got, want)

    def o_complement(self, a, *x):
        self.unary('complement', a, lambda m: M.flip_all(m, self.u()))

    def o_flip_all(self, a, *x):
        ent = self.pick(a)
        u = self.u()
        ent[0].flip()
        ent[1] = M.flip_all(ent[1], u)
        self.verify(ent[0], ent[1], 'flip_all')

    # element ops
    def an_elem(self, r):
        if not self.ad.elems:
            return None
        return self.ad.elems[r % len(self.ad.elems)]

    def o_incl(self, a, b, c, *x):
        e = self.an_elem(b)
        if e is None: return
        o, m = self.pick(a)
        got = getattr(o, self.ad.m['incl'])(self.ad.elem(e, c))
        self.push_checked(got, M.including(m, e), 'including_elem')

    def o_excl(self, a, b, c, *x):
        e = self.an_elem(b)
        if e is None: return
        o, m = self.pick(a)
        got = getattr(o, self.ad.m['excl'])(self.ad.elem(e, c))
        self.push_checked(got, M.excluding(m, e), 'excluding_elem')

    def o_incl_vertex(self, a, b, c, *x):
        v = self.ad.verts[b % len(self.ad.verts)]
        es = self.ad.vertex_elems(v)
        if not es or isinstance(v, tuple): return
        o, m = self.pick(a)
        self.push_checked(o.including(v), M.F(s for s in m if any(e in s for e in es)), 'including_vertex')

    def o_excl_vertex(self, a, b, c, *x):
        v = self.ad.verts[b % len(self.ad.verts)]
        es = self.ad.vertex_elems(v)
        if not es or isinstance(v, tuple): return
        o, m = self.pick(a)
        self.push_checked(o.excluding(v), M.F(s for s in m if not any(e in s for e in es)), 'excluding_vertex')

    def o_contains_vertex(self, a, b, c, *x):
        v = self.ad.verts[b % len(self.ad.verts)]
        es = self.ad.vertex_elems(v)
        if not es or isinstance(v, tuple): return
        o, m = self.pick(a)
        got = v in o
        self.ctx.check(got == any(e in s for s in m for e in es), 'mismatch:contains_vertex', lambda: repr((v, got)))

    def o_remove_vertex(self, a, b, c, *x):
        v = self.ad.verts[b % len(self.ad.verts)]
        es = self.ad.vertex_elems(v)
        if not es or isinstance(v, tuple): return
        ent = self.pick(a)
        present = [any(e in s for s in ent[1]) for e in es]
        try:
            ent[0].remove(v)
            ok = True
        except KeyError:
            ok = False
        # a vertex of which some edges occur and others do not may be refused or removed
        if all(present) and not ok or ok and not any(present):
            raise Violation('mismatch:remove_vertex', 'remove(%r) %s; its edges occur: %r' % (
                v, 'succeeded' if ok else 'raised KeyError', present))
        if ok:
            ent[1] = M.F(s - frozenset(es) for s in ent[1])
        self.verify(ent[0], ent[1], 'remove_vertex')

    def o_discard_vertex(self, a, b, c, *x):
        v = self.ad.verts[b % len(self.ad.verts)]
        es = self.ad.vertex_elems(v)
        if not es or isinstance(v, tuple): return
        ent = self.pick(a)
        ent[0].discard(v)
        ent[1] = M.F(s - frozenset(es) for s in ent[1])
        self.verify(ent[0], ent[1], 'discard_vertex')

    def o_flip(self, a, b, c, *x):
        e = self.an_elem(b)
        if e is None: return
        ent = self.pick(a)
        ent[0].flip(self.ad.elem(e, c))
        ent[1] = M.flip(ent[1], e)
        self.verify(ent[0], ent[1], 'flip')

    def o_add_elem(self, a, b, c, *x):
        e = self.an_elem(b)
        if e is None: return
        ent = self.pick(a)
        ent[0].add(self.ad.elem(e, c))
        ent[1] = M.add_elem(ent[1], e)
        self.verify(ent[0], ent[1], 'add_elem')

    def o_remove_elem(self, a, b, c, *x):
        e = self.an_elem(b)
        if e is None: return
        ent = self.pick(a)
        present = any(e in s for s in ent[1])
        try:
            ent[0].remove(self.ad.elem(e, c))
            ok = True
        except KeyError:
            ok = False
        if ok != present:
            raise Violation('mismatch:remove_elem', 'remove(%r) %s but element %s' % (
                e, 'succeeded' if ok else 'raised KeyError', 'present' if present else 'absent'))
        if ok:
            ent[1] = M.remove_elem(ent[1], e)
        self.verify(ent[0], ent[1], 'remove_elem')

    def o_discard_elem(self, a, b, c, *x):
        e = self.an_elem(b)
        if e is None: return
        ent = self.pick(a)
        ent[0].discard(self.ad.elem(e, c))
        ent[1] = M.remove_elem(ent[1], e)
        self.verify(ent[0], ent[1], 'discard_elem')

    def o_contains_elem(self, a, b, c, *x):
        e = self.an_elem(b)
        if e is None: return
        o, m = self.pick(a)
        got = self.ad.elem(e, c) in o
        if got != any(e in s for s in m):
            raise Violation('mismatch:contains_elem', '%r in family -> %r' % (e, got))

    # set ops
    def some_set(self, m, r):
        if m and r % 2:
            return sorted(m, key=canon)[(r >> 1) % len(m)]
        return self.rnd_set(r)

    def o_add_set(self, a, b, c, *x):
        ent = self.pick(a)
        s = self.some_set(ent[1], b)
        ent[0].add(self.ad.arg_set(s, c))
        ent[1] = ent[1] | {s}
        self.verify(ent[0], ent[1], 'add_set')

    def o_remove_set(self, a, b, c, *x):
        ent = self.pick(a)
        s = self.some_set(ent[1], b)
        try:
            ent[0].remove(self.ad.arg_set(s, c))
            ok = True
        except KeyError:
            ok = False
        if ok != (s in ent[1]):
            raise Violation('mismatch:remove_set', 'remove(%s) %s' % (canon(s), 'succeeded' if ok else 'raised KeyError'))
        ent[1] = ent[1] - {s}
        self.verify(ent[0], ent[1], 'remove_set')

    def o_discard_set(self, a, b, c, *x):
        ent = self.pick(a)
        s = self.some_set(ent[1], b)
        ent[0].discard(self.ad.arg_set(s, c))
        ent[1] = ent[1] - {s}
        self.verify(ent[0], ent[1], 'discard_set')

    def o_contains_set(self, a, b, c, *x):
        o, m = self.pick(a)
        s = self.some_set(m, b)
        got = self.ad.arg_set(s, c) in o
        if got != (s in m):
            raise Violation('mismatch:contains_set', '%s in family -> %r' % (canon(s), got))

    def o_pop(self, a, *x):
        ent = self.pick(a)
        try:
            s = self.ad.key(ent[0].pop())
        except KeyError:
            if ent[1]:
                raise Violation('mismatch:pop', 'KeyError from a family with %d members' % len(ent[1]))
            return
        if s not in ent[1]:
            raise Violation('mismatch:pop', 'popped a non-member %s' % canon(s))
        ent[1] = ent[1] - {s}
        self.verify(ent[0], ent[1], 'pop')

    def o_choice(self, a, *x):
        o, m = self.pick(a)
        try:
            s = self.ad.key(o.choice())
        except KeyError:
            if m:
                raise Violation('mismatch:choice', 'KeyError from a non-empty family')
            return
        if s not in m:
            raise Violation('mismatch:choice', 'chose a non-member %s' % canon(s))

    def o_including_set(self, a, b, c, *x):
        o, m = self.pick(a)
        s = self.some_set(m, b)
        self.push_checked(o.including(self.ad.arg_set(s, c)), M.F(t for t in m if s <= t), 'including_set')

    def o_excluding_set(self, a, b, c, *x):
        o, m = self.pick(a)
        s = self.some_set(m, b)
        self.push_checked(o.excluding(self.ad.arg_set(s, c)), M.F(t for t in m if not s <= t), 'excluding_set')

    def o_included_set(self, a, b, c, *x):
        o, m = self.pick(a)
        s = self.some_set(m, b)
        self.push_checked(o.included(self.ad.arg_set(s, c)), M.F(t for t in m if t <= s), 'included_set')

    def o_including_fam(self, a, b, *x):
        o, m = self.pick(a); o2, m2 = self.pick(b)
        self.push_checked(o.including(o2), M.supersets(m, m2), 'including_family')

    def o_excluding_fam(self, a, b, *x):
        o, m = self.pick(a); o2, m2 = self.pick(b)
        self.push_checked(o.excluding(o2), M.non_supersets(m, m2), 'excluding_family')

    def o_included_fam(self, a, b, *x):
        o, m = self.pick(a); o2, m2 = self.pick(b)
        self.push_checked(o.included(o2), M.subsets(m, m2), 'included_family')

    def o_clear(self, a, *x):
        ent = self.pick(a)
        ent[0].clear()
        ent[1] = frozenset()
        self.verify(ent[0], ent[1], 'clear')

    # sizes
    def size_arg(self, r):
        return r % (len(self.ad.elems) + 3)

    def o_smaller(self, a, b, *x):
        o, m = self.pick(a); k = self.size_arg(b)
        self.push_checked(o.smaller(k), M.smaller(m, k), 'smaller')

    def o_larger(self, a, b, *x):
        o, m = self.pick(a); k = self.size_arg(b)
        self.push_checked(o.larger(k), M.larger(m, k), 'larger')

    def o_size(self, a, b, *x):
        o, m = self.pick(a); k = self.size_arg(b)
        self.push_checked(getattr(o, self.ad.m['size'])(k), M.sized(m, k), 'sized')

    def o_len_size(self, a, b, *x):
        o, m = self.pick(a); k = self.size_arg(b)
        self.push_checked(o.len(k), M.sized(m, k), 'len(size)')

    def o_len(self, a, *x):
        o, m = self.pick(a)
        self.ctx.check(len(o) == len(m) and o.len() == len(m), 'mismatch:len', lambda: '%d/%r for %d members' % (len(o), o.len(), len(m)))

    # comparisons
    def o_cmp(self, a, b, c, d, e):
        o1, m1 = self.pick(a)
        o2, m2 = self.pick(b)
        if d % 3 == 0 and m1 and not isinstance(self.ad, EVAd):
            # compare with a family one member away
            l = sorted(m1, key=canon)
            m2 = frozenset(l[:-1]) if d % 2 else m1
            o2 = self.ad.new(list(m2))
        got = (o1 == o2, o1 != o2, o1 < o2, o1 <= o2, o1 > o2, o1 >= o2, o1.issubset(o2), o1.issuperset(o2))
        want = (m1 == m2, m1 != m2, m1 < m2, m1 <= m2, m1 > m2, m1 >= m2, m1 <= m2, m1 >= m2)
        if tuple(map(bool, got)) != want:
            raise Violation('mismatch:cmp', '==,!=,<,<=,>,>=,sub,super: got %r want %r' % (got, want))

    def o_disjoint(self, a, b, *x):
        o1, m1 = self.pick(a); o2, m2 = self.pick(b)
        got = o1.isdisjoint(o2)
        self.ctx.check(bool(got) == (not (m1 & m2)), 'mismatch:isdisjoint', lambda: repr(got))

    def o_bool(self, a, *x):
        o, m = self.pick(a)
        self.ctx.check(bool(o) == bool(m), 'mismatch:bool', lambda: 'bool %r, %d members' % (bool(o), len(m)))

    # weights
    def weights(self, r):
        q = random.Random(r)
        u = self.u()
        mode = q.choice(['small', 'zero', 'big', 'partial', 'neg', 'half', 'huge', 'fine', 'mixed'])
        w = {}
        for e in u:
            if mode == 'partial' and q.random() < 0.5:
                continue
            w[e] = {'small': q.randint(-3, 5), 'zero': q.randint(0, 1), 'big': q.randint(-10**6, 10**6),
                    'partial': q.randint(-2, 4), 'neg': -q.randint(0, 4), 'half': q.randint(-8, 8) * 0.5,
                    'huge': q.randint(-10**13, 10**13), 'fine': q.randint(-50, 50) * 2.0 ** -30,
                    'mixed': q.choice([-1, 1]) * q.choice([1, 3, 1 << 31, 1 << 33, 10**10])}[mode]
        return w

    def as_keys(self, w, r):
        """the weights or costs as passed: some edges the other way round"""
        if self.ad.name not in ('GraphSet', 'EdgeVertexSetSet') or r % 3: return w
        q = random.Random(r)
        return {(e[1], e[0]) if isinstance(e, tuple) and q.random() < 0.4 else e: x for e, x in w.items()}

    def ordered(self, a, b, c, direction):
        o, m = self.pick(a)
        w = self.weights(b)
        if self.ad.name != 'setset' and c % 4 == 0:
            default = 1
            w = self.ad.defaults  # those of the universe
            it = (o.min_iter if direction > 0 else o.max_iter)()
        elif self.ad.name == 'setset' and c % 3 == 0:
            default = [0, 2, -1][c % 7 % 3]
            it = (o.min_iter if direction > 0 else o.max_iter)(w, default)
        else:
            default = 1
            it = (o.min_iter if direction > 0 else o.max_iter)(self.as_keys(w, b))
        seq = []
        for x in it:
            seq.append(self.ad.key(x))
            if len(seq) > 3000:
                raise Violation('mismatch:order', 'weighted iteration does not end')
        if len(set(seq)) != len(seq) or frozenset(seq) != m:
            raise Violation('mismatch:weighted_iter', 'yielded %d sets (%d distinct) for %d members; wrong: %s' % (
                len(seq), len(set(seq)), len(m), canon(sorted(frozenset(seq) ^ m, key=canon)[:5])))
        ws = [M.weight(s, w, default) for s in seq]
        for i in range(1, len(ws)):
            if (ws[i] - ws[i - 1]) * direction < 0:
                raise Violation('mismatch:weighted_order', 'weights %r not monotone; map %s' % (ws[:20], canon(list(w.items()))))

    def o_min_iter(self, a, b, c, *x): self.ordered(a, b, c, 1)
    def o_max_iter(self, a, b, c, *x): self.ordered(a, b, c, -1)

    def costs(self, r):
        q = random.Random(r)
        mode = q.choice(['small', 'zero', 'neg', 'wide', 'big', 'limit'])
        return {e: {'small': q.randint(1, 5), 'zero': q.randint(0, 2), 'neg': q.randint(-5, 5),
                    'wide': q.randint(-1000, 1000), 'big': q.randint(-10**8, 10**8),
                    'limit': q.choice([-1, 1]) * (2**31 - 1 - q.choice([0, 0, 1, 2**30]))}[mode] for e in self.u()}

    def cost(self, name, a, b, c):
        o, m = self.pick(a)
        w = self.costs(b)
        tot = {s: sum(w[e] for e in s) for s in m}
        vals = sorted(set(tot.values())) or [0]
        k = vals[c % len(vals)] + [0, 0, 1, -1][(c >> 8) % 4]
        if (c >> 12) % 7 == 0:
            k = [0, -10, 50, sum(w.values())][c % 4]
        k = max(-2**31 + 1, min(2**31 - 1, k))
        try:
            got = getattr(o, name)(self.as_keys(w, b), k)
        except OverflowError:
            # refused when some total does not fit 32 bits
            if max(sum(x for x in w.values() if x > 0), -sum(x for x in w.values() if x < 0)) < 2**31 - 2: raise
            return
        f = {'cost_le': lambda t: t <= k, 'cost_ge': lambda t: t >= k, 'cost_eq': lambda t: t == k}[name]
        self.push_checked(got, M.F(s for s in m if f(tot[s])), name)

    def o_cost_le(self, a, b, c, *x): self.cost('cost_le', a, b, c)
    def o_cost_ge(self, a, b, c, *x): self.cost('cost_ge', a, b, c)
    def o_cost_eq(self, a, b, c, *x): self.cost('cost_eq', a, b, c)

    def o_prob(self, a, b, *x):
        o, m = self.pick(a)
        q = random.Random(b)
        u = self.u()
        p = {e: q.choice([0.0, 1.0, 0.5, q.random(), q.random()]) for e in u}
        if b % 5 == 0:
            p = {e: (int(v) if v in (0.0, 1.0) else v) for e, v in p.items()}
        got = o.probability(p)
        want = M.probability(m, p, u)
        if not abs(got - want) < 1e-9:
            raise Violation('mismatch:probability', 'got %r want %r' % (got, want))

    def o_rand_some(self, a, b, *x):
        o, m = self.pick(a)
        n = b % 6
        seen = set()
        it = o.rand_iter()
        for _ in range(n):
            try:
                s = self.ad.key(next(it))
            except StopIteration:
                if len(seen) != len(m):
                    raise Violation('mismatch:rand_iter', 'ended after %d of %d members' % (len(seen), len(m)))
                break
            if s not in m or s in seen:
                raise Violation('mismatch:rand_iter', 'yielded %s %s' % ('again' if s in seen else 'a non-member', canon(s)))
            seen.add(s)

    def o_choices(self, a, b, *x):
        for _ in range(b % 4):
            self.o_choice(a)

    def o_rand_uniform(self, a, *x):
        """the first set of a random iteration is drawn uniformly"""
        o, m = self.pick(a)
        k = len(m)
        if not 2 <= k <= 8 or self.r.random() < 0.6: return
        n = {}
        for _ in range(200 * k):
            s = self.ad.key(next(iter(o.rand_iter())))
            n[s] = n.get(s, 0) + 1
        if set(n) - m:
            raise Violation('mismatch:rand_iter', 'yielded a non-member')
        # 200 expected for each; the deviation allowed is more than 7 sigma
        if any(abs(n.get(s, 0) - 200) > 105 for s in m):
            raise Violation('mismatch:rand_uniform', 'first draws %r of %d' % (sorted(n.get(s, 0) for s in m), 200 * k))

    # iterators
    def o_it_new(self, a, b, c, *x):
        if len(self.iters) >= 6:
            return
        ent = self.pick(a)
        o, m = ent
        kind = ['iter', 'rand', 'min', 'max', 'iter'][b % 5]
        d = {'kind': kind, 'ent': ent, 'init': m, 'started': False, 'left': None, 'last': None}
        if kind == 'iter': d['it'] = iter(o)
        elif kind == 'rand': d['it'] = o.rand_iter()
        else:
            d['w'] = self.weights(c)
            arg = [self.as_keys(d['w'], c)]
            if self.ad.name != 'setset' and c % 4 == 0:
                d['w'], arg = self.ad.defaults, []
            d['it'] = (o.min_iter if kind == 'min' else o.max_iter)(*arg)
        d['obj'] = o
        if (c >> 10) % 3 == 0:
            del d['obj']
        self.iters.append(d)

    def advance(self, d):
        """one next(); the snapshot is the family at creation or at the first next"""
        self.cur_it = d
        if not d['started']:
            d['started'] = True
            now = d['ent'][1]
            d['cands'] = [set(d['init'])] + ([set(now)] if now != d['init'] else [])
        try:
            x = next(d['it'])
        except StopIteration:
            d['cands'] = [c for c in d['cands'] if not c]
            if not d['cands']:
                raise Violation('mismatch:iterator', '%s iterator ended with members left' % d['kind'])
            return False
        s = self.ad.key(x)
        ok = [c for c in d['cands'] if s in c]
        if not ok:
            raise Violation('mismatch:iterator', '%s iterator yielded %s: not in the snapshot, or twice' % (d['kind'], canon(s)))
        for c in ok:
            c.discard(s)
        d['cands'] = ok
        if d['kind'] in ('min', 'max'):
            w = M.weight(s, d['w'], 1)
            if d['last'] is not None and (w - d['last']) * (1 if d['kind'] == 'min' else -1) < 0:
                raise Violation('mismatch:weighted_order', 'weight %r after %r' % (w, d['last']))
            d['last'] = w
        return True

    def drain(self, d):
        n = 0
        while self.advance(d):
            n += 1
            if n > 3000:
                raise Violation('mismatch:iterator', 'does not end')
        if d in self.iters:
            self.iters.remove(d)

    def o_it_next(self, a, b, *x):
        if not self.iters: return
        d = self.iters[a % len(self.iters)]
        for _ in range(1 + b % 3):
            if not self.advance(d):
                # exhausted iterators stay exhausted
                try:
                    next(d['it'])
                    raise Violation('mismatch:iterator', 'yields after exhaustion')
                except StopIteration:
                    pass
                self.iters.remove(d)
                break

    def o_it_drain(self, a, *x):
        if self.iters:
            self.drain(self.iters[a % len(self.iters)])

    def o_it_drop(self, a, *x):
        if self.iters:
            del self.iters[a % len(self.iters)]

    # memory
    def o_drop(self, a, *x):
        if self.pool:
            del self.pool[a % len(self.pool)]

    def o_gc(self, a, *x):
        if a % 3:
            # families of the graph classes are reference cycles
            import gc
            gc.collect()
        if self.ctx.sim.gc:
            self.ctx.sim.gc()
            self.ctx.stats['explicit_gc'] += 1

    def o_churn(self, a, b, *x):
        """temporaries that come and go, so that node slots are reused"""
        q = random.Random(a)
        for _ in range(1 + b % 4):
            s1 = self.rnd_fam(q.randrange(1 << 30))
            s2 = self.rnd_fam(q.randrange(1 << 30))
            o = self.ad.new(s1) | self.ad.new(s2)
            self.verify(o, M.F(s1) | M.F(s2), 'churn')
            if q.random() < 0.5:
                self.verify(o.minimal(), M.minimal(M.F(s1) | M.F(s2)), 'churn_minimal')
            if q.random() < 0.5:
                self.verify(o.maximal(), M.maximal(M.F(s1) | M.F(s2)), 'churn_maximal')
            del o

    # universe
    def o_grow(self, a, b, c, *x):
        if not self.ad.grows or len(self.ad.elems) >= 8:
            return
        before = self.u()
        e = self.ad.grow(a)
        if e is None: return
        ent = self.pick(b)
        how = c % 6
        if how == 0:
            got = e in ent[0]
            if got: raise Violation('mismatch:contains_elem', 'new element is contained')
        elif how == 1:
            o = self.ad.C([set([e])])
            self.push_checked(o, M.F([[e]]), 'new')
        elif how == 2:
            ent[0].add(set([e]))
            ent[1] = ent[1] | {frozenset([e])}
        elif how == 3:
            ent[0].add(e)
            ent[1] = M.add_elem(ent[1], e)
        elif how == 4:
            ent[0].discard(e)
        else:
            ent[0].flip(e)
            ent[1] = M.flip(ent[1], e)
        self.verify(ent[0], ent[1], 'grow')
        after = self.u()
        if after[:len(before)] != before or set(after) != set(before) | {e}:
            raise Violation('mismatch:universe', 'after introducing %r: %r -> %r' % (e, before, after))

    def o_set_universe(self, a, *x):
        """restoring the same universe keeps every family's meaning"""
        if self.ad.name != 'setset' or not self.ad.elems: return
        u = self.u()
        try:
            if a % 3 == 0:
                q = random.Random(a)
                other = list(range(100, 100 + q.randint(1, 4)))
                self.ad.C.set_universe(other)
                t = self.ad.C([set(other[:1]), set(other)])
                self.f.disarm()
                if M.F(t) != M.F([other[:1], other]):
                    raise Violation('mismatch:universe', 'family in a switched universe is wrong')
        finally:
            self.f.disarm()
            self.ad.C.set_universe(u)

    # io
    def o_dumps(self, a, *x):
        o, m = self.pick(a)
        self.dumps.append((o.dumps(), m))
        if len(self.dumps) > 4:
            self.dumps.pop(0)

    def o_loads_old(self, a, *x):
        if not self.dumps: return
        t, m = self.dumps[a % len(self.dumps)]
        self.push_checked(self.ad.C.loads(t), m, 'loads')

    def o_roundtrip(self, a, b, *x):
        o, m = self.pick(a)
        n = self.ad.C.loads(o.dumps())
        if not (n == o):
            raise Violation('mismatch:roundtrip', 'loads(dumps()) is not equal')
        self.push_checked(n, m, 'loads')

    def o_repr(self, a, *x):
        o, m = self.pick(a)
        if not isinstance(repr(o), str):
            raise Violation('mismatch:repr', 'not a string')

    # failing calls
    def o_bad(self, a, b, c, d, e):
        import badcalls
        badcalls.one(self, a, b, c, d, e)


class MachineWorkload:
    """Shared workload; properties differ in weights, pressure and classes."""

    def __init__(self, weights=None, classes=None, mem=None, nops=(8, 45), check=(1.0, 0.3, 0.0), oom=0):
        self.w = dict(BASE_W)
        self.w.update(weights or {})
        self.classes = classes or ['setset'] * 5 + ['GraphSet'] * 4 + ['DiGraphSet', 'VertexSetSet', 'VertexSetSet', 'EdgeVertexSetSet']
        self.mem = mem
        self.oom = oom
        self.nops = nops
        self.check = check

    def gen(self, rng, tier, idx):
        cls = rng.choice(self.classes)
        conv = not self.w.get('bad')
        n = rng.randint(*self.nops)
        if tier == 'thorough' and rng.random() < 0.3:
            n *= 3
        ops = gen_ops(rng, n, self.w)
        if self.oom:
            for o in ops:
                if rng.random() < self.oom:
                    o.append(gen_fault(rng))
        return {'cfg': gen_mem_cfg(rng, self.mem(rng) if self.mem else None), 'init': gen_init(rng, cls, conv=conv),
                'ops': ops, 'check': rng.choice(self.check), 'mseed': rng.randrange(1 << 30)}

    def run(self, t, ctx):
        m = Machine(ctx, t['init'], t['check'], t['mseed'])
        ctx.may_die(False)
        m.run(t['ops'])
        ctx.sample = {'init': t['init'], 'cfg': t['cfg'], 'first_ops': t['ops'][:4], 'n_ops': len(t['ops'])}
