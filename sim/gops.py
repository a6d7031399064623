"""Subgraph-family searches against brute force over all edge subsets (<= 10 edges).

Everything in a trace is in index space (vertices 0..nv-1, edges 0..m-1, families as lists of
edge masks), so the expected answer never depends on labels, element order or hash seed.
"""
import itertools
from core import Violation, canon
from graphs_util import rand_graph, rand_digraph, label, Gobj, set_converters, unset_converters


def bits(mask):
    i = 0
    out = []
    while mask:
        if mask & 1:
            out.append(i)
        mask >>= 1
        i += 1
    return out


class World:
    """A universe plus brute-force knowledge of all its edge subsets."""
    conv = False

    def __init__(self, init):
        self.init = init
        self.directed = init.get('kind') == 'D'
        self.edges = [tuple(e) for e in init['edges']]
        self.m = len(self.edges)
        self.verts = sorted({v for e in self.edges for v in e})
        self.nv = max(self.verts) + 1
        self.lab = {v: label(init['labels'], v) for v in range(self.nv)}
        self.unlab = {l: v for v, l in self.lab.items()}
        self.full = (1 << self.m) - 1
        self._info = {}

    # ---- real side
    def classes(self):
        import graphillion
        return graphillion.DiGraphSet if self.directed else graphillion.GraphSet

    @property
    def C(self):
        return self.classes()

    def ledge(self, i, flip=False):
        u, v = self.edges[i]
        return (self.lab[v], self.lab[u]) if flip else (self.lab[u], self.lab[v])

    def setup(self):
        es = []
        order = self.init.get('order') or range(self.m)
        w = self.init.get('weights')
        for i in order:
            e = self.ledge(i)
            es.append(e + (w[i],) if w else e)
        kw = {}
        if self.init.get('traversal'):
            kw['traversal'] = self.init['traversal']
        if self.init.get('source') is not None:
            kw['source'] = self.lab[self.verts[self.init['source'] % len(self.verts)]]
        self.conv = bool(self.init.get('conv'))
        (set_converters if self.conv else unset_converters)(self.C)
        self.C.set_universe(Gobj(es) if self.conv else es, **kw)
        self.emap = {}
        for i in range(self.m):
            self.emap[self.ledge(i)] = i
            if not self.directed:
                self.emap[self.ledge(i, True)] = i
        got = [self.emap[e[:2]] for e in self.C.universe()]
        if sorted(got) != list(range(self.m)):
            raise Violation('mismatch:universe', 'universe() = %r' % (self.C.universe(),))
        self.order = got

    def mask(self, member):
        m = 0
        if isinstance(member, Gobj) != self.conv:
            raise Violation('mismatch:member', 'a graph was returned as %r' % (member,))
        for e in member:
            b = 1 << self.emap[tuple(e[:2])]
            if m & b:
                raise Violation('mismatch:member', 'an edge is repeated in %r' % (member,))
            m |= b
        return m

    def fam(self, obj):
        out = set()
        n = 0
        for g in obj:
            m = self.mask(g)
            if m in out:
                raise Violation('mismatch:iter', 'subgraph yielded twice: %s' % self.show(m))
            out.add(m)
            n += 1
            if n > (1 << self.m):
                raise Violation('mismatch:iter', 'too many subgraphs')
        return frozenset(out)

    def obj(self, masks):
        f = Gobj if self.conv else list
        return self.C([f(self.ledge(i) for i in bits(m)) for m in masks])

    def show(self, mask):
        return [self.edges[i] for i in bits(mask)]

    # ---- brute force, undirected
    def info(self, mask):
        r = self._info.get(mask)
        if r is None:
            deg = [0] * self.nv
            par = list(range(self.nv))

            def find(x):
                while par[x] != x:
                    par[x] = par[par[x]]
                    x = par[x]
                return x
            acyc = True
            for i in bits(mask):
                u, v = self.edges[i]
                deg[u] += 1
                deg[v] += 1
                a, b = find(u), find(v)
                if a == b:
                    acyc = False
                else:
                    par[a] = b
            comp = [find(v) for v in range(self.nv)]
            # edge components: those with at least one edge
            ecomps = {comp[v] for v in self.verts if deg[v]}
            r = self._info[mask] = (deg, comp, ecomps, acyc)
        return r

    def deg(self, mask): return self.info(mask)[0]
    def comp(self, mask): return self.info(mask)[1]
    def ecomps(self, mask): return self.info(mask)[2]
    def acyclic(self, mask): return self.info(mask)[3]

    def connected(self, mask):
        return len(self.ecomps(mask)) <= 1

    def touched(self, mask):
        d = self.deg(mask)
        return frozenset(v for v in self.verts if d[v])

    def induced_mask(self, vs, within=None):
        r = 0
        for i, (u, v) in enumerate(self.edges):
            if u in vs and v in vs and (within is None or within >> i & 1):
                r |= 1 << i
        return r

    def bipartite(self, mask):
        col = {}
        adj = {}
        for i in bits(mask):
            u, v = self.edges[i]
            adj.setdefault(u, []).append(v)
            adj.setdefault(v, []).append(u)
        for s in adj:
            if s in col:
                continue
            col[s] = 0
            st = [s]
            while st:
                x = st.pop()
                for y in adj[x]:
                    if y not in col:
                        col[y] = 1 - col[x]
                        st.append(y)
                    elif col[y] == col[x]:
                        return False
        return True

    def cycle(self, mask):
        d = self.deg(mask)
        return mask != 0 and self.connected(mask) and all(d[v] in (0, 2) for v in self.verts)

    def has_induced(self, mask, k, degs, conn=None):
        """mask, seen as a graph, has an induced subgraph on k vertices with this degree sequence"""
        degs = list(degs)
        ne = sum(degs) // 2
        t = sorted(self.touched(mask))
        for vs in itertools.combinations(t, k):
            s = set(vs)
            sub = self.induced_mask(s, mask)
            if bin(sub).count('1') != ne:
                continue
            d = self.deg(sub)
            if sorted(d[v] for v in vs) == degs and (conn is None or self.connected(sub)):
                return True
        return False

    def has_induced_cycle(self, mask, lengths):
        return any(self.has_induced(mask, k, [2] * k, True) for k in lengths)

    # ---- brute force, directed
    def dinfo(self, mask):
        r = self._info.get(mask)
        if r is None:
            ind, out = [0] * self.nv, [0] * self.nv
            succ = {}
            for i in bits(mask):
                u, v = self.edges[i]
                out[u] += 1
                ind[v] += 1
                succ.setdefault(u, []).append(v)
            r = self._info[mask] = (ind, out, succ)
        return r

    def dacyclic(self, mask):
        ind, out, succ = self.dinfo(mask)
        ind = list(ind)
        st = [v for v in self.verts if ind[v] == 0]
        n = 0
        while st:
            x = st.pop()
            n += 1
            for y in succ.get(x, []):
                ind[y] -= 1
                if ind[y] == 0:
                    st.append(y)
        return n == len(self.verts)

    def walk(self, mask, s):
        """follows out-arcs from s; returns the visited list (stops at repeat)"""
        ind, out, succ = self.dinfo(mask)
        seen = [s]
        x = s
        while succ.get(x):
            x = succ[x][0]
            if x in seen:
                return seen, x
            seen.append(x)
        return seen, None

    def all_masks(self):
        return range(1 << self.m)

    def select(self, pred, fam=None):
        return frozenset(k for k in (self.all_masks() if fam is None else fam) if pred(k))


# ---------------------------------------------------------------- parameter helpers
def g_range(rng, hi):
    """JSON form of an int or range constraint with small non-negative values"""
    k = rng.random()
    if k < 0.4:
        return rng.randint(0, hi)
    a = rng.randint(0, hi)
    b = rng.randint(a + 1, hi + 2)
    s = rng.choice([1, 1, 2, 3])
    return [a, b, s]


def mk_range(r):
    return r if isinstance(r, int) else range(*r)


def in_range(x, r):
    return x == r if isinstance(r, int) else x in range(*r)


def g_fam(rng, W, p=0.45):
    """None, or a random family of masks to search within"""
    if rng.random() > p:
        return None
    k = rng.random()
    if k < 0.25:
        q = rng.random()
        return [x for x in range(1 << W.m) if rng.random() < q]
    return sorted({rng.randrange(1 << W.m) for _ in range(rng.choice([0, 1, 3, 10, 30, 100]))})


def some_verts(rng, W, lo, hi):
    return rng.sample(W.verts, min(len(W.verts), rng.randint(lo, max(lo, hi))))


# ---------------------------------------------------------------- undirected searches
class Op:
    fam = True          # accepts graphset
    obj_method = True   # bound on objects too
    def gen(self, rng, W): return {}
    def call(self, W, C, p, kw): raise NotImplementedError
    def pred(self, W, p, m): raise NotImplementedError

    def expect(self, W, p):
        return W.select(lambda m: self.pred(W, p, m), p.get('fam'))

    def make(self, rng, W):
        p = self.gen(rng, W)
        if p is None:
            return None
        if self.fam:
            p['fam'] = g_fam(rng, W)
            p['obj'] = int(self.obj_method and rng.random() < 0.5)
        return p

    def real(self, W, p):
        C = W.C
        if p.get('fam') is not None:
            o = W.obj(p['fam'])
            if p.get('obj'):
                r = self.call(W, o, p, {})
            else:
                r = self.call(W, C, p, {'graphset': o})
            if W.fam(o) != frozenset(p['fam']):
                raise Violation('isolation:graphset', 'the search changed its graphset argument')
            return r
        return self.call(W, C, p, {})


class Graphs(Op):
    def gen(self, rng, W):
        p = {}
        if rng.random() < 0.6:
            vs = list(W.verts)
            rng.shuffle(vs)
            groups = []
            for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
                k = rng.choice([0, 1, 1, 2, 2, 3])
                groups.append([vs.pop() for _ in range(min(k, len(vs)))])
            p['groups'] = groups
        if rng.random() < 0.4:
            p['deg'] = [[v, g_range(rng, 3)] for v in some_verts(rng, W, 1, len(W.verts))]
        if rng.random() < 0.35:
            p['num'] = g_range(rng, W.m)
        if rng.random() < 0.35:
            p['no_loop'] = 1
        if rng.random() < 0.25:
            p['lin'] = []
            for _ in range(rng.choice([1, 1, 2])):
                es = []
                for i in rng.sample(range(W.m), rng.randint(1, W.m)):
                    es.append([i, rng.choice([None, rng.randint(-4, 6) * 0.5, float(rng.randint(1, 3))]), rng.randint(0, 1)])
                lo = rng.randint(-4, 6) * 0.5
                hi = lo + rng.randint(0, 8) * 0.5
                if rng.random() < 0.25:
                    s = 2.0 ** rng.choice([-30, -12, 8, 16, 31, 33, 45])  # no rounding of any sum
                    es = [[i, (1.0 if w is None else w) * s if rng.random() < 0.9 else w, f] for i, w, f in es]
                    lo, hi = lo * s, hi * s
                p['lin'].append([es, lo, hi])
        return p

    def call(self, W, C, p, kw):
        L = W.lab
        if 'groups' in p: kw['vertex_groups'] = [[L[v] for v in g] for g in p['groups']]
        if 'deg' in p: kw['degree_constraints'] = {L[v]: mk_range(r) for v, r in p['deg']}
        if 'num' in p: kw['num_edges'] = mk_range(p['num'])
        if 'no_loop' in p: kw['no_loop'] = True
        if 'lin' in p:
            kw['linear_constraints'] = [
                ([W.ledge(i, f) + (() if w is None else (w,)) for i, w, f in es], (lo, hi)) for es, lo, hi in p['lin']]
        return C.graphs(**kw)

    def pred(self, W, p, m):
        deg, comp, ecomps, acyc = W.info(m)
        if p.get('no_loop') and not acyc:
            return False
        if 'num' in p and not in_range(bin(m).count('1'), p['num']):
            return False
        for v, r in p.get('deg', []):
            if not in_range(deg[v], r):
                return False
        for es, lo, hi in p.get('lin', []):
            t = sum((1.0 if w is None else w) for i, w, f in es if m >> i & 1)
            if not (lo <= t <= hi):
                return False
        if p.get('groups'):
            cs = []
            empty = 0
            for g in p['groups']:
                if not g:
                    empty += 1
                    continue
                c = {comp[v] for v in g}
                if len(c) > 1:
                    return False
                cs.append(c.pop())
            if len(set(cs)) != len(cs):
                return False
            if len(ecomps - set(cs)) != empty:
                return False
        return True


class Components(Op):
    def gen(self, rng, W): return {'vs': some_verts(rng, W, 1, 4)}
    def call(self, W, C, p, kw): return C.connected_components([W.lab[v] for v in p['vs']], **kw)
    def pred(self, W, p, m):
        comp = W.comp(m)
        c = {comp[v] for v in p['vs']}
        return len(c) == 1 and W.ecomps(m) <= c


class SteinerSub(Components):
    def call(self, W, C, p, kw): return C.steiner_subgraphs([W.lab[v] for v in p['vs']], **kw)


class SteinerTrees(Components):
    def call(self, W, C, p, kw): return C.steiner_trees([W.lab[v] for v in p['vs']], **kw)
    def pred(self, W, p, m): return W.acyclic(m) and Components.pred(self, W, p, m)


class SteinerCycles(Components):
    def gen(self, rng, W): return {'vs': some_verts(rng, W, 2, 4)}
    def call(self, W, C, p, kw): return C.steiner_cycles([W.lab[v] for v in p['vs']], **kw)
    def pred(self, W, p, m): return W.cycle(m) and set(p['vs']) <= W.touched(m)


def is_path(W, m):
    d = W.deg(m)
    return m != 0 and W.acyclic(m) and W.connected(m) and all(d[v] <= 2 for v in W.verts)


class SteinerPaths(Components):
    def gen(self, rng, W): return {'vs': some_verts(rng, W, 2, 4)}
    def call(self, W, C, p, kw): return C.steiner_paths([W.lab[v] for v in p['vs']], **kw)
    def pred(self, W, p, m): return is_path(W, m) and set(p['vs']) <= W.touched(m)


class Cliques(Op):
    def gen(self, rng, W): return {'k': rng.choice([2, 3, 3, 4, 5])}
    def call(self, W, C, p, kw): return C.cliques(p['k'], **kw)
    def pred(self, W, p, m):
        t = W.touched(m)
        return len(t) == p['k'] and bin(m).count('1') == p['k'] * (p['k'] - 1) // 2


class Bicliques(Op):
    def gen(self, rng, W): return {'a': rng.choice([1, 2, 2, 3])}
    def call(self, W, C, p, kw): return C.bicliques(p['a'], p['a'], **kw)
    def pred(self, W, p, m):
        a = p['a']
        d = W.deg(m)
        t = W.touched(m)
        return m != 0 and len(t) == 2 * a and all(d[v] == a for v in t) and W.bipartite(m) and W.connected(m)


class Trees(Op):
    def gen(self, rng, W): return {'root': rng.choice([None] + W.verts), 'sp': rng.choice([None, 0, 1])}
    def call(self, W, C, p, kw):
        if p['root'] is not None: kw['root'] = W.lab[p['root']]
        if p['sp'] is not None: kw['is_spanning'] = bool(p['sp'])
        return C.trees(**kw)
    def pred(self, W, p, m):
        deg, comp, ec, acyc = W.info(m)
        if not acyc:
            return False
        if p['sp'] and len(W.touched(m)) != len(W.verts):
            return False
        if p['root'] is None:
            return len(ec) == 1
        return ec <= {comp[p['root']]}


class Forests(Op):
    def gen(self, rng, W): return {'roots': some_verts(rng, W, 1, 3), 'sp': rng.choice([None, 0, 1])}
    def call(self, W, C, p, kw):
        if p['sp'] is not None: kw['is_spanning'] = bool(p['sp'])
        return C.forests([W.lab[v] for v in p['roots']], **kw)
    def pred(self, W, p, m):
        deg, comp, ec, acyc = W.info(m)
        cs = [comp[v] for v in p['roots']]
        if not acyc or len(set(cs)) != len(cs) or not ec <= set(cs):
            return False
        return not p['sp'] or W.touched(m) | set(p['roots']) == set(W.verts)


class Cycles(Op):
    def gen(self, rng, W): return {'ham': int(rng.random() < 0.3)}
    def call(self, W, C, p, kw): return C.cycles(is_hamilton=bool(p['ham']), **kw) if p['ham'] else C.cycles(**kw)
    def pred(self, W, p, m): return W.cycle(m) and (not p['ham'] or len(W.touched(m)) == len(W.verts))


class Paths(Op):
    def gen(self, rng, W):
        k = rng.choice([0, 1, 2, 2])
        t = rng.sample(W.verts, k)
        return {'t': t, 'ham': int(rng.random() < 0.35)}
    def call(self, W, C, p, kw):
        if p['ham']: kw['is_hamilton'] = True
        return C.paths(*[W.lab[v] for v in p['t']], **kw)
    def pred(self, W, p, m):
        if not is_path(W, m):
            return False
        d = W.deg(m)
        if any(d[v] != 1 for v in p['t']):
            return False
        return not p['ham'] or len(W.touched(m)) == len(W.verts)


class Matchings(Op):
    def call(self, W, C, p, kw): return C.matchings(**kw)
    def pred(self, W, p, m): return all(x <= 1 for x in W.deg(m))


class PerfectMatchings(Op):
    def call(self, W, C, p, kw): return C.perfect_matchings(**kw)
    def pred(self, W, p, m): return all(W.deg(m)[v] == 1 for v in W.verts)


class KMatchings(Op):
    def gen(self, rng, W): return {'k': rng.randint(0, 3)}
    def call(self, W, C, p, kw): return C.k_matchings(p['k'], **kw)
    def pred(self, W, p, m): return all(x <= p['k'] for x in W.deg(m))


class KFactors(Op):
    def gen(self, rng, W): return {'k': rng.randint(0, 3)}
    def call(self, W, C, p, kw): return C.k_factors(p['k'], **kw)
    def pred(self, W, p, m): return all(W.deg(m)[v] == p['k'] for v in W.verts)


class BMatchings(Op):
    def gen(self, rng, W): return {'b': [[v, rng.randint(0, 3)] for v in some_verts(rng, W, 1, len(W.verts))]}
    def call(self, W, C, p, kw): return C.b_matchings({W.lab[v]: k for v, k in p['b']}, **kw)
    def pred(self, W, p, m):
        b = dict(map(tuple, p['b']))
        d = W.deg(m)
        return all(d[v] <= b.get(v, 0) for v in W.verts)


class FFactors(BMatchings):
    def call(self, W, C, p, kw): return C.f_factors({W.lab[v]: k for v, k in p['b']}, **kw)
    def pred(self, W, p, m):
        b = dict(map(tuple, p['b']))
        d = W.deg(m)
        return all(d[v] == b.get(v, 0) for v in W.verts)


# ---------------------------------------------------------------- structural classes
class Regular(Op):
    bip = False

    def gen(self, rng, W):
        k = rng.random()
        d = None if k < 0.35 else rng.randint(1, 3) if k < 0.7 else sorted([rng.randint(1, 3), rng.randint(1, 4)])
        return {'d': d, 'conn': rng.choice([None, 0, 1])}

    def call(self, W, C, p, kw):
        if p['d'] is not None: kw['degree'] = tuple(p['d']) if isinstance(p['d'], list) else p['d']
        if p['conn'] is not None: kw['is_connected'] = bool(p['conn'])
        return (C.regular_bipartite_graphs if self.bip else C.regular_graphs)(**kw)

    def pred(self, W, p, m):
        d = W.deg(m)
        t = W.touched(m)
        ds = {d[v] for v in t}
        if len(ds) > 1:
            return False
        if not m:
            # the graph without edges has no vertex: not listed as regular of degree >= 1
            return False
        k = ds.pop()
        r = p['d']
        if r is not None and (k != r if isinstance(r, int) else not r[0] <= k <= r[1]):
            return False
        if p['conn'] in (None, 1) and not W.connected(m):
            return False
        return not self.bip or W.bipartite(m)


class RegularBipartite(Regular):
    bip = True


class Bipartite(Op):
    def gen(self, rng, W): return {'conn': rng.choice([None, 0, 1])}
    def call(self, W, C, p, kw):
        if p['conn'] is not None: kw['is_connected'] = bool(p['conn'])
        return C.bipartite_graphs(**kw)
    def pred(self, W, p, m):
        return W.bipartite(m) and (p['conn'] == 0 or W.connected(m))


class DegDist(Op):
    def gen(self, rng, W):
        p = {'conn': rng.randint(0, 1), 'd': []}
        if rng.random() < 0.6:
            # the distribution of an actual subgraph, perhaps with wildcards
            m = rng.randrange(1 << W.m)
            d = W.deg(m)
            c = {}
            for v in W.verts:
                c[d[v]] = c.get(d[v], 0) + 1
            p['d'] = [[k, -1 if rng.random() < 0.3 else n] for k, n in c.items()]
            if rng.random() < 0.5:
                p['d'] = [x for x in p['d'] if x[0] != 0] + [[0, -1]]
        else:
            for k in rng.sample(range(0, 5), rng.randint(1, 4)):
                p['d'].append([k, rng.choice([-1, -1, 0, 1, 2, 2, 3])])
        return p

    def call(self, W, C, p, kw):
        return C.degree_distribution_graphs({k: n for k, n in p['d']}, bool(p['conn']), **kw)

    def pred(self, W, p, m):
        want = {k: n for k, n in p['d']}
        d = W.deg(m)
        c = {}
        for v in W.verts:
            c[d[v]] = c.get(d[v], 0) + 1
        for k, n in c.items():
            if k not in want:
                return False
        for k, n in want.items():
            if n != -1 and c.get(k, 0) != n:
                return False
        # a connected one has at least one edge
        return not p['conn'] or (m and W.connected(m))


class LetterP(Op):
    def call(self, W, C, p, kw): return C.letter_P_graphs(**kw)
    def pred(self, W, p, m):
        d = sorted(W.deg(m)[v] for v in W.touched(m))
        return W.connected(m) and d.count(1) == 1 and d.count(3) == 1 and all(x in (1, 2, 3) for x in d)


class Forbidden(Op):
    fam = False

    def gen(self, rng, W):
        n = rng.choice([1, 1, 2, 3, 5, 8])
        fs = set()
        for _ in range(n):
            q = rng.choice([0.2, 0.35, 0.5, 0.8])
            x = sum(1 << i for i in range(W.m) if rng.random() < q)
            if x: fs.add(x)
        return {'fs': sorted(fs)} if fs else None

    def real(self, W, p):
        o = W.obj(p['fs'])
        return W.C.forbidden_induced_subgraphs(o)

    def pred(self, W, p, m):
        for f in p['fs']:
            if f & m == f and W.induced_mask(W.touched(f), m) == f:
                return False
        return True


ODD = lambda W: range(5, len(W.verts) + 1, 2)


def ind(k, *degs):
    return lambda W, m: W.has_induced(m, k, sorted(degs))


CLAW, DIAMOND = ind(4, 1, 1, 1, 3), ind(4, 2, 2, 3, 3)
GEM, P4 = ind(5, 2, 2, 3, 3, 4), ind(4, 1, 1, 2, 2)
K2K2, C4, C5 = ind(4, 1, 1, 1, 1), ind(4, 2, 2, 2, 2), ind(5, 2, 2, 2, 2, 2)
W4 = ind(5, 3, 3, 3, 3, 4)


def ODDHOLE(W, m): return W.has_induced_cycle(m, ODD(W))
def HOLE4(W, m): return W.has_induced_cycle(m, range(4, len(W.verts) + 1))
def HOLE6(W, m): return W.has_induced_cycle(m, range(6, len(W.verts) + 1))


def iso(*degs):
    degs = sorted(degs)
    return lambda W, m: sorted(W.deg(m)[v] for v in W.touched(m)) == degs


CLASS = {
    'claw_graphs': iso(1, 1, 1, 3),
    'diamond_graphs': iso(2, 2, 3, 3),
    'gem_graphs': iso(2, 2, 3, 3, 4),
    'odd_hole_graphs': lambda W, m: W.cycle(m) and bin(m).count('1') >= 5 and bin(m).count('1') % 2 == 1,
    'claw_free_graphs': lambda W, m: not CLAW(W, m),
    'diamond_free_graphs': lambda W, m: not DIAMOND(W, m),
    'gem_free_graphs': lambda W, m: not GEM(W, m),
    'odd_hole_free_graphs': lambda W, m: not ODDHOLE(W, m),
    'chordal_graphs': lambda W, m: not HOLE4(W, m),
    'cographs': lambda W, m: not P4(W, m),
    'chordal_bipartite_graphs': lambda W, m: not HOLE6(W, m) and W.bipartite(m),
    'split_graphs': lambda W, m: not (K2K2(W, m) or C4(W, m) or C5(W, m)),
    'block_graphs': lambda W, m: not (HOLE4(W, m) or DIAMOND(W, m)),
    'ptolemaic_graphs': lambda W, m: not (HOLE4(W, m) or GEM(W, m)),
    'threshold_graphs': lambda W, m: not (K2K2(W, m) or C4(W, m) or P4(W, m)),
    'gridline_graphs': lambda W, m: not (CLAW(W, m) or DIAMOND(W, m) or ODDHOLE(W, m)),
    'domino_graphs': lambda W, m: not (W4(W, m) or CLAW(W, m) or GEM(W, m)),
    'linear_domino_graphs': lambda W, m: not (CLAW(W, m) or DIAMOND(W, m)),
}


class GClass(Op):
    fam = False

    def __init__(self, name): self.name = name

    def real(self, W, p):
        from graphillion.graphclass import GraphClass
        return getattr(GraphClass, self.name)()

    def pred(self, W, p, m): return CLASS[self.name](W, m)


# ---------------------------------------------------------------- partitions, induced, reliability
def components_of(W, m):
    comp = W.comp(m)
    d = {}
    for v in W.verts:
        d.setdefault(comp[v], set()).add(v)
    return list(d.values())


def is_partition(W, m):
    return all(W.induced_mask(c) == W.induced_mask(c, m) for c in components_of(W, m))


class Partitions(Op):
    fam = False

    def gen(self, rng, W):
        a = rng.choice([None, 1, 2, 3, rng.randint(1, len(W.verts))])
        b = rng.choice([None, (a or 1) + rng.randint(0, 3), max(a or 1, len(W.verts))])
        return {'lb': a, 'ub': b}

    def real(self, W, p):
        kw = {}
        if p['lb'] is not None: kw['num_comp_lb'] = p['lb']
        if p['ub'] is not None: kw['num_comp_ub'] = p['ub']
        return W.C.partitions(**kw)

    def pred(self, W, p, m):
        n = len(components_of(W, m))
        return is_partition(W, m) and (p['lb'] or 1) <= n and (p['ub'] is None or n <= p['ub'])


def heavy(rng, W, p, limit):
    """gives some vertices weights like populations; all of them together weigh at most limit"""
    if 'w' not in p or rng.random() >= 0.3:
        return
    total = sum(x for v, x in p['w']) + len(W.verts)
    s = min(rng.choice([50, 255, 256, 6000, 11000, 32767, 65536, 10**6, 10**8, 2**31]), limit // total)
    d = rng.choice([0, 0, 1, s // 3])
    p['w'] = [[v, max(1, x * s + rng.randint(-d, d) if rng.random() < 0.9 else x)] for v, x in p['w']]
    while sum(x for v, x in p['w']) + len(W.verts) > limit:
        p['w'] = [[v, max(1, x // 2)] for v, x in p['w']]
    p['s'] = (s, d)


class Balanced(Op):
    fam = False

    def gen(self, rng, W):
        p = {}
        if rng.random() < 0.8:
            p['w'] = [[v, rng.randint(1, 5)] for v in some_verts(rng, W, 1, len(W.verts))]
        heavy(rng, W, p, 2**30 - 1)
        if rng.random() < 0.55: p['ratio'] = rng.choice([1.0, 1.25, 1.5, 2.0, 2.5, 3.0, 4.0])
        s, d = p.pop('s', (1, 0))
        if rng.random() < 0.4: p['lower'] = max(0, rng.randint(0, 6) * s + rng.randint(-d, d))
        if rng.random() < 0.4: p['upper'] = max(rng.randint(3, 15) * s + rng.randint(-d, d), p.get('lower', 0))
        for k in 'lower', 'upper':
            if k in p: p[k] = min(p[k], 2**30 - 1)
        if rng.random() < 0.5: p['k'] = rng.randint(1, 4)
        return p

    def real(self, W, p):
        kw = {}
        if 'w' in p: kw['weight_list'] = {W.lab[v]: x for v, x in p['w']}
        for a, b in (('ratio', 'ratio'), ('lower', 'lower'), ('upper', 'upper'), ('k', 'num_comps')):
            if a in p: kw[b] = p[a]
        return W.C.balanced_partitions(**kw)

    def pred(self, W, p, m):
        if not is_partition(W, m):
            return False
        w = dict(map(tuple, p.get('w', [])))
        ws = [sum(w.get(v, 1) for v in c) for c in components_of(W, m)]
        if 'k' in p and len(ws) != p['k']:
            return False
        if min(ws) < p.get('lower', 0) or max(ws) > p.get('upper', 2**30 - 1):
            return False
        return 'ratio' not in p or max(ws) <= p['ratio'] * min(ws)


class Induced(Op):
    fam = False
    def real(self, W, p): return W.C.induced_graphs()
    def pred(self, W, p, m):
        return m != 0 and W.connected(m) and W.induced_mask(W.touched(m)) == m


class WInduced(Op):
    fam = False

    def gen(self, rng, W):
        p = {}
        if rng.random() < 0.85:
            p['w'] = [[v, rng.randint(0, 5)] for v in some_verts(rng, W, 1, len(W.verts))]
        heavy(rng, W, p, 2**31 - 2)
        s, d = p.pop('s', (1, 0))
        if rng.random() < 0.7: p['lower'] = max(0, rng.randint(0, 8) * s + rng.randint(-d, d))
        if rng.random() < 0.7: p['upper'] = max(rng.randint(1, 16) * s + rng.randint(-d, d), p.get('lower', 0))
        for k in 'lower', 'upper':
            if k in p: p[k] = min(p[k], 2**31 - 2)
        return p

    def real(self, W, p):
        kw = {}
        if 'w' in p: kw['weight_list'] = {W.lab[v]: x for v, x in p['w']}
        for a in ('lower', 'upper'):
            if a in p: kw[a] = p[a]
        return W.C.weighted_induced_graphs(**kw)

    def pred(self, W, p, m):
        if not Induced.pred(self, W, p, m):
            return False
        w = dict(map(tuple, p.get('w', [])))
        t = sum(w.get(v, 1) for v in W.touched(m))
        return p.get('lower', 0) <= t <= p.get('upper', 2**31 - 1)


class Reliability(Op):
    fam = False

    def gen(self, rng, W):
        return {'t': some_verts(rng, W, 2, 5),
                'p': [[i, rng.choice([0.0, 1.0, 0.5, 0.25, 0.875, rng.random()]), rng.randint(0, 1)]
                      for i in range(W.m) if rng.random() < 0.9]}

    def check(self, W, p):
        ps = {i: x for i, x, f in p['p']}
        got = W.C.reliability({W.ledge(i, f): x for i, x, f in p['p']}, [W.lab[v] for v in p['t']])
        want = 0.0
        for m in W.all_masks():
            comp = W.comp(m)
            if len({comp[v] for v in p['t']}) == 1:
                q = 1.0
                for i in range(W.m):
                    x = ps.get(i, 1.0)
                    q *= x if m >> i & 1 else 1 - x
                want += q
        if not abs(got - want) < 1e-9:
            raise Violation('mismatch:reliability', 'got %r want %r' % (got, want))


# ---------------------------------------------------------------- directed
class DGraphs(Op):
    def gen(self, rng, W):
        p = {}
        if rng.random() < 0.75: p['in'] = [[v, g_range(rng, 2)] for v in some_verts(rng, W, 1, len(W.verts))]
        if rng.random() < 0.75: p['out'] = [[v, g_range(rng, 2)] for v in some_verts(rng, W, 1, len(W.verts))]
        return p
    def call(self, W, C, p, kw):
        if 'in' in p: kw['in_degree_constraints'] = {W.lab[v]: mk_range(r) for v, r in p['in']}
        if 'out' in p: kw['out_degree_constraints'] = {W.lab[v]: mk_range(r) for v, r in p['out']}
        return C.graphs(**kw)
    def pred(self, W, p, m):
        i, o, s = W.dinfo(m)
        return all(in_range(i[v], r) for v, r in p.get('in', [])) and all(in_range(o[v], r) for v, r in p.get('out', []))


class DCycles(Op):
    def call(self, W, C, p, kw): return C.directed_cycles(**kw)
    ham = False
    def pred(self, W, p, m):
        i, o, s = W.dinfo(m)
        t = [v for v in W.verts if i[v] or o[v]]
        if not t or any(i[v] != 1 or o[v] != 1 for v in t):
            return False
        seen, back = W.walk(m, t[0])
        return len(seen) == len(t) and (not self.ham or len(t) == len(W.verts))


class DHam(DCycles):
    ham = True
    def call(self, W, C, p, kw): return C.directed_hamiltonian_cycles(**kw)


class DPaths(Op):
    def gen(self, rng, W):
        s, t = rng.sample(W.verts, 2)
        return {'s': s, 't': t, 'ham': rng.randint(0, 1)}
    def call(self, W, C, p, kw):
        if p['ham']: kw['is_hamiltonian'] = True
        return C.directed_st_paths(W.lab[p['s']], W.lab[p['t']], **kw)
    def pred(self, W, p, m):
        i, o, s = W.dinfo(m)
        if any(i[v] > 1 or o[v] > 1 for v in W.verts) or i[p['s']] or o[p['t']]:
            return False
        seen, back = W.walk(m, p['s'])
        return back is None and seen[-1] == p['t'] and len(seen) == bin(m).count('1') + 1 and (
            not p['ham'] or len(seen) == len(W.verts))


class DForests(Op):
    def gen(self, rng, W):
        return {'roots': rng.choice([None, some_verts(rng, W, 1, 3)]), 'sp': rng.choice([None, 0, 1])}
    def call(self, W, C, p, kw):
        if p['roots'] is not None: kw['roots'] = [W.lab[v] for v in p['roots']]
        if p['sp'] is not None: kw['is_spanning'] = bool(p['sp'])
        return C.rooted_forests(**kw)
    def pred(self, W, p, m):
        i, o, s = W.dinfo(m)
        if any(i[v] > 1 for v in W.verts) or not W.dacyclic(m):
            return False
        tops = {v for v in W.verts if i[v] == 0 and o[v]}
        cov = {v for v in W.verts if i[v] or o[v]}
        if p['roots'] is not None:
            # every given root roots a tree that has an arc
            if tops != set(p['roots']):
                return False
        return not p['sp'] or cov == set(W.verts)


class DTrees(Op):
    def gen(self, rng, W): return {'root': rng.choice(W.verts), 'sp': rng.choice([None, 0, 1])}
    def call(self, W, C, p, kw):
        if p['sp'] is not None: kw['is_spanning'] = bool(p['sp'])
        return C.rooted_trees(W.lab[p['root']], **kw)
    def pred(self, W, p, m):
        i, o, s = W.dinfo(m)
        if not m:
            return not p['sp']  # the root alone
        if any(i[v] > 1 for v in W.verts) or not W.dacyclic(m):
            return False
        tops = {v for v in W.verts if i[v] == 0 and o[v]}
        cov = {v for v in W.verts if i[v] or o[v]}
        return tops == {p['root']} and (not p['sp'] or cov == set(W.verts))


UNDIRECTED = {
    'graphs': Graphs(), 'connected_components': Components(), 'steiner_subgraphs': SteinerSub(),
    'steiner_trees': SteinerTrees(), 'steiner_cycles': SteinerCycles(), 'steiner_paths': SteinerPaths(),
    'cliques': Cliques(), 'bicliques': Bicliques(), 'trees': Trees(), 'forests': Forests(), 'cycles': Cycles(),
    'paths': Paths(), 'matchings': Matchings(), 'perfect_matchings': PerfectMatchings(),
    'k_matchings': KMatchings(), 'k_factors': KFactors(), 'b_matchings': BMatchings(), 'f_factors': FFactors(),
}
STRUCTURAL = {'regular_graphs': Regular(), 'regular_bipartite_graphs': RegularBipartite(),
              'bipartite_graphs': Bipartite(), 'degree_distribution_graphs': DegDist(), 'letter_P_graphs': LetterP(),
              'forbidden_induced_subgraphs': Forbidden()}
STRUCTURAL.update({k: GClass(k) for k in CLASS})
PARTITION = {'partitions': Partitions(), 'balanced_partitions': Balanced(), 'induced_graphs': Induced(),
             'weighted_induced_graphs': WInduced(), 'reliability': Reliability()}
DIRECTED = {'graphs': DGraphs(), 'directed_cycles': DCycles(), 'directed_hamiltonian_cycles': DHam(),
            'directed_st_paths': DPaths(), 'rooted_forests': DForests(), 'rooted_trees': DTrees()}


def table(name):
    for t in (UNDIRECTED, STRUCTURAL, PARTITION):
        if name in t:
            return t[name]
    return None


def get_op(W, name):
    return DIRECTED[name] if W.directed else table(name)


after_real = None      # called right after the real search


def run_op(W, name, p):
    """executes a search and compares it; returns (real object, masks) or None"""
    op = get_op(W, name)
    if hasattr(op, 'check'):
        op.check(W, p)
        return None
    r = op.real(W, p)
    if after_real:
        after_real()
    got = W.fam(r)
    want = op.expect(W, p)
    if got != want:
        extra, missing = sorted(got - want), sorted(want - got)
        raise Violation('mismatch:' + name, 'got %d want %d subgraphs; extra=%s missing=%s params=%s universe=%s %s' % (
            len(got), len(want), [W.show(x) for x in extra[:4]], [W.show(x) for x in missing[:4]],
            {k: v for k, v in p.items() if k != 'fam'}, W.edges, 'within %d' % len(p['fam']) if p.get('fam') is not None else ''))
    if len(r) != len(want):
        raise Violation('mismatch:len', '%s: len %d for %d subgraphs' % (name, len(r), len(want)))
    return r, want


# ---------------------------------------------------------------- worlds
def gen_world(rng, directed=False, dense=False, maxm=None, labels=None, conv=False):
    if directed:
        nv = rng.choice([2, 3, 3, 4, 4, 5])
        m = rng.randint(1, min(maxm or 8, nv * (nv - 1)))
        edges = rand_digraph(rng, nv, m)
    elif dense:
        nv = rng.choice([4, 4, 5, 5, 5, 6])
        mx = nv * (nv - 1) // 2
        m = rng.randint(min(mx, 4), min(maxm or 9, mx))
        edges = rand_graph(rng, nv, m)
    else:
        k = rng.random()
        if k < 0.15:
            # grids, wheels and other structured graphs
            edges = [list(e) for e in rng.choice([
                [(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5)],
                [(0, 1), (1, 2), (2, 3), (3, 0), (4, 0), (4, 1), (4, 2), (4, 3)],
                [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)],
                [(i, (i + 1) % 7) for i in range(7)],
                [(0, 3), (0, 4), (0, 5), (1, 3), (1, 4), (1, 5), (2, 3), (2, 4), (2, 5)],
                [(i, i + 1) for i in range(7)],
                [(0, i) for i in range(1, 7)]])]
            rng.shuffle(edges)
            edges = edges[:maxm or 9]
        else:
            nv = rng.choice([2, 3, 4, 4, 5, 5, 6, 6, 7])
            m = rng.randint(1, min(maxm or 8, nv * (nv - 1) // 2))
            edges = rand_graph(rng, nv, m)
    labs = labels or ['int1', 'int1', 'int0', 'str', 'neg', 'tup', 'strw', 'intbig']
    init = {'kind': 'D' if directed else 'G', 'edges': edges, 'labels': rng.choice(labs)}
    if rng.random() < 0.75:
        init['traversal'] = rng.choice(['bfs', 'dfs', 'greedy', 'as-is', 'as-is'])
    if rng.random() < 0.25:
        init['source'] = rng.randrange(10)
    if rng.random() < 0.2:
        init['weights'] = [rng.choice([1, 2, 0.5, -1]) for _ in edges]
    if conv and rng.random() < 0.15:
        init['conv'] = True
    return init
