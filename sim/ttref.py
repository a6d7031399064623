"""Second, independent reference for graph searches: a family over m edges is one Python integer with 2^m
bits (bit number = the edge set), and every definition is evaluated for all edge sets at once with bitwise
operations.  Exact for universes of about 20 edges, where the set-by-set brute force of gops stops at ten."""
import itertools
from gops import in_range, CLASS


def pop(x):
    return bin(x).count('1')


class TT:
    """All edge sets of a universe; pos[i] is the bit position that stands for edge i."""

    def __init__(self, W, order=None):
        self.W, self.m = W, W.m
        order = list(order if order is not None else range(W.m))
        self.pos = [0] * self.m
        for e, i in enumerate(order):
            self.pos[i] = self.m - 1 - e          # the first element is the most significant bit
        self.edge_at = {p: i for i, p in enumerate(self.pos)}
        self.ALL = (1 << (1 << self.m)) - 1
        self.E = [self.var(p) for p in self.pos]
        self.verts = W.verts
        self.edges = W.edges
        self._ = {}

    def var(self, p):
        blk = ((1 << (1 << p)) - 1) << (1 << p)
        w = 1 << (p + 1)
        while w < (1 << self.m):
            blk |= blk << w
            w *= 2
        return blk

    def memo(self, key, fn):
        if key not in self._:
            self._[key] = fn()
        return self._[key]

    def NOT(self, x): return self.ALL ^ x

    def of_dump(self, text):
        """the family of a dump"""
        t = {'B': 0, 'T': 1}
        root = None
        for line in text.split('\n'):
            f = line.split()
            if not f or f[0] == '.':
                continue
            if len(f) == 1:
                root = t[f[0]]
                continue
            v = int(f[1])
            assert 1 <= v <= self.m, 'an element beyond the universe'
            root = t[f[0]] = t[f[2]] | t[f[3]] << (1 << (self.m - v))
        return root

    def masks(self, tt, limit):
        """some edge sets (in edge index space) of a family"""
        out = []
        while tt and len(out) < limit:
            b = tt & -tt
            tt ^= b
            k = b.bit_length() - 1
            out.append(sum(1 << self.edge_at[p] for p in range(self.m) if k >> p & 1))
        return out

    def of_masks(self, masks):
        r = bytearray((1 << self.m) // 8 + 1)
        for x in masks:
            k = sum(1 << self.pos[i] for i in range(self.m) if x >> i & 1)
            r[k >> 3] |= 1 << (k & 7)
        return int.from_bytes(r, 'little')

    # ---- counting
    def sums(self, terms, base=None):
        """terms: (table, value); returns value of the sum -> table"""
        cur = {0: self.ALL if base is None else base}
        for t, w in terms:
            nxt = {}
            nt = self.NOT(t)
            for s, x in cur.items():
                a = x & t
                if a: nxt[s + w] = nxt.get(s + w, 0) | a
                b = x & nt
                if b: nxt[s] = nxt.get(s, 0) | b
            cur = nxt
        return cur

    def count(self, tabs):
        return self.sums([(t, 1) for t in tabs])

    def sel(self, sums, ok):
        r = 0
        for s, x in sums.items():
            if ok(s): r |= x
        return r

    def size(self):
        return self.memo('size', lambda: self.count(self.E))

    # ---- undirected
    def inc(self, v):
        return [self.E[i] for i, e in enumerate(self.edges) if v in e]

    def deg(self, v):
        return self.memo(('deg', v), lambda: self.count(self.inc(v)))

    def deg_in(self, v, ok):
        return self.sel(self.deg(v), ok)

    def touched(self, v):
        return self.NOT(self.deg(v).get(0, 0))

    def reach(self):
        def f():
            R = {(a, b): (self.ALL if a == b else 0) for a in self.verts for b in self.verts}
            cyc = 0
            for i, (u, v) in enumerate(self.edges):
                e = self.E[i]
                cyc |= e & R[u, v]
                N = dict(R)
                for x, a in enumerate(self.verts):
                    for b in self.verts[x + 1:]:
                        t = e & (R[a, u] & R[v, b] | R[a, v] & R[u, b])
                        if t:
                            N[a, b] = N[b, a] = R[a, b] | t
                R = N
            return R, self.NOT(cyc)
        return self.memo('reach', f)

    def R(self, a, b): return self.reach()[0][a, b]
    def acyclic(self): return self.reach()[1]

    def connected(self):
        """the edges form at most one component"""
        def f():
            r = self.ALL
            for a, b in itertools.combinations(self.verts, 2):
                r &= self.NOT(self.touched(a) & self.touched(b)) | self.R(a, b)
            return r
        return self.memo('conn', f)

    def nonempty(self): return self.ALL ^ 1

    def leads(self):
        """v is the first vertex of its component"""
        def f():
            out = {}
            for x, v in enumerate(self.verts):
                t = self.ALL
                for u in self.verts[:x]:
                    t &= self.NOT(self.R(u, v))
                out[v] = t
            return out
        return self.memo('leads', f)

    def bipartite(self):
        def f():
            r = 0
            vs = self.verts
            for col in range(1 << (len(vs) - 1)):
                c = {v: col >> x & 1 for x, v in enumerate(vs)}
                t = self.ALL
                for i, (u, v) in enumerate(self.edges):
                    if c[u] == c[v]:
                        t &= self.NOT(self.E[i])
                r |= t
            return r
        return self.memo('bip', f)

    def cycle(self):
        r = self.nonempty() & self.connected()
        for v in self.verts:
            r &= self.deg_in(v, lambda d: d in (0, 2))
        return r

    def path(self):
        r = self.nonempty() & self.connected() & self.acyclic()
        for v in self.verts:
            r &= self.deg_in(v, lambda d: d <= 2)
        return r

    def all_touched(self, vs=None):
        r = self.ALL
        for v in self.verts if vs is None else vs:
            r &= self.touched(v)
        return r

    def only_comp(self, reps):
        """every edge is in a component of one of these vertices"""
        r = self.ALL
        for v in self.verts:
            t = 0
            for s in reps:
                t |= self.R(s, v)
            r &= self.NOT(self.touched(v)) | t
        return r

    def induced(self):
        """edges between touched vertices are all there"""
        r = self.ALL
        for i, (u, v) in enumerate(self.edges):
            r &= self.E[i] | self.NOT(self.touched(u) & self.touched(v))
        return r

    def exactly(self, es, vs):
        """within these vertices exactly these edges are there"""
        r = self.ALL
        for i, (u, v) in enumerate(self.edges):
            if i in es: r &= self.E[i]
            elif u in vs and v in vs: r &= self.NOT(self.E[i])
        return r

    # ---- copies of small graphs in the universe
    def copies(self, degs):
        """subgraphs of the universe with this degree sequence (connected or two disjoint edges)"""
        def f():
            k, ne = len(degs), sum(degs) // 2
            want = sorted(degs)
            out = []
            for vs in itertools.combinations(self.verts, k):
                s = set(vs)
                es = [i for i, (u, v) in enumerate(self.edges) if u in s and v in s]
                for c in itertools.combinations(es, ne):
                    d = dict.fromkeys(vs, 0)
                    for i in c:
                        for x in self.edges[i]: d[x] += 1
                    if sorted(d.values()) == want:
                        out.append((c, s))
            return out
        return self.memo(('copies', tuple(sorted(degs))), f)

    def cycles_of(self):
        def f():
            adj = {v: [] for v in self.verts}
            for i, (u, v) in enumerate(self.edges):
                adj[u].append((v, i)); adj[v].append((u, i))
            out = []
            for s in self.verts:
                st = [(s, (s,), ())]
                while st:
                    x, vs, es = st.pop()
                    for y, i in adj[x]:
                        if y == s and len(vs) > 2 and vs[1] < vs[-1]:
                            out.append((es + (i,), set(vs)))
                        elif y > s and y not in vs:
                            st.append((y, vs + (y,), es + (i,)))
            return out
        return self.memo('cycles', f)

    def has(self, *degs):
        def f():
            r = 0
            for c, s in self.copies(degs):
                r |= self.exactly(c, s)
            return r
        return self.memo(('has', degs), f)

    def hole(self, ok):
        r = 0
        for c, s in self.cycles_of():
            if ok(len(c)):
                r |= self.exactly(c, s)
        return r

    def just(self, sets):
        return self.of_masks([sum(1 << i for i in c) for c in sets])

    # ---- directed
    def ideg(self, v): return self.memo(('in', v), lambda: self.count([self.E[i] for i, e in enumerate(self.edges) if e[1] == v]))
    def odeg(self, v): return self.memo(('out', v), lambda: self.count([self.E[i] for i, e in enumerate(self.edges) if e[0] == v]))

    def dreach(self):
        def f():
            R = {(a, b): 0 for a in self.verts for b in self.verts}      # by one arc or more
            for i, (u, v) in enumerate(self.edges):
                e = self.E[i]
                N = {}
                for a in self.verts:
                    pre = e if a == u else e & R[a, u]
                    for b in self.verts:
                        N[a, b] = R[a, b] | (pre & (self.ALL if b == v else R[v, b]) if pre else 0)
                R = N
            return R
        return self.memo('dreach', f)

    def dtouched(self, v): return self.NOT(self.ideg(v).get(0, 0) & self.odeg(v).get(0, 0))

    def dacyclic(self):
        r = self.ALL
        for v in self.verts: r &= self.NOT(self.dreach()[v, v])
        return r

    def top(self, v):
        """in-degree 0 and out-degree positive"""
        return self.ideg(v).get(0, 0) & self.NOT(self.odeg(v).get(0, 0))


# ---------------------------------------------------------------- the searches
def graphs(T, p):
    r = T.ALL
    if p.get('no_loop'): r &= T.acyclic()
    if 'num' in p: r &= T.sel(T.size(), lambda k: in_range(k, p['num']))
    for v, g in p.get('deg', []): r &= T.deg_in(v, lambda d: in_range(d, g))
    for es, lo, hi in p.get('lin', []):
        r &= T.sel(T.sums([(T.E[i], 1.0 if w is None else w) for i, w, f in es]), lambda s: lo <= s <= hi)
    if p.get('groups'):
        gs = [g for g in p['groups'] if g]
        for g in gs:
            for v in g[1:]: r &= T.R(g[0], v)
        for a, b in itertools.combinations(gs, 2): r &= T.NOT(T.R(a[0], b[0]))
        other = []
        for v, l in T.leads().items():
            t = l & T.touched(v)
            for g in gs: t &= T.NOT(T.R(v, g[0]))
            other.append(t)
        r &= T.count(other).get(len(p['groups']) - len(gs), 0)
    return r


def together(T, vs):
    r = T.ALL
    for v in vs[1:]: r &= T.R(vs[0], v)
    return r


def components(T, p): return together(T, p['vs']) & T.only_comp(p['vs'][:1])
def steiner_trees(T, p): return components(T, p) & T.acyclic()
def steiner_cycles(T, p): return T.cycle() & T.all_touched(p['vs'])
def steiner_paths(T, p): return T.path() & T.all_touched(p['vs'])


def cliques(T, p):
    return (T.count([T.touched(v) for v in T.verts]).get(p['k'], 0) & T.size().get(p['k'] * (p['k'] - 1) // 2, 0))


def bicliques(T, p):
    a = p['a']
    r = T.count([T.touched(v) for v in T.verts]).get(2 * a, 0) & T.bipartite() & T.connected() & T.nonempty()
    for v in T.verts: r &= T.deg_in(v, lambda d: d in (0, a))
    return r


def trees(T, p):
    r = T.acyclic()
    if p['sp']: r &= T.all_touched()
    return r & (T.connected() & T.nonempty() if p['root'] is None else T.only_comp([p['root']]))


def forests(T, p):
    r = T.acyclic() & T.only_comp(p['roots'])
    for a, b in itertools.combinations(p['roots'], 2): r &= T.NOT(T.R(a, b))
    if p['sp']: r &= T.all_touched([v for v in T.verts if v not in p['roots']])
    return r


def cycles(T, p): return T.cycle() & (T.all_touched() if p['ham'] else T.ALL)


def paths(T, p):
    r = T.path() & (T.all_touched() if p['ham'] else T.ALL)
    for v in p['t']: r &= T.deg_in(v, lambda d: d == 1)
    return r


def degs(ok):
    def f(T, p):
        r = T.ALL
        for v in T.verts: r &= T.deg_in(v, ok(p, v))
        return r
    return f


def _b(p): return dict(map(tuple, p['b']))


def regular(bip):
    def f(T, p):
        r = 0
        d = p['d']
        for k in range(1, len(T.verts)):
            if d is None or (k == d if isinstance(d, int) else d[0] <= k <= d[1]):
                t = T.nonempty()
                for v in T.verts: t &= T.deg_in(v, lambda x: x in (0, k))
                r |= t
        if p['conn'] != 0: r &= T.connected()
        return r & T.bipartite() if bip else r
    return f


def bipartite(T, p): return T.bipartite() & (T.ALL if p['conn'] == 0 else T.connected())


def deg_dist(T, p):
    want = {k: n for k, n in p['d']}
    r = T.ALL
    for v in T.verts: r &= T.deg_in(v, lambda x: x in want)
    for k, n in want.items():
        if n != -1: r &= T.count([T.deg(v).get(k, 0) for v in T.verts]).get(n, 0)
    return r & T.connected() & T.nonempty() if p['conn'] else r


def letter_p(T, p):
    r = T.connected()
    for v in T.verts: r &= T.deg_in(v, lambda d: d in (0, 1, 2, 3))
    for k in (1, 3): r &= T.count([T.deg(v).get(k, 0) for v in T.verts]).get(1, 0)
    return r


def forbidden(T, p):
    r = T.ALL
    for f in p['fs']:
        es = [i for i in range(T.m) if f >> i & 1]
        r &= T.NOT(T.exactly(es, {v for i in es for v in T.edges[i]}))
    return r


def gclass(name):
    def f(T, p):
        N, has, hole = T.NOT, T.has, T.hole
        claw = lambda: has(1, 1, 1, 3)
        diamond = lambda: has(2, 2, 3, 3)
        gem = lambda: has(2, 2, 3, 3, 4)
        p4, k2k2 = lambda: has(1, 1, 2, 2), lambda: has(1, 1, 1, 1)
        odd = lambda: hole(lambda k: k >= 5 and k % 2)
        h4 = lambda: hole(lambda k: k >= 4)
        iso = lambda *d: T.just([c for c, s in T.copies(d)])
        return {
            'claw_graphs': lambda: iso(1, 1, 1, 3), 'diamond_graphs': lambda: iso(2, 2, 3, 3), 'gem_graphs': lambda: iso(2, 2, 3, 3, 4),
            'odd_hole_graphs': lambda: T.just([c for c, s in T.cycles_of() if len(c) >= 5 and len(c) % 2]),
            'claw_free_graphs': lambda: N(claw()), 'diamond_free_graphs': lambda: N(diamond()), 'gem_free_graphs': lambda: N(gem()),
            'odd_hole_free_graphs': lambda: N(odd()), 'chordal_graphs': lambda: N(h4()), 'cographs': lambda: N(p4()),
            'chordal_bipartite_graphs': lambda: T.bipartite() & N(hole(lambda k: k >= 6)),
            'split_graphs': lambda: N(k2k2() | hole(lambda k: k in (4, 5))), 'block_graphs': lambda: N(h4() | diamond()),
            'ptolemaic_graphs': lambda: N(h4() | gem()), 'threshold_graphs': lambda: N(k2k2() | hole(lambda k: k == 4) | p4()),
            'gridline_graphs': lambda: N(claw() | diamond() | odd()), 'domino_graphs': lambda: N(has(3, 3, 3, 3, 4) | claw() | gem()),
            'linear_domino_graphs': lambda: N(claw() | diamond())}[name]()
    return f


def is_partition(T):
    r = T.ALL
    for i, (u, v) in enumerate(T.edges): r &= T.E[i] | T.NOT(T.R(u, v))
    return r


def partitions(T, p):
    return is_partition(T) & T.sel(T.count(T.leads().values()), lambda n: (p['lb'] or 1) <= n and (p['ub'] is None or n <= p['ub']))


def balanced(T, p):
    w = dict(map(tuple, p.get('w', [])))
    r = is_partition(T)
    L = T.leads()
    if 'k' in p: r &= T.count(L.values()).get(p['k'], 0)
    S = {v: T.sums([(T.R(v, u), w.get(u, 1)) for u in T.verts], base=L[v] & r) for v in T.verts}
    lo = {}
    for v in T.verts:
        for s, t in S[v].items():
            if s < p.get('lower', 0) or s > p.get('upper', 2 ** 30 - 1): r &= T.NOT(t)
            lo[s] = lo.get(s, 0) | t
    if 'ratio' in p:
        for a, b in itertools.permutations(lo, 2):
            if b > p['ratio'] * a: r &= T.NOT(lo[a] & lo[b])
    return r


def induced(T, p): return T.nonempty() & T.connected() & T.induced()


def winduced(T, p):
    w = dict(map(tuple, p.get('w', [])))
    r = induced(T, p)
    return T.sel(T.sums([(T.touched(v), w.get(v, 1)) for v in T.verts], base=r), lambda t: p.get('lower', 0) <= t <= p.get('upper', 2 ** 31 - 1))


def reliability(T, p):
    ps = {i: x for i, x, f in p['p']}
    memo = {}

    def go(tt, n):
        if tt == 0: return 0.0
        if n == 0: return 1.0
        k = (tt, n)
        if k not in memo:
            h = 1 << (n - 1)
            x = ps.get(T.edge_at[n - 1], 1.0)
            memo[k] = (1 - x) * go(tt & ((1 << h) - 1), n - 1) + x * go(tt >> h, n - 1)
        return memo[k]
    return go(together(T, p['t']), T.m)


# ---- directed
def dgraphs(T, p):
    r = T.ALL
    for v, g in p.get('in', []): r &= T.sel(T.ideg(v), lambda d: in_range(d, g))
    for v, g in p.get('out', []): r &= T.sel(T.odeg(v), lambda d: in_range(d, g))
    return r


def dcycles(ham):
    def f(T, p):
        r = T.nonempty()
        for v in T.verts:
            one = T.ideg(v).get(1, 0) & T.odeg(v).get(1, 0)
            r &= one if ham else one | T.NOT(T.dtouched(v))
        for a, b in itertools.permutations(T.verts, 2):
            r &= T.NOT(T.dtouched(a) & T.dtouched(b)) | T.dreach()[a, b]
        return r
    return f


def dpaths(T, p):
    s, t = p['s'], p['t']
    r = T.ALL
    for v in T.verts:
        i, o = T.ideg(v), T.odeg(v)
        if v == s: r &= i.get(0, 0) & o.get(1, 0)
        elif v == t: r &= i.get(1, 0) & o.get(0, 0)
        else:
            one = i.get(1, 0) & o.get(1, 0)
            r &= (one if p['ham'] else one | T.NOT(T.dtouched(v)))
        if v != s: r &= T.NOT(T.dtouched(v)) | T.dreach()[s, v]
    return r


def dforest(T):
    r = T.dacyclic()
    for v in T.verts: r &= T.sel(T.ideg(v), lambda d: d <= 1)
    return r


def tops(T, vs):
    r = T.ALL
    for v in T.verts: r &= T.top(v) if v in vs else T.NOT(T.top(v))
    return r


def span(T):
    r = T.ALL
    for v in T.verts: r &= T.dtouched(v)
    return r


def dforests(T, p):
    return dforest(T) & (T.ALL if p['roots'] is None else tops(T, p['roots'])) & (span(T) if p['sp'] else T.ALL)


def dtrees(T, p):
    return dforest(T) & tops(T, [p['root']]) & span(T) if p['sp'] else dforest(T) & tops(T, [p['root']]) | 1


UND = {
    'graphs': graphs, 'connected_components': components, 'steiner_subgraphs': components, 'steiner_trees': steiner_trees,
    'steiner_cycles': steiner_cycles, 'steiner_paths': steiner_paths, 'cliques': cliques, 'bicliques': bicliques,
    'trees': trees, 'forests': forests, 'cycles': cycles, 'paths': paths,
    'matchings': degs(lambda p, v: lambda d: d <= 1), 'perfect_matchings': degs(lambda p, v: lambda d: d == 1),
    'k_matchings': degs(lambda p, v: lambda d: d <= p['k']), 'k_factors': degs(lambda p, v: lambda d: d == p['k']),
    'b_matchings': degs(lambda p, v: lambda d: d <= _b(p).get(v, 0)), 'f_factors': degs(lambda p, v: lambda d: d == _b(p).get(v, 0)),
    'regular_graphs': regular(False), 'regular_bipartite_graphs': regular(True), 'bipartite_graphs': bipartite,
    'degree_distribution_graphs': deg_dist, 'letter_P_graphs': letter_p, 'forbidden_induced_subgraphs': forbidden,
    'partitions': partitions, 'balanced_partitions': balanced, 'induced_graphs': induced, 'weighted_induced_graphs': winduced}
UND.update({k: gclass(k) for k in CLASS})
DIR = {'graphs': dgraphs, 'directed_cycles': dcycles(False), 'directed_hamiltonian_cycles': dcycles(True),
       'directed_st_paths': dpaths, 'rooted_forests': dforests, 'rooted_trees': dtrees}


def expect(T, name, p):
    return (DIR if T.W.directed else UND)[name](T, p)
