"""Random small graphs for traces (JSON friendly) and label schemes."""
from core import Violation


def rand_graph(rng, nv, ne, connected=None):
    """list of [u,v] vertex indices, no loops or multi-edges (undirected)."""
    pairs = [(i, j) for i in range(nv) for j in range(i + 1, nv)]
    rng.shuffle(pairs)
    if connected if connected is not None else rng.random() < 0.7:
        perm = list(range(nv))
        rng.shuffle(perm)
        tree = []
        for i in range(1, nv):
            j = rng.randrange(i)
            tree.append(tuple(sorted((perm[i], perm[j]))))
        rest = [p for p in pairs if p not in tree]
        es = tree + rest[:max(0, ne - len(tree))]
    else:
        es = pairs[:ne]
    rng.shuffle(es)
    out = []
    for u, v in es:
        out.append([u, v] if rng.random() < 0.5 else [v, u])
    return out


def rand_digraph(rng, nv, ne):
    pairs = [(i, j) for i in range(nv) for j in range(nv) if i != j]
    rng.shuffle(pairs)
    es = pairs[:ne]
    if rng.random() < 0.5 and es:
        # favour antiparallel arcs
        extra = [(v, u) for u, v in es if (v, u) not in es]
        rng.shuffle(extra)
        k = rng.randrange(0, len(extra) + 1)
        es = (es[:max(1, len(es) - k)] + extra[:k])
        es = list(dict.fromkeys(es))[:ne]
    return [list(e) for e in es]


class Gobj:
    """a graph object for the library's converters; it is no list of edges"""

    def __init__(self, edges):
        self.e = list(edges)

    def __iter__(self): return iter(self.e)
    def __len__(self): return len(self.e)
    def __repr__(self): return 'Gobj(%r)' % (self.e,)


def to_edges(g):
    if not isinstance(g, Gobj):
        raise AttributeError('not a graph object: %r' % (g,))  # as a graph library does
    return list(g.e)


def to_edges_attr(g):
    """with attributes, which are no weights, as NetworkX gives"""
    return [e + ({'color': 1},) if len(e) == 2 else e for e in to_edges(g)]


usual = {}


def set_converters(C, attr=False):
    usual.setdefault(C, dict(C.converters))
    C.converters['to_graph'] = Gobj
    C.converters['to_edges'] = to_edges_attr if attr else to_edges


def unset_converters(C):
    if C in usual: C.converters.update(usual[C])


LABELS = ['int1', 'int0', 'intbig', 'str', 'tup', 'neg']


class Vtx:
    """vertices that all look the same"""
    __slots__ = ('i',)

    def __init__(self, i): self.i = i
    def __eq__(self, o): return isinstance(o, Vtx) and self.i == o.i
    def __lt__(self, o): return self.i < o.i
    def __gt__(self, o): return self.i > o.i
    def __le__(self, o): return self.i <= o.i
    def __ge__(self, o): return self.i >= o.i
    def __hash__(self): return hash(('Vtx', self.i))
    def __repr__(self): return 'v'


def respell(x, q):
    """an equal element that may look different"""
    if isinstance(x, tuple): return tuple(respell(y, q) for y in x[:2]) + x[2:]
    if type(x) is int and q.random() < 0.3: return float(x)
    return x


def label(kind, i):
    if kind == 'same':
        return Vtx(i)
    if kind == 'num':
        return i + 1
    if kind == 'int1':
        return i + 1
    if kind == 'int0':
        return i
    if kind == 'intbig':
        return (i + 3) * 1000003
    if kind == 'neg':
        return i - 3
    if kind == 'str':
        return 'v%d' % i
    if kind == 'strw':
        return ['alpha', 'b', "it's", 'long name', 'x\ny', '\u00e9t\u00e9', 'Z', '10', '9', '_'][i % 10] + ('' if i < 10 else str(i))
    if kind == 'tup':
        return (i // 3, i % 3)
    raise ValueError(kind)


def read_repr(o, n):
    """the members a printed family names, None when it cannot be read back; n: how many there are"""
    r = repr(o)
    if not isinstance(r, str):
        raise Violation('mismatch:repr', 'not a string')
    if len(r) > 80:
        raise Violation('mismatch:repr', 'longer than 80: %r' % r)
    if r.endswith(' ...'): return None
    name = type(o).__name__
    try:
        l = eval(r, {'__builtins__': {}, name: lambda x: x, 'set': lambda x: x})
    except NameError:
        return None
    except SyntaxError:
        if "'" in r or '"' in r: return None
        raise Violation('mismatch:repr', r)
    if len(l) != n: raise Violation('mismatch:repr', '%d members printed of %d: %r' % (len(l), n, r))
    return l
