"""Calls that should fail, or may fail: wrong types, unknown elements, absent members, bad parameters, and user
objects (iterables, numbers, files, converters) that raise or act half-way.

After each call: no crash, no SystemError, every family unchanged (the target too if the call raised), the
universe unchanged; the history that follows shows that the library stays usable."""
import gc
import random
from itertools import islice
from core import Violation, canon


import os
DEBUG = os.environ.get('SIM_DBG')


class Boom(Exception):
    pass


NAN = float('nan')


class Obj:
    """hashes must not depend on addresses: the order of Python sets would"""
    def __hash__(self): return 12345
    def __repr__(self): return type(self).__name__


class BadHash(Obj):
    def __init__(self, k=0): self.k = k
    def __hash__(self):
        if self.k <= 0: raise Boom('hash')
        self.k -= 1
        return 7
    def __lt__(self, o): return True


class BadEq(Obj):
    def __init__(self, h): self.h = h
    def __hash__(self): return self.h
    def __eq__(self, o): raise Boom('eq')
    def __lt__(self, o): raise Boom('lt')


class BadNum(Obj):
    """a number that cannot be converted"""
    def __hash__(self): return 4242
    def __index__(self): raise Boom('index')
    def __int__(self): raise Boom('int')
    def __float__(self): raise Boom('float')
    def __lt__(self, o): return False
    def __gt__(self, o): return False
    def __le__(self, o): return True
    def __ge__(self, o): return True


class BadLen(Obj):
    def __init__(self, l): self.l = l
    def __len__(self): raise Boom('len')
    def __iter__(self): return iter(self.l)
    def __getitem__(self, i): raise Boom('getitem')


class Stops(Obj):
    """an iterable that yields some valid items, acts, and then raises (or just ends)"""
    def __init__(self, items, act, fail=True, n=None):
        self.items, self.act, self.fail, self.n = items, act, fail, n

    def __len__(self): return len(self.items) if self.n is None else self.n

    def __iter__(self):
        for x in self.items:
            yield x
        if self.act: self.act()
        if self.fail: raise Boom('iter')

    def __contains__(self, x): return x in self.items


class BadDict(dict):
    def __init__(self, d, act):
        dict.__init__(self, d)
        self.act = act

    def items(self):
        for k in dict.items(self):
            yield k
        self.act()
        raise Boom('items')

    def __iter__(self):
        for k in dict.keys(self):
            yield k
        raise Boom('keys')


class BadFile(Obj):
    def __init__(self, how, data=b''): self.how, self.data = how, data
    def write(self, s):
        if self.how != 2: raise Boom('write')
        return 0
    def read(self, *a):
        if self.how == 0: raise Boom('read')
        return [None, 7, 'x', self.data][self.how % 4]
    def readline(self, *a): return self.read()
    def fileno(self):
        if self.how == 1: raise Boom('fileno')
        return [-1, 0, 99999, 'x', 2 ** 40, None, 1.5][self.how % 7]
    def flush(self): raise Boom('flush')


MUT = {'add', 'remove', 'discard', 'pop', 'clear', 'flip', 'flip_all', 'update', 'intersection_update',
       'difference_update', 'symmetric_difference_update', 'quotient_update', 'remainder_update',
       '__ior__', '__iand__', '__isub__', '__ixor__', '__itruediv__', '__imod__'}
# number of arguments to try: (fewest, most)
METHODS = {
    'union': 3, 'intersection': 3, 'difference': 3, 'symmetric_difference': 3, 'quotient': 2, 'remainder': 2,
    'update': 3, 'intersection_update': 3, 'difference_update': 3, 'symmetric_difference_update': 3,
    'quotient_update': 2, 'remainder_update': 2, 'isdisjoint': 2, 'issubset': 2, 'issuperset': 2, 'len': 2,
    'min_iter': 2, 'max_iter': 2, 'add': 2, 'remove': 2, 'discard': 2, 'pop': 1, 'flip': 2,
    'smaller': 2, 'larger': 2, 'set_size': 2, 'graph_size': 2, 'join': 2, 'meet': 2, 'subsets': 2, 'supersets': 2,
    'non_subsets': 2, 'non_supersets': 2, 'subgraphs': 2, 'supergraphs': 2, 'non_subgraphs': 2,
    'non_supergraphs': 2, 'including': 2, 'excluding': 2, 'included': 2, 'choice': 1, 'probability': 2,
    'cost_le': 3, 'cost_ge': 3, 'cost_eq': 3, 'hitting': 1, 'blocking': 1, 'complement': 1,
    'remove_some_edge': 1, 'add_some_edge': 1, 'remove_add_some_edges': 1, 'minimal': 1, 'maximal': 1,
    'to_vertexsetset': 1, 'to_edgevertexsetset': 1, 'copy': 1, 'clear': 1, 'rand_iter': 1, 'invert': 1,
    '__or__': 1, '__and__': 1, '__sub__': 1, '__xor__': 1, '__truediv__': 1, '__mod__': 1,
    '__ior__': 1, '__iand__': 1, '__isub__': 1, '__ixor__': 1, '__itruediv__': 1, '__imod__': 1,
    '__eq__': 1, '__ne__': 1, '__lt__': 1, '__le__': 1, '__gt__': 1, '__ge__': 1, '__contains__': 1,
    'remove_some_element': 1, 'add_some_element': 1, 'remove_add_some_elements': 1, 'flip_all': 1,
}
STATIC = {
    'GraphSet': dict(graphs=['vg', 'dc', 'ne', 'bool', 'fam', 'lc'], connected_components=['vs', 'fam'],
                     cliques=['int', 'fam'], bicliques=['int', 'int', 'fam'], trees=['v', 'bool', 'fam'],
                     forests=['vs', 'bool', 'fam'], cycles=['bool', 'fam'], paths=['v', 'v', 'bool', 'fam'],
                     matchings=['fam'], perfect_matchings=['fam'], k_matchings=['int', 'fam'], b_matchings=['vd', 'fam'],
                     k_factors=['int', 'fam'], f_factors=['vd', 'fam'], regular_graphs=['deg', 'bool', 'fam'],
                     bipartite_graphs=['bool', 'fam'], regular_bipartite_graphs=['deg', 'bool', 'fam'],
                     steiner_subgraphs=['vs', 'fam'], steiner_trees=['vs', 'fam'], steiner_cycles=['vs', 'fam'],
                     steiner_paths=['vs', 'fam'], degree_distribution_graphs=['dd', 'bool', 'fam'],
                     letter_P_graphs=['fam'], partitions=['int', 'int'],
                     balanced_partitions=['vd', 'num', 'int', 'int', 'int'], weighted_induced_graphs=['vd', 'int', 'int'],
                     forbidden_induced_subgraphs=['fam'], reliability=['ed', 'vs'],
                     claw_graphs=['fam'], diamond_graphs=['fam'], gem_graphs=['fam'], odd_hole_graphs=['fam'],
                     split_graphs=['fam'], threshold_graphs=['fam'], block_graphs=['fam']),
    'DiGraphSet': dict(directed_cycles=['fam'], directed_hamiltonian_cycles=['fam'],
                       directed_st_paths=['v', 'v', 'bool', 'fam'], rooted_forests=['vs', 'bool', 'fam'],
                       rooted_trees=['v', 'bool', 'fam'], graphs=['dc', 'dc', 'fam']),
    'VertexSetSet': dict(independent_sets=['fam'], dominating_sets=['fam', 'int'], vertex_covers=['fam'], cliques=['int', 'fam']),
}


class Gen:
    """argument generator for one call"""

    def __init__(self, m, rng):
        self.m, self.rng = m, rng
        self.setset = m.ad.name == 'setset'
        self.el = list(m.ad.elems)
        self.verts = list(getattr(m.ad, 'verts', [])) or [x for x in self.el if not isinstance(x, tuple)]

    # side effects of user code inside a call
    def act(self):
        m, r = self.m, self.rng.random()
        if r < 0.3:
            if len(m.pool) > 1: m.pool.pop(self.rng.randrange(len(m.pool)))
        elif r < 0.6:
            if m.ctx.sim.gc: m.ctx.sim.gc()
        elif r < 0.8:
            o = self.rng.choice(m.pool)
            m.push(o[0].copy(), o[1])
        else:
            m.ad.new([m.rnd_set(self.rng.randrange(999))])

    def fam_obj(self):
        return self.m.pick(self.rng.randrange(1 << 20))[0]

    def valid_set(self):
        return set(self.m.rnd_set(self.rng.randrange(1 << 20)))

    def valid(self, name, pos):
        """a reasonable argument at this position"""
        rng = self.rng
        if name in ('min_iter', 'max_iter', 'cost_le', 'cost_ge', 'cost_eq', 'probability'):
            if pos == 0: return {e: rng.choice([0.5, 0.25] if name == 'probability' else [1, 2, -3]) for e in self.el}
            return rng.randint(-3, 5)
        if name in ('len', 'smaller', 'larger', 'set_size', 'graph_size'): return rng.randint(0, 5)
        if name in ('add', 'remove', 'discard', 'flip', '__contains__'):
            if self.el and (rng.random() < 0.5 or name == 'flip'): return rng.choice(self.el)
            s = self.valid_set()
            return s if self.m.ad.name in ('setset',) else list(s)
        return self.fam_obj()

    def junk(self):
        """values that are no valid argument anywhere, none of which setset could register as an element"""
        rng = self.rng
        k = rng.randrange(11)
        if k == 0: return [[]]
        if k == 1: return {1: [2]}
        if k == 2: return BadHash()
        if k == 3: return [BadHash()]
        if k == 4: return Stops([], self.act)
        if k == 5: return BadLen([])
        if k == 6: return bytearray(b'ab')
        if k == 7: return ([], [])
        if k == 8: return [{}]
        if k == 9: return BadHash(rng.randint(1, 3)) if not self.setset else BadHash()
        return Stops([[], Boom], None)

    def hashable_junk(self):
        rng = self.rng
        return rng.choice([None, -1, 0, 10 ** 6, 2 ** 31, 2 ** 32 + 1, 2 ** 63, 2 ** 70, -2 ** 31 - 1, -2 ** 70, 1.5, 1e300,
                           float('inf'), 'zz', '', b'q', (), (None,), ('zz', 'yy'), (1, 2, 3, 4), frozenset(), True,
                           Obj(), BadNum(), 3 + 4j, BadEq(hash(rng.choice(self.el)) if self.el else 1)])

    def bad(self, name, pos):
        rng = self.rng
        k = rng.random()
        if self.setset and name in ('add', 'remove', 'discard', 'flip', '__contains__', 'supersets', 'non_supersets',
                                    'including', 'excluding') and k < 0.5:
            k = 0.9
        if k < 0.35: return self.hashable_junk()
        if k < 0.42: return Obj()
        if k < 0.55:
            # valid elements, with one that is none
            l = list(self.valid_set())
            x = self.junk() if self.setset else rng.choice([self.junk(), self.hashable_junk()])
            l.insert(rng.randrange(len(l) + 1), x)
            return l if rng.random() < 0.6 else tuple(l)
        if k < 0.65: return Stops(list(self.valid_set()), self.act, rng.random() < 0.8)
        if k < 0.75 and self.el:
            d = {e: 1 for e in self.el}
            e = rng.choice(self.el)
            r = rng.random()
            if r < 0.2: return BadDict(d, self.act)
            if r < 0.4: del d[e]
            elif r < 0.5 and not self.setset: d['zz'] = 1
            else: d[e] = rng.choice([None, 'x', NAN, 2 ** 40, 2 ** 70, -2 ** 31 - 1, 1.5, -0.5, BadNum(), [], 1e308])
            return d
        if k < 0.83:
            return self.foreign()
        return self.junk()

    def foreign(self):
        import graphillion as g
        import _graphillion
        k = self.rng.randrange(5)
        if k == 0: return g.setset() if not self.setset else g.GraphSet([])
        if k == 1: return g.DiGraphSet([]) if self.m.ad.name != 'DiGraphSet' else g.setset()
        if k == 2: return _graphillion.setset([])
        if k == 3: return type(self.fam_obj())
        return [self.fam_obj()]

    # arguments of searches
    def search_arg(self, kind, bad):
        rng, vs = self.rng, self.verts
        sub = lambda: [v for v in vs if rng.random() < 0.5] or vs[:1]
        if not bad:
            if kind == 'v': return rng.choice(vs)
            if kind == 'vs': return sub()
            if kind == 'vg': return [sub()[:1]]
            if kind in ('dc',): return {v: rng.choice([1, range(3), range(0, 5, 2)]) for v in sub()}
            if kind == 'ne': return rng.choice([1, range(3)])
            if kind == 'lc': return [([self.el[0]], (0, 5))]
            if kind in ('int', 'num'): return rng.randint(1, 3)
            if kind == 'bool': return rng.random() < 0.5
            if kind == 'vd': return {v: rng.randint(1, 2) for v in vs}
            if kind == 'ed': return {e: 0.5 for e in self.el}
            if kind == 'deg': return rng.choice([1, 2, None, (1, 2)])
            if kind == 'dd': return {1: rng.choice([2, 4]), 2: 1}
            return self.fam_obj()
        k = rng.random()
        if k < 0.35: return self.hashable_junk()
        if k < 0.5: return self.junk()
        if kind in ('vs', 'vg'):
            l = sub()
            l.insert(rng.randrange(len(l) + 1), rng.choice(['zz', None, 2 ** 70, [], Obj(), BadHash(), BadEq(hash(vs[0]))]))
            if rng.random() < 0.4: return Stops(sub(), self.act, rng.random() < 0.8)
            return [l] if kind == 'vg' else l
        if kind in ('dc', 'vd', 'ed', 'dd'):
            keys = {'dc': vs, 'vd': vs, 'ed': self.el, 'dd': [1, 2, 3]}[kind]
            d = {v: 1 for v in keys}
            r = rng.random()
            if r < 0.15: return BadDict(d, self.act)
            if r < 0.3: d['zz'] = 1
            elif r < 0.4: d.pop(rng.choice(list(d)))
            else:
                d[rng.choice(list(d))] = rng.choice([-1, 2 ** 31, 2 ** 63, 2 ** 70, None, 'x', 1.5, NAN, [], [1, None],
                                                     range(0), range(5, 2), range(2 ** 40, 2 ** 40 + 2), (0, BadNum(), 2), BadNum(), Stops([1, 2], self.act)])
            return d
        if kind == 'lc':
            e = self.el[0]
            return rng.choice([[([e], (0,))], [([e], None)], [([(e[0], 'zz')], (0, 1))], [([e[:1]], (0, 1))], [([e + ('w',)], (0, 1))],
                               [([e + (BadNum(),)], (0, 1))], [([e], (0, BadNum()))], [(Stops([e], self.act), (0, 1))], [([e], (0, 1)), None]])
        if kind == 'fam':
            return self.foreign() if rng.random() < 0.6 else self.bad('', 0)
        if kind in ('ne', 'deg'):
            return rng.choice([range(0), range(2 ** 40, 2 ** 40 + 3), [1, None], [None], (3, 1), (1,), [0, 2 ** 70], Stops([1], self.act)])
        return self.bad('', 0)


def consume(m, r):
    """whatever a call returned can be used without breaking the process"""
    import graphillion as g
    from graphillion.setset_base import setset_base
    try:
        if hasattr(r, '__next__'):
            list(islice(r, 5))
        elif isinstance(r, setset_base):
            r.len()
            list(islice(iter(r), 5))
        elif hasattr(r, 'rand_iter'):
            len(r)
            list(islice(iter(r), 5))
    except SystemError:
        raise
    except Exception:
        pass


def one(m, a, b, c, d, e):
    rng = random.Random(a)
    g = Gen(m, rng)
    if not m.pool:
        m.push(m.ad.new(m.rnd_fam(b)), frozenset())
        m.pool[-1][1] = m.members(m.pool[-1][0])
    uni = list(m.ad.univ())
    ent = m.pick(b)
    k = rng.random()
    must = False
    name = None
    if k < 0.16:
        name, call, must = absent(m, g, ent)
    elif k < 0.28:
        name, call, must = build(m, g)
    elif k < 0.40 and m.ad.name in STATIC:
        name, call, must = search(m, g)
    elif k < 0.48:
        name, call, must = io(m, g, ent)
    elif k < 0.53 and not g.setset:
        name, call, must = convert(m, g, ent)
    elif k < 0.64:
        name, call, must = numbers(m, g, ent)
    if not name:
        name = rng.choice([x for x in METHODS if hasattr(ent[0], x)])
        n = METHODS[name]
        na = rng.randint(0, n) if rng.random() < 0.15 else max(1, rng.randint(1, n)) if n > 1 or name.startswith('__') else rng.choice([0, 1])
        badpos = rng.randrange(na) if na else 0
        try:
            args = [g.bad(name, i) if i == badpos else g.valid(name, i) for i in range(na)]
        except (Boom, TypeError):     # a hostile value that cannot even be stored in a container
            return
        call = lambda: getattr(ent[0], name)(*args)
    m.ctx.stats['bad:' + name] += 1
    m.ctx.dig.update(name.encode())
    if DEBUG:
        import sys
        fv = dict(zip(call.__code__.co_freevars, (c.cell_contents for c in call.__closure__ or ())))
        print('BAD', m.ad.name, name, {k: v for k, v in fv.items() if k not in ('ent', 'obj')}, len(ent[1]), file=sys.stderr, flush=True)
    exc = None
    res = None
    try:
        res = call()
    except Violation:
        raise
    except SystemError as x:
        raise Violation('badcall:SystemError', '%s: %r' % (name, x))
    except Exception as x:
        exc = type(x).__name__
        x = None
    m.ctx.stats['bad_raised' if exc else 'bad_returned'] += 1
    if must and exc is None:
        raise Violation('badcall:accepted', '%s returned %r' % (name, type(res).__name__))
    if exc is None:
        try:
            consume(m, res)
        except SystemError as x:
            raise Violation('badcall:SystemError', 'using the result of %s: %r' % (name, x))
        if name in MUT:
            # it was a legal call after all
            if ent in m.pool: m.pool.remove(ent)
            ent[1] = m.members(ent[0])
    res = None
    if not g.setset and list(m.ad.univ()) != uni:
        raise Violation('badcall:universe', '%s (%s) changed the universe from %r to %r' % (name, exc, uni, m.ad.univ()))
    if g.setset and exc is not None and list(m.ad.univ())[:len(uni)] != uni:
        raise Violation('badcall:universe', '%s (%s) changed the universe from %r to %r' % (name, exc, uni, m.ad.univ()))
    m.verify_all('bad:%s(%s)' % (name, exc))


def absent(m, g, ent):
    """calls that must raise"""
    rng = g.rng
    obj, mod = ent
    k = rng.randrange(6)
    ev = m.ad.name == 'EdgeVertexSetSet'
    if k == 0 and hasattr(obj, 'remove') and not ev:
        for _ in range(10):
            s = m.rnd_set(rng.randrange(1 << 30))
            if s not in mod:
                arg = set(s) if g.setset else list(s)
                return 'remove', lambda: obj.remove(arg), True
    if k == 1 and not mod and hasattr(obj, 'pop'):
        return 'pop', lambda: obj.pop(), True
    if k == 2 and not mod and hasattr(obj, 'choice'):
        return 'choice', lambda: obj.choice(), True
    if k == 3 and not ev and g.el:
        es = [x for x in g.el if not any(x in s for s in mod)]
        if es:
            x = rng.choice(es)
            return 'remove', lambda: obj.remove(x), True
    if k == 4 and not ev:
        z = m.ad.new([])
        f = rng.choice(['quotient', 'remainder', 'quotient_update', 'remainder_update', '__truediv__', '__mod__', '__itruediv__', '__imod__'])
        if hasattr(obj, f):
            return f, lambda: getattr(obj, f)(z), True
    if k == 5 and not ev:
        f = rng.choice(['update', 'intersection_update', 'difference_update', 'symmetric_difference_update', 'union', 'intersection',
                        'difference', 'symmetric_difference'])
        args = [g.fam_obj() for _ in range(rng.randint(0, 3))]
        args.insert(rng.randrange(len(args) + 1), rng.choice([None, 3, 'x', [], Obj()]))
        return f, lambda: getattr(obj, f)(*args), True
    return None, None, False


def build(m, g):
    """constructors that must raise"""
    rng = g.rng
    C = m.ad.C
    sets = [list(m.rnd_set(rng.randrange(1 << 30))) for _ in range(rng.randint(0, 4))]
    k = rng.randrange(7)
    if k == 0:
        sets.insert(rng.randrange(len(sets) + 1), rng.choice([None, 5, 1.5, Obj()]))
        return 'new', lambda: C(sets), True
    if k == 1:
        sets.insert(rng.randrange(len(sets) + 1), Stops(list(m.rnd_set(rng.randrange(1 << 30))), g.act))
        return 'new', lambda: C(sets), True
    if k == 2:
        sets.insert(rng.randrange(len(sets) + 1), [rng.choice([[], {}, set()])])
        return 'new', lambda: C(sets), True
    if k == 3 and not g.setset:
        sets.insert(rng.randrange(len(sets) + 1), [('zz', 'yy')])
        return 'new', lambda: C(sets), True
    if k == 4:
        d = {rng.choice(['include', 'exclude']): rng.choice([None, 5, [[]], [{}], Stops(g.el[:2], g.act)])}
        if rng.random() < 0.5: d[rng.choice(['exclude', 'include'])] = Stops(g.el[:1], g.act)
        return 'new', lambda: C(d), True
    if k == 5:
        x = rng.choice([g.junk, g.hashable_junk, Obj])()
        return 'new', lambda: C(x), False
    C2 = m.ad.C
    if m.ad.name in ('GraphSet', 'DiGraphSet', 'setset') and hasattr(C2, 'set_universe'):
        el = list(g.el)
        if not el: return None, None, False
        t = rng.randrange(6)
        if t == 0: u = el + [el[0]]
        elif t == 1: u = el[:1] + [[]]
        elif t == 2: u = Stops(el, g.act)
        elif t == 3: u = el + [BadHash()]
        elif t == 4: u = rng.choice([None, 5])
        else:
            if g.setset: u = [BadHash(1)]
            elif m.ad.name == 'GraphSet':
                u = rng.choice([[], [(1,)], el + [el[0][::-1]], el + [5], el + [None], [(el[0][0], BadEq(3))]])
            else:
                u = rng.choice([[(1,)], el + [5], el + [None]])
        kw = {}
        if not g.setset and rng.random() < 0.3:
            u = el
            kw = rng.choice([dict(traversal='zz'), dict(source='nowhere', traversal='bfs')])
        return 'set_universe', lambda: C2.set_universe(u, **kw), True
    return None, None, False


def search(m, g):
    rng = g.rng
    name = rng.choice(sorted(STATIC[m.ad.name]))
    f = getattr(m.ad.C, name, None)
    if f is None:
        return None, None, False
    kinds = STATIC[m.ad.name][name]
    badpos = rng.randrange(len(kinds))
    n = rng.randint(badpos + 1, len(kinds))
    args = [g.search_arg(kd, i == badpos) for i, kd in enumerate(kinds[:n])]
    if name == 'bicliques' or name == 'cliques':
        args = [min(x, 10 ** 6) if isinstance(x, int) else x for x in args]
    return name, lambda: f(*args), False


def io(m, g, ent):
    import io as _io
    rng = g.rng
    obj = ent[0]
    C = m.ad.C
    k = rng.randrange(6)
    if k == 0:
        bf = BadFile(rng.randrange(7))
        return 'dump', lambda: obj.dump(bf), False
    if k == 1:
        x = rng.choice([None, 10 ** 6, -1, 2 ** 70, 'x', Obj(), _io.BytesIO(), _io.StringIO(), [], type])
        return 'dump', lambda: obj.dump(x), False
    if k == 2:
        bf = BadFile(rng.randrange(7), obj.dumps().encode() if isinstance(obj.dumps(), str) else obj.dumps())
        return 'load', lambda: C.load(bf), False
    if k == 3:
        x = rng.choice([None, 5, Obj(), [], 1.5, BadHash()])
        return 'loads', lambda: C.loads(x), True
    if k == 4:
        x = rng.choice(['zz\n', '', '1 2 3\n', '\x00', '1\n', '-1 0 0\n.\n', 'é', '9' * 400])
        return 'loads', lambda: C.loads(x), True
    t = obj.dumps()
    i = rng.randrange(len(t))
    t2 = t[:i] + rng.choice(['', 'x', '-', '99999', ' ', '\n', 'T', 'B']) + t[i + rng.randrange(2):]
    return 'loads', lambda: C.loads(t2), False


def numbers(m, g, ent):
    """weights, costs and probabilities one of which is no good number"""
    rng = g.rng
    obj = ent[0]
    name = rng.choice([x for x in ('min_iter', 'max_iter', 'cost_le', 'cost_ge', 'cost_eq', 'probability') if hasattr(obj, x)])
    prob = name == 'probability'
    if not g.el: return None, None, False
    d = {e: rng.choice([0.5, 0, 1, 0.25]) if prob else rng.randint(-3, 5) for e in g.el}
    from fractions import Fraction
    from decimal import Decimal
    mk = [BadNum, lambda: Fraction(1, 2), lambda: Decimal('0.5'), lambda: ''.join(['0', '.5']), lambda: bytearray(b'1'), list,
          lambda: 10 ** 400 + rng.randrange(9), lambda: -10 ** 30 - rng.randrange(9), lambda: complex(0, 1)]
    x = rng.choice(mk)()
    if name[:4] == 'cost' and rng.random() < 0.3:
        return name, lambda: getattr(obj, name)(d, x), False
    d[rng.choice(list(d))] = x
    if name[:4] == 'cost':
        bound = rng.randint(-3, 9)
        return name, lambda: getattr(obj, name)(d, bound), False
    return name, lambda: getattr(obj, name)(d), False


def convert(m, g, ent):
    """user converters that fail"""
    C = m.ad.C
    conv = getattr(C, 'converters', None)
    if not conv:
        return None, None, False
    rng = g.rng
    key = rng.choice(sorted(conv))
    left = [rng.randint(0, 3)]
    old = conv[key]

    def f(x):
        if left[0] <= 0:
            g.act()
            raise Boom('converter')
        left[0] -= 1
        return old(x)
    what = rng.randrange(5)
    obj = ent[0]

    def call():
        conv[key] = f
        try:
            if what == 0: return list(obj)
            if what == 1: return C([list(s) for s in list(ent[1])[:3]])
            if what == 2: return obj.choice()
            if what == 3: return list(islice(obj.min_iter(), 5))
            return list(m.rnd_set(3)) in obj
        finally:
            conv[key] = old
    return 'converter', call, False
