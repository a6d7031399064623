"""Large setset families: real growth of the node table, the operation cache, the unique tables and the
overflow reference counts, optionally with memory faults inside single operations.

Model: a family is a frozenset of int bit masks over the universe order."""
import random
from core import Violation
from faults import Faults, gen_fault

CAP = 6000


def sub_fam(rng, n, cnt, kind):
    out = set()
    if kind == 0:                                  # uniform, given density
        d = rng.choice([0.08, 0.2, 0.5, 0.8])
        for _ in range(cnt):
            out.add(sum(1 << i for i in range(n) if rng.random() < d))
    elif kind == 1:                                # near copies of a base
        b = rng.getrandbits(n)
        for _ in range(cnt):
            m = b
            for _ in range(rng.randint(0, 4)):
                m ^= 1 << rng.randrange(n)
            out.add(m)
    elif kind == 2:                                # intervals
        for _ in range(cnt):
            a, b = sorted((rng.randrange(n), rng.randrange(n)))
            out.add(((1 << (b - a + 1)) - 1) << a)
    elif kind == 3:                                # small sets
        for _ in range(cnt):
            m = 0
            for _ in range(rng.randint(0, 3)):
                m |= 1 << rng.randrange(n)
            out.add(m)
    else:                                          # common tail, all heads
        w = min(n, 11)
        t = rng.getrandbits(n) >> w << w
        for _ in range(cnt):
            out.add(t | rng.getrandbits(w))
    return out


OPS = (['new'] * 5 + ['union', 'inter', 'diff', 'sym'] * 2 + ['upd'] * 3 + ['incl', 'excl', 'flip', 'addel', 'remel', 'flipall']
       + ['small', 'large', 'size', 'min', 'max'] + ['join', 'meet', 'sub', 'sup', 'nsub', 'nsup', 'quo', 'rem']
       + ['addset', 'rmset', 'has', 'len', 'top', 'cost', 'prob', 'iter', 'choice'] + ['drop'] * 3
       + ['gc', 'churn', 'clone', 'io', 'eq', 'addmany', 'rmsome'])

CHANGE = OPS + ['upd', 'addel', 'remel', 'flip', 'flipall', 'addset', 'rmset', 'clone'] * 3
ITER = ['new'] * 5 + ['iter', 'its', 'rand'] * 4 + ['top', 'choice', 'upd', 'flip', 'union', 'drop', 'gc', 'churn', 'rmset', 'grow']
WEIGHT = ['new'] * 5 + ['top', 'cost', 'prob', 'costs'] * 4 + ['choice', 'rand', 'union', 'sym', 'drop', 'gc', 'churn', 'flip', 'grow']
RECONF = ['new'] * 5 + ['rmsome', 'somein'] * 6 + ['union', 'sym', 'drop', 'gc', 'churn', 'flip', 'join', 'grow', 'grow']


def gen(rng, nops, oom=0.0, ops=OPS, refs=0.06, deny=False, weights=None):
    light = ops is not OPS
    n = rng.randint(18, 60) if rng.random() < (0.92 if light else 0.97) else rng.randint(60, 330)
    cfg = {'NODE_INIT': rng.choice([64, 256, 300, 1000, 4000])}
    k = rng.random()
    if k < 0.3:
        cfg['GC_PPM'] = rng.choice([50, 300, 2000])
    if rng.random() < 0.25:
        cfg['POISON'] = 1
    den = None
    if deny:
        den = [rng.choice([6000, 20000, 100000]), rng.choice([200, 500, 900])]
    if deny and rng.random() < 0.5:
        cfg['NODE_LIMIT'] = rng.choice([4000, 8000, 30000])
        den = None
    fav = rng.sample(ops, 6)
    big = rng.choice([40, 80, 150, 400] if light else [40, 150, 150, 500, 500, 2000])
    if 'GC_PPM' in cfg and big >= 400:
        cfg['GC_PPM'] = min(cfg['GC_PPM'], 50 if big > 500 else 300)
    if ops is RECONF:
        big = min(big, 40)
        cfg.pop('GC_PPM', None)
    if n > 60:
        big = min(big, 50)
        cfg.pop('GC_PPM', None)
        den = None
        cfg.pop('NODE_LIMIT', None)
    lst = []
    for i in range(rng.randint(*nops)):
        o = 'new' if i < 2 else rng.choice(fav) if rng.random() < 0.35 else rng.choice(ops)
        op = [o] + [rng.randrange(1 << 30) for _ in range(4)]
        if oom and i and rng.random() < oom:
            f = gen_fault(rng)
            if f[0] == 'new' and rng.random() < 0.6:
                f[1] *= rng.choice([1, 5, 20])
            op.append(f)
        lst.append(op)
    if rng.random() < refs and not oom:
        lst.insert(rng.randrange(1, len(lst) + 1), ['refs'] + [rng.randrange(1 << 30) for _ in range(4)])
    return {'cfg': cfg, 'init': {'n': n, 'big': big, 'perm': rng.randrange(1 << 30), 'deny': den, 'cap': 60000 if light else 240000}, 'ops': lst}


class BigRun:
    def __init__(self, t, ctx):
        self.t, self.ctx = t, ctx
        from graphillion import setset
        self.S = setset
        self.n = t['init']['n']
        self.big = t['init']['big']
        self.cap = min(CAP, t['init'].get('cap', 240000) // self.n)
        lab = list(range(1, self.n + 1))
        random.Random(t['init']['perm']).shuffle(lab)
        self.lab = lab
        self.pairs = [(e, 1 << i) for i, e in enumerate(lab)]
        self.bit = dict(self.pairs)
        setset.set_universe(list(lab))
        self.full = (1 << self.n) - 1
        self.pool = []
        self.f = Faults(ctx)
        self.deny = t['init'].get('deny')
        self.limit = 'NODE_LIMIT' in t['cfg']
        if self.deny:
            ctx.sim.set('DENY_BIG', self.deny[0])

    # conversions
    def to_set(self, m):
        return {e for e, b in self.pairs if m & b}

    def mask(self, s):
        return sum(map(self.bit.__getitem__, s))

    def make(self, fam, r):
        rng = random.Random(r)
        l = sorted(fam)
        rng.shuffle(l)
        return self.S([self.to_set(m) for m in l])

    def members(self, obj):
        self.f.disarm()
        out = set()
        c = 0
        for s in obj:
            out.add(self.mask(s))
            c += 1
        if c != len(out):
            raise Violation('mismatch:members', 'a member comes twice: %d yields, %d members' % (c, len(out)))
        return out

    def same(self, obj, fam, what):
        got = self.members(obj)
        if got != fam:
            a, b = got - fam, fam - got
            raise Violation('mismatch:' + what, '%d members, %d expected; %d wrong e.g. %s; %d missing e.g. %s' % (
                len(got), len(fam), len(a), sorted(a)[:2], len(b), sorted(b)[:2]))
        n = len(obj)
        if n != len(fam):
            raise Violation('mismatch:len', 'len %d, %d members' % (n, len(fam)))

    def put(self, obj, fam):
        if len(fam) <= self.cap:
            if len(self.pool) >= 7:
                self.pool.pop(0)
            self.pool.append([obj, frozenset(fam)])

    def pick(self, r):
        return self.pool[r % len(self.pool)] if self.pool else None

    def fam(self, r, small=False):
        rng = random.Random(r)
        cnt = rng.randint(1, 5) if small else rng.choice([1, 20, self.big, self.big])
        return sub_fam(rng, self.n, cnt, rng.randrange(5))

    def verify_all(self, what):
        for i, (o, m) in enumerate(self.pool):
            try:
                self.same(o, m, what)
            except MemoryError:
                if not self.limit: raise
                self.ctx.stats['verify_no_memory'] += 1

    def run(self):
        ctx = self.ctx
        for i, op in enumerate(self.t['ops']):
            ctx.step(i, op[0])
            ctx.stats['big:' + op[0]] += 1
            fault = op[5] if len(op) > 5 else None
            fired0 = self.f.fired()
            try:
                if fault:
                    self.f.arm(fault)
                if self.deny or self.limit:
                    ctx.may_die(True)
                self.quiet(False)
                getattr(self, 'o_' + op[0])(*op[1:5])
            except Violation:
                raise
            except Exception as e:
                self.f.disarm()
                self.quiet(True)
                if self.f.fired() == fired0 and not (self.limit and isinstance(e, MemoryError)):
                    raise
                ctx.stats['failed:' + type(e).__name__] += 1
                self.verify_all('after_failure')
            finally:
                self.f.disarm()
                self.quiet(True)
                ctx.may_die(False)
            if i % 6 == 5:
                self.verify_all('others')
            ctx.state(hash(tuple(len(m) for _, m in self.pool)))
        self.quiet(True)
        self.verify_all('end')
        ctx.nontrivial = len(self.t['ops']) >= 4
        ctx.sample = {'init': self.t['init'], 'cfg': self.t['cfg'], 'first_ops': self.t['ops'][:4], 'n_ops': len(self.t['ops'])}

    def quiet(self, on):
        if self.deny:
            self.ctx.sim.set('DENY_BIG', 0 if on else self.deny[0])
            self.ctx.sim.set('DENY_PERMILLE', 0 if on else self.deny[1])

    # ---- operations
    def res(self, obj, fam, what):
        self.f.disarm()
        self.quiet(True)
        self.same(obj, fam, what)
        self.quiet(False)
        self.put(obj, fam)

    def o_new(self, a, b, c, d):
        fam = self.fam(a)
        self.res(self.make(fam, b), fam, 'new')

    def two(self, a, b):
        if not self.pool: return None
        return self.pick(a), self.pick(b)

    def bin(self, a, b, f, g, what):
        p = self.two(a, b)
        if not p: return
        (x, mx), (y, my) = p
        fam = g(mx, my)
        if len(fam) > self.cap: return
        self.res(f(x, y), fam, what)

    def o_union(self, a, b, c, d): self.bin(a, b, lambda x, y: x | y, lambda x, y: x | y, 'union')
    def o_inter(self, a, b, c, d): self.bin(a, b, lambda x, y: x & y, lambda x, y: x & y, 'intersection')
    def o_diff(self, a, b, c, d): self.bin(a, b, lambda x, y: x - y, lambda x, y: x - y, 'difference')
    def o_sym(self, a, b, c, d): self.bin(a, b, lambda x, y: x ^ y, lambda x, y: x ^ y, 'symdiff')

    def o_upd(self, a, b, c, d):
        p = self.two(a, b)
        if not p: return
        x, (y, my) = p
        nm = ['update', 'intersection_update', 'difference_update', 'symmetric_difference_update'][c % 4]
        mx = x[1]
        fam = [mx | my, mx & my, mx - my, mx ^ my][c % 4]
        if len(fam) > self.cap: return
        getattr(x[0], nm)(y)
        self.f.disarm()
        x[1] = frozenset(fam)
        self.quiet(True)
        self.same(x[0], x[1], nm)
        self.quiet(False)

    def un(self, a, f, g, what, lim=None):
        p = self.pick(a)
        if not p or len(p[1]) > (lim or self.cap): return
        fam = g(p[1])
        if len(fam) > self.cap: return
        self.res(f(p[0]), fam, what)

    def o_incl(self, a, b, c, d):
        i = b % self.n
        self.un(a, lambda x: x.supersets(self.lab[i]), lambda m: {s for s in m if s >> i & 1}, 'supersets(elem)')

    def o_excl(self, a, b, c, d):
        i = b % self.n
        self.un(a, lambda x: x.non_supersets(self.lab[i]), lambda m: {s for s in m if not s >> i & 1}, 'non_supersets(elem)')

    def o_flip(self, a, b, c, d):
        i = b % self.n
        self.inplace(a, lambda x: x.flip(self.lab[i]), lambda m: {s ^ (1 << i) for s in m}, 'flip')

    def o_flipall(self, a, b, c, d):
        self.inplace(a, lambda x: x.flip(), lambda m: {s ^ self.full for s in m}, 'flip()')

    def inplace(self, a, f, g, what):
        p = self.pick(a)
        if not p: return
        f(p[0])
        p[1] = frozenset(g(p[1]))
        self.after(p, what)

    def after(self, p, what):
        self.f.disarm()
        self.quiet(True)
        self.same(p[0], p[1], what)
        self.quiet(False)

    def o_addel(self, a, b, c, d):
        i = b % self.n
        p = self.pick(a)
        if not p: return
        p[0].add(self.lab[i])
        p[1] = frozenset(s | (1 << i) for s in p[1])
        self.after(p, 'add(elem)')

    def o_remel(self, a, b, c, d):
        i = b % self.n
        p = self.pick(a)
        if not p or not any(s >> i & 1 for s in p[1]): return
        p[0].remove(self.lab[i])
        p[1] = frozenset(s & ~(1 << i) for s in p[1])
        self.after(p, 'remove(elem)')

    def o_small(self, a, b, c, d):
        k = b % self.n
        self.un(a, lambda x: x.smaller(k), lambda m: {s for s in m if s.bit_count() < k}, 'smaller')

    def o_large(self, a, b, c, d):
        k = b % self.n
        self.un(a, lambda x: x.larger(k), lambda m: {s for s in m if s.bit_count() > k}, 'larger')

    def o_size(self, a, b, c, d):
        k = b % self.n
        self.un(a, lambda x: x.set_size(k), lambda m: {s for s in m if s.bit_count() == k}, 'set_size')

    def o_min(self, a, b, c, d):
        self.un(a, lambda x: x.minimal(), lambda m: {s for s in m if not any(q & s == q and q != s for q in m)}, 'minimal', 500)

    def o_max(self, a, b, c, d):
        self.un(a, lambda x: x.maximal(), lambda m: {s for s in m if not any(q | s == q and q != s for q in m)}, 'maximal', 500)

    def small(self, a, b, f, g, what, lim=1200):
        p = self.pick(a)
        if not p or len(p[1]) > lim: return
        q = self.fam(b, True)
        rng = random.Random(b)
        if p[1] and rng.random() < 0.6:      # related to the members
            q = {rng.choice(sorted(p[1])) & (rng.getrandbits(self.n) | rng.getrandbits(self.n)) for _ in range(3)}
        fam = g(p[1], q)
        if len(fam) > self.cap: return
        y = self.make(q, b)
        self.res(f(p[0], y), fam, what)

    def o_join(self, a, b, c, d):
        self.small(a, b, lambda x, y: x.join(y), lambda m, q: {s | t for s in m for t in q}, 'join')

    def o_meet(self, a, b, c, d):
        self.small(a, b, lambda x, y: x.meet(y), lambda m, q: {s & t for s in m for t in q}, 'meet')

    def o_sub(self, a, b, c, d):
        p = self.pick(a)
        if not p: return
        self.small(a, b, lambda x, y: x.subsets(y), lambda m, q: {s for s in m if any(s & t == s for t in q)}, 'subsets')

    def o_nsub(self, a, b, c, d):
        self.small(a, b, lambda x, y: x.non_subsets(y), lambda m, q: {s for s in m if not any(s & t == s for t in q)}, 'non_subsets')

    def o_sup(self, a, b, c, d):
        self.small(a, b, lambda x, y: x.supersets(y), lambda m, q: {s for s in m if any(s | t == s for t in q)}, 'supersets')

    def o_nsup(self, a, b, c, d):
        self.small(a, b, lambda x, y: x.non_supersets(y), lambda m, q: {s for s in m if not any(s | t == s for t in q)}, 'non_supersets')

    @staticmethod
    def quo(m, q):
        q = list(q)
        out = None
        for t in q:
            c = {s & ~t for s in m if s & t == t}
            out = c if out is None else out & c
        return {s for s in out if all(not s & t for t in q)}

    def o_quo(self, a, b, c, d):
        self.small(a, b, lambda x, y: x / y, self.quo, 'quotient')

    def o_rem(self, a, b, c, d):
        def g(m, q):
            k = self.quo(m, q)
            return m - {s | t for s in k for t in q}
        self.small(a, b, lambda x, y: x % y, g, 'remainder')

    def o_addset(self, a, b, c, d):
        p = self.pick(a)
        if not p: return
        m = sorted(self.fam(b, True))[0]
        p[0].add(self.to_set(m))
        p[1] = p[1] | {m}
        self.after(p, 'add(set)')

    def o_addmany(self, a, b, c, d):
        """one by one into a fresh family"""
        x = self.S()
        fam = set()
        for m in sorted(self.fam(b))[:150]:
            x.add(self.to_set(m))
            fam.add(m)
        self.res(x, fam, 'add(set)*')

    def o_rmset(self, a, b, c, d):
        p = self.pick(a)
        if not p or not p[1]: return
        m = sorted(p[1])[b % len(p[1])]
        p[0].remove(self.to_set(m))
        p[1] = p[1] - {m}
        self.after(p, 'remove(set)')

    def o_has(self, a, b, c, d):
        p = self.pick(a)
        if not p: return
        for m in list(sorted(p[1])[b % 7::97])[:20] + sorted(self.fam(c, True)):
            for k in (m, m ^ (1 << (d % self.n))):
                if (self.to_set(k) in p[0]) != (k in p[1]):
                    raise Violation('mismatch:contains', bin(k))

    def o_len(self, a, b, c, d):
        p = self.pick(a)
        if not p: return
        if len(p[0]) != len(p[1]): raise Violation('mismatch:len', '%d %d' % (len(p[0]), len(p[1])))
        k = b % self.n
        self.res(p[0].len(k), {s for s in p[1] if s.bit_count() == k}, 'len(k)')

    def weights(self, r):
        rng = random.Random(r)
        return [rng.randint(-50, 50) for _ in range(self.n)]

    def o_top(self, a, b, c, d):
        p = self.pick(a)
        if not p or len(p[1]) * self.n > 40000: return
        w = self.weights(b)
        wt = lambda m: sum(w[i] for i in range(self.n) if m >> i & 1)
        best = sorted((wt(m) for m in p[1]), reverse=c % 2 == 0)[:15]
        it = (p[0].max_iter if c % 2 == 0 else p[0].min_iter)({self.lab[i]: w[i] for i in range(self.n)})
        got = []
        for s in it:
            got.append(self.mask(s))
            if len(got) >= 15: break
        del it
        self.f.disarm()
        if len(set(got)) != len(got) or not set(got) <= p[1]:
            raise Violation('mismatch:top', 'not distinct members')
        if [wt(m) for m in got] != best:
            raise Violation('mismatch:top', 'weights %s, expected %s' % ([wt(m) for m in got], best))

    def o_cost(self, a, b, c, d):
        w = self.weights(b)
        bound = random.Random(c).randint(-200, 200)
        wt = lambda m: sum(w[i] for i in range(self.n) if m >> i & 1)
        p = self.pick(a)
        if not p or len(p[1]) > 800: return
        self.un(a, lambda x: x.cost_le({self.lab[i]: w[i] for i in range(self.n)}, bound),
                lambda m: {s for s in m if wt(s) <= bound}, 'cost_le')

    def o_prob(self, a, b, c, d):
        p = self.pick(a)
        if not p or len(p[1]) > 1500: return
        rng = random.Random(b)
        pr = [rng.choice([0.0, 1.0, 0.5, rng.random()]) if rng.random() < 0.2 else rng.random() for _ in range(self.n)]
        exp = 0.0
        for m in p[1]:
            q = 1.0
            for i in range(self.n):
                q *= pr[i] if m >> i & 1 else 1 - pr[i]
            exp += q
        got = p[0].probability({self.lab[i]: pr[i] for i in range(self.n)})
        if abs(got - exp) > 1e-9 + 1e-6 * exp:
            raise Violation('mismatch:probability', '%r, expected %r' % (got, exp))

    def o_iter(self, a, b, c, d):
        """a paused iterator survives the operations that follow"""
        p = self.pick(a)
        if not p: return
        fam = p[1]
        it = iter(p[0])
        got = []
        for s in it:
            got.append(self.mask(s))
            if len(got) > b % 50: break
        x = self.make(self.fam(c), d)
        del x
        self.ctx.sim.gc()
        for s in it:
            got.append(self.mask(s))
        self.f.disarm()
        if len(got) != len(set(got)) or set(got) != fam:
            raise Violation('mismatch:iter', '%d yields, %d distinct, %d members' % (len(got), len(set(got)), len(fam)))

    def o_its(self, a, b, c, d):
        """several iterators advanced in turn while their families change"""
        rng = random.Random(d)
        its = []
        for r in (a, b, c):
            p = self.pick(r)
            if p and len(p[1]) * self.n <= 6000:
                k = rng.randrange(3)
                w = {e: rng.randint(-9, 9) for e in self.lab} if k == 2 else None
                its.append([iter(p[0]) if k == 0 else p[0].rand_iter() if k == 1 else p[0].max_iter(w), p[1], [], w])
        t = 0
        while its and t < 3000:
            t += 1
            i = rng.randrange(len(its))
            it, fam, got, w = its[i]
            m = next(it, None)
            if m is not None:
                got.append(self.mask(m))
                if t % 97 == 0:
                    p = self.pick(rng.randrange(99))
                    k = rng.randrange(4)
                    if k == 0: self.o_flip(rng.randrange(99), rng.randrange(99), 0, 0)
                    elif k == 1: self.o_churn(rng.randrange(99), rng.randrange(99), rng.randrange(99), 0)
                    elif k == 2 and len(p[1]) < self.cap // 2: self.o_upd(rng.randrange(99), rng.randrange(99), 0, 0)
                    else: self.ctx.sim.gc()
                continue
            del its[i]
            del it
            if len(got) != len(set(got)) or set(got) != fam:
                raise Violation('mismatch:iterators', '%d yields, %d distinct, %d members' % (len(got), len(set(got)), len(fam)))
            if w:
                v = [sum(w[e] for e in self.to_set(m)) for m in got]
                if any(x < y for x, y in zip(v, v[1:])): raise Violation('mismatch:order', 'weights %s' % v[:20])

    def o_rand(self, a, b, c, d):
        p = self.pick(a)
        if not p or len(p[1]) * self.n > 8000: return
        fam, got = p[1], []
        it = p[0].rand_iter()
        for s in it:
            got.append(self.mask(s))
            if len(got) == b % 60: self.o_churn(a, b, c, d)
            if len(got) > len(fam): break
        del it
        if len(got) != len(set(got)) or set(got) != fam:
            raise Violation('mismatch:rand_iter', '%d yields, %d distinct, %d members' % (len(got), len(set(got)), len(fam)))

    def o_costs(self, a, b, c, d):
        w = self.weights(b)
        wt = lambda m: sum(w[i] for i in range(self.n) if m >> i & 1)
        p = self.pick(a)
        if not p or not p[1] or len(p[1]) > 800: return
        k = wt(sorted(p[1])[c % len(p[1])]) + random.Random(d).choice([0, 0, 0, 1, -1])
        C = {self.lab[i]: w[i] for i in range(self.n)}
        self.un(a, lambda x: x.cost_le(C, k), lambda m: {s for s in m if wt(s) <= k}, 'cost_le')

    def o_somein(self, a, b, c, d):
        """neighbours within the universe after it has grown"""
        p = self.pick(a)
        if not p or len(p[1]) * self.n > 700: return
        n = self.n
        self.un(a, lambda x: x.add_some_element(), lambda m: {s | (1 << i) for s in m for i in range(n) if not s >> i & 1}, 'add_some_element')
        if len(p[1]) * n * n < 6000:
            self.un(a, lambda x: x.remove_add_some_elements(),
                    lambda m: {s & ~(1 << i) | (1 << j) for s in m for i in range(n) if s >> i & 1 for j in range(n) if not s >> j & 1},
                    'remove_add_some_elements')

    def o_grow(self, a, b, c, d):
        """a new element, at the end of the order"""
        e = 10 ** 6 + self.n
        x = self.S([{e}])
        self.lab.append(e)
        self.pairs.append((e, 1 << self.n))
        self.bit[e] = 1 << self.n
        self.n += 1
        self.full = (1 << self.n) - 1
        self.res(x, {1 << (self.n - 1)}, 'grow')

    def o_choice(self, a, b, c, d):
        p = self.pick(a)
        if not p or not p[1]: return
        m = self.mask(p[0].choice())
        if m not in p[1]: raise Violation('mismatch:choice', bin(m))
        k = 0
        for s in p[0].rand_iter():
            if self.mask(s) not in p[1]: raise Violation('mismatch:rand_iter', '')
            k += 1
            if k > 10: break

    def o_rmsome(self, a, b, c, d):
        p = self.pick(a)
        if not p or len(p[1]) * self.n > 3000: return
        k = b % 3
        n = self.n
        if k == 0:
            self.un(a, lambda x: x.remove_some_element(), lambda m: {s & ~(1 << i) for s in m for i in range(n) if s >> i & 1}, 'remove_some_element')
        elif k == 1:
            self.un(a, lambda x: x.add_some_element(), lambda m: {s | (1 << i) for s in m for i in range(n) if not s >> i & 1}, 'add_some_element')
        elif len(p[1]) * n * n <= 8000:
            self.un(a, lambda x: x.remove_add_some_elements(),
                    lambda m: {s & ~(1 << i) | (1 << j) for s in m for i in range(n) if s >> i & 1 for j in range(n) if not s >> j & 1},
                    'remove_add_some_elements')

    def o_drop(self, a, b, c, d):
        if self.pool: self.pool.pop(a % len(self.pool))

    def o_gc(self, a, b, c, d):
        self.ctx.sim.gc()

    def o_churn(self, a, b, c, d):
        for i in range(4):
            x = self.make(self.fam(a + i), b + i)
            if self.pool:
                x = x | self.pick(c + i)[0]
            del x

    def o_clone(self, a, b, c, d):
        p = self.pick(a)
        if p: self.put(p[0].copy(), p[1])

    def o_eq(self, a, b, c, d):
        p = self.two(a, b)
        if not p: return
        (x, mx), (y, my) = p
        z = self.make(mx, c)
        self.f.disarm()
        if not (z == x) or (x == y) != (mx == my) or (x <= y) != (mx <= my) or (x < y) != (mx < my) \
           or x.isdisjoint(y) != (not mx & my):
            raise Violation('mismatch:compare', '')

    def o_io(self, a, b, c, d):
        p = self.pick(a)
        if not p: return
        text = p[0].dumps()
        if b % 3 == 0:
            self.ctx.sim.gc()
        x = self.S.loads(text)
        self.f.disarm()
        if not (x == p[0]): raise Violation('mismatch:dumps', 'loads(dumps(x)) != x')
        self.res(x, p[1], 'loads')

    def o_refs(self, a, b, c, d):
        """more references to one node than fit its own counter"""
        p = self.pick(a)
        if not p: return
        l = [p[0].copy() for _ in range(66000 + b % 6000)]
        random.Random(c).shuffle(l)
        del l[:len(l) // 2]
        self.ctx.sim.gc()
        self.same(p[0], p[1], 'refs')
        y = l[0] | p[0]
        self.same(l[-1], p[1], 'refs')
        del l
        if d % 2:
            self.ctx.sim.gc()
        self.res(y, p[1], 'refs')


class BigWorkload:
    def __init__(self, nops=(5, 22), oom=0.0, refs=0.06, deny=False, ops=OPS):
        self.k = dict(nops=nops, oom=oom, refs=refs, ops=ops)
        self.deny = deny

    def gen(self, rng, tier, idx):
        k = dict(self.k)
        if tier == 'thorough' and rng.random() < 0.3:
            k['nops'] = (20, 60)
        return gen(rng, deny=self.deny and rng.random() < self.deny, **k)

    def run(self, t, ctx):
        ctx.may_die(False)
        BigRun(t, ctx).run()
