"""C14: several Python threads share families.  Who runs is decided by the simulator alone, at every point
where CPython could hand over its lock (calls, loop ends, function entries of the package's Python code) and
at every memory access while the extension has released it.  The recorded history of calls and results must
be linearizable against the set model."""
import _thread, dis, itertools, operator, os, random, sys, threading
import models as M
import simlock
from core import Violation, canon, REPO
from iowl import SimIO, nfds
from machine import ADS, gen_init, gen_mem_cfg
from graphwl import omp_cfg

PKG = os.path.join(os.path.abspath(REPO), 'graphillion') + os.sep
RES, NS = 'result', 1

BIN = dict(union=M.union, intersection=M.intersection, difference=M.difference, symdiff=M.symdiff,
           quotient=M.quotient, remainder=M.remainder, join=M.join, meet=M.meet, sub=M.subsets,
           sup=M.supersets, nsub=M.non_subsets, nsup=M.non_supersets)
METH = dict(symdiff='symmetric_difference')
INP = dict(union='update', intersection='intersection_update', difference='difference_update',
           symdiff='symmetric_difference_update', quotient='quotient_update', remainder='remainder_update')
IOP = dict(union=operator.ior, intersection=operator.iand, difference=operator.isub, symdiff=operator.ixor,
           quotient=operator.itruediv, remainder=operator.imod)
CMP = dict(eq=operator.eq, ne=operator.ne, le=operator.le, lt=operator.lt, ge=operator.ge, gt=operator.gt)
SET_CMP = dict(eq=lambda a, b: a == b, ne=lambda a, b: a != b, le=lambda a, b: a <= b, lt=lambda a, b: a < b,
               ge=lambda a, b: a >= b, gt=lambda a, b: a > b)

READ1 = ['len', 'list', 'copy', 'rand', 'minw', 'maxw', 'invert', 'minimal', 'maximal', 'dumps', 'choice', 'bool',
         'has', 'hase', 'smaller', 'larger', 'size', 'rm_some', 'add_some', 'swap_some', 'incl', 'excl', 'prob',
         'cost', 'search', 'repr', 'hitting', 'loadstr']
MUT = ['add', 'remove', 'discard', 'pop', 'clear', 'flip', 'adde', 'removee', 'discarde']
IO = ['dump', 'load', 'pdump', 'pload']


class Bad(Exception):
    pass


class Thr:
    def __init__(self, w, ctx):
        self.w, self.ctx = w, ctx


def is_matching(s):
    v = [x for e in s for x in e]
    return len(v) == len(set(v))


class ThreadWorkload:
    def __init__(self, io=1.0):
        self.io = io

    def gen(self, rng, tier, idx):
        cls = rng.choice(['setset'] * 5 + ['GraphSet'] * 4 + ['DiGraphSet', 'VertexSetSet', 'VertexSetSet'])
        init = gen_init(rng, cls)
        if cls == 'setset':
            init['universe'] = True
            init['n'] = min(init['n'], 6)
        nt = rng.choice([2, 2, 2, 3, 3, 4])
        nops = rng.randint(2, 6 if nt > 2 else 8)
        fam = rng.choice([1, 2, 2, 3, 4])
        names = rng.choice([None, None, MUT + ['copy', 'list'], IO * 3 + MUT + ['len', 'union'], ['grow', 'invert', 'add', 'list', 'dumps']])
        ops = []
        for t in range(nt):
            for _ in range(rng.randint(max(1, nops - 3), nops)):
                if names and rng.random() < 0.8:
                    n = rng.choice(names)
                else:
                    n = rng.choice([rng.choice(READ1), rng.choice(MUT), 'bin', 'ibin', 'ibin', 'cmp', 'disjoint',
                                    rng.choice(IO), 'grow' if cls == 'setset' else 'add'])
                if n == 'union': n = 'bin'
                ops.append([t, n, rng.randrange(1 << 20), rng.randrange(1 << 20), rng.randrange(1 << 20)])
        cfg = gen_mem_cfg(rng)
        cfg.update(omp_cfg(rng, 0.4))
        cfg['PT_PREEMPT_MEAN'] = rng.choice([1, 3, 20, 100, 1000])
        return {'cfg': cfg, 'init': init, 'nt': nt, 'fam': fam, 'ops': ops, 'py': rng.choice([0.0, 0.02, 0.1, 0.3, 1.0]),
                'mseed': rng.randrange(1 << 30)}

    # ------------------------------------------------------------------ running
    def run(self, t, ctx):
        ctx.may_die(False)
        self.ctx, self.sim, self.t = ctx, ctx.sim, t
        ad = self.ad = ADS[t['init']['cls']]()
        ad.setup(t['init'])
        q = random.Random(t['mseed'])
        self.elems = list(ad.elems)
        self.fresh = list(getattr(ad, 'fresh', []))
        for e in self.elems:
            if not e and e != 0:
                break
        mk = lambda: [frozenset(e for e in self.elems if q.random() < 0.5) for _ in range(q.choice([0, 1, 2, 3, 5, 9]))]
        self.shared, fams = [], []
        for _ in range(t['fam']):
            m = mk()
            self.shared.append(ad.new(m))
            fams.append(frozenset(m))
        # dumps made beforehand, for loads
        self.texts = []
        for _ in range(2):
            m = mk()
            o = ad.new(m)
            self.texts.append((o.dumps(), frozenset(m)))
            del o
        self.state0 = (frozenset(self.elems),) + tuple(fams)
        self.hist = []
        self.clock = itertools.count()
        self.prng = random.Random(t['mseed'] + 1)
        self.fid = itertools.count()
        self.offs = {}
        self.left = {}
        per = [[o for o in t['ops'] if o[0] == k] for k in range(t['nt'])]
        helpers = []
        jobs = []
        for k, ops in enumerate(per):
            plan = []
            for o in ops:
                p = self.prepare(o, helpers)
                if p: plan.append(p)
            jobs.append(plan)
        n = t['nt'] + len(helpers)
        if n > 15: return
        L = self.sim.L
        L.sim_pt_begin(n)
        locks = []
        self.errors = []
        nfd = nfds()
        threading.stack_size(64 << 20)
        for k in range(n):
            lk = _thread.allocate_lock()
            lk.acquire()
            locks.append(lk)
            _thread.start_new_thread(self.thread, (k, jobs[k] if k < t['nt'] else None,
                                                   helpers[k - t['nt']] if k >= t['nt'] else None, lk))
        ctx.step(0, 'threads')
        simlock.yielder = L.sim_pt_yield
        L.sim_pt_start()
        for lk in locks:
            lk.acquire()
        simlock.yielder = None
        L.sim_pt_end()
        if self.errors:
            raise self.errors[0]
        ctx.step(len(t['ops']), 'final')
        for d in self.fds: d.done()
        final = [(self.key(x)) for x in self.shared]
        self.hist.append((len(self.hist), 1 << 60, (1 << 60) + 1, ('final', 0, 0, 0), final, t['nt']))
        for h in self.hist:
            ctx.rec(h[1], h[2], h[3], canon(h[4]))
        if len(self.hist) > 5:
            ctx.nontrivial = True
        ctx.stats['history_ops'] += len(self.hist)
        ctx.sample = {'init': t['init'], 'cfg': t['cfg'], 'threads': t['nt'], 'first_ops': t['ops'][:4]}
        self.check()

    fds = ()

    def prepare(self, o, helpers):
        t, name, a, b, c = o
        L = self.sim.L
        if name in ('dump', 'load', 'pdump', 'pload'):
            i = next(self.fid)
            if i >= 20 or len(helpers) > 6: return None
            L.sim_file_reset(i)
            f = SimIO(self.sim, i)
            self.fds = tuple(self.fds) + (f,)
            if c % 3: L.sim_file_chunk(i, [1, 3, 7, 40][c % 4])
            text = self.texts[a % len(self.texts)]
            if name == 'load':
                self.sim.file_put(i, text[0].encode())
            elif name == 'pdump':
                L.sim_file_pipe(i, 1 + c % 50)
                helpers.append(('drain', i))
            elif name == 'pload':
                L.sim_file_pipe(i, 1 + c % 50)
                helpers.append(('feed', i, text[0].encode()))
            return (name, a, b, c, i, f, text)
        return (name, a, b, c)

    def thread(self, k, plan, helper, lk):
        L = self.sim.L
        L.sim_pt_enter(k)
        try:
            if helper:
                self.helper(helper)
            else:
                if self.t['py'] > 0: sys.settrace(self.tracer)
                for p in plan:
                    self.one(k, p)
        except BaseException as e:
            self.errors.append(e if isinstance(e, Violation) else Violation('harness', repr(e)))
            e = None
        finally:
            sys.settrace(None)
            L.sim_pt_leave()
            lk.release()

    def helper(self, h):
        import ctypes
        if h[0] == 'drain':
            buf = ctypes.create_string_buffer(64)
            out = []
            while True:
                n = self.sim.L.sim_pipe_read(h[1], buf, 64)
                if n <= 0: break
                out.append(buf.raw[:n])
            self.left[h[1]] = b''.join(out)
        else:
            self.sim.L.sim_pipe_write(h[1], h[2], len(h[2]))
            self.sim.L.sim_file_wclose(h[1])

    # where CPython may hand over its lock: function entry, after a call, before a backward jump
    def points(self, code):
        p = self.offs.get(code)
        if p is None:
            p = set()
            after = False
            for ins in dis.get_instructions(code):
                if ins.opname == 'CACHE': continue
                if after: p.add(ins.offset)
                after = ins.opname.startswith('CALL')
                if ins.opname == 'JUMP_BACKWARD': p.add(ins.offset)
            self.offs[code] = p
        return p

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        frame.f_trace_lines = False
        frame.f_trace_opcodes = True
        self.maybe()
        pts = self.points(frame.f_code)

        def local(frame, event, arg):
            if event == 'opcode' and frame.f_lasti in pts:
                self.maybe()
            return local
        return local

    def maybe(self):
        if self.prng.random() < self.t['py']:
            self.sim.L.sim_pt_yield()

    # ------------------------------------------------------------------ one call
    def key(self, o):
        return frozenset(self.ad.key(x) for x in o)

    def an_elem(self, r):
        return self.elems[r % len(self.elems)]

    def a_set(self, r):
        q = random.Random(r)
        s = [e for e in self.elems if q.random() < 0.5]
        return s

    def one(self, k, p):
        name, a, b, c = p[:4]
        S, ad = self.shared, self.ad
        i, j = a % len(S), b % len(S)
        o = S[i]
        desc = (name, i, j, c)
        evalf = None
        m = ad.m
        if name in ('hase', 'adde', 'removee', 'discarde', 'flip', 'incl', 'excl'):
            e = self.an_elem(b)
            desc = (name, i, e, c)
            E = ad.elem(e, c)
        if name in ('has', 'add', 'remove', 'discard'):
            s = self.a_set(b)
            desc = (name, i, frozenset(s), c)
            A = ad.arg_set(frozenset(s), c)
        if name in ad.ops_missing or (name == 'flip' and 'flip' in ad.ops_missing): return
        if name == 'grow' and not self.fresh: return
        if name == 'hitting' and ad.name == 'EdgeVertexSetSet': return
        start = next(self.clock)
        fam = lambda r: ('fam', self.key(r))
        val = lambda r: ('val', r)
        try:
            if name == 'len': r, f = o.len(), val
            elif name == 'list': r, f = list(o), fam
            elif name == 'copy': r, f = o.copy(), fam
            elif name == 'rand': r, f = list(o.rand_iter()), fam
            elif name == 'minw': r, f = list(o.min_iter()), fam
            elif name == 'maxw': r, f = list(o.max_iter()), fam
            elif name == 'invert': r, f = ~o, fam
            elif name in ('minimal', 'maximal'): r, f = getattr(o, name)(), fam
            elif name == 'hitting': r, f = getattr(o, m[name])(), fam
            elif name == 'dumps': r, f = o.dumps(), lambda r: ('text', r)
            elif name == 'choice': r, f = o.choice(), lambda r: ('member', ad.key(r))
            elif name == 'bool': r, f = bool(o), val
            elif name == 'has': r, f = A in o, val
            elif name == 'hase': r, f = E in o, val
            elif name == 'repr': r, f = repr(o), lambda r: ('val', type(r).__name__)
            elif name == 'smaller': r, f = o.smaller(c % 5), fam
            elif name == 'larger': r, f = o.larger(c % 5), fam
            elif name == 'size': r, f = getattr(o, m['size'])(c % 5), fam
            elif name in ('rm_some', 'add_some', 'swap_some'): r, f = getattr(o, m[name])(), fam
            elif name in ('incl', 'excl'): r, f = getattr(o, m[name])(E), fam
            elif name == 'prob':
                pr = {e: 0.5 for e in ad.univ()}
                desc = (name, i, frozenset(pr), c)
                r, f = o.probability(pr), lambda r: ('prob', r)
            elif name == 'cost':
                cs = {e: 1 for e in ad.univ()}
                desc = (name, i, frozenset(cs), c)
                r, f = o.cost_le(cs, c % 5), fam
            elif name == 'search':
                r, f = (o.matchings() if ad.name == 'GraphSet' else o.copy()), fam
            elif name == 'bin':
                n = sorted(BIN)[c % len(BIN)]
                r, f = getattr(o, m.get(n, METH.get(n, n)))(S[j]), fam
            elif name == 'ibin':
                n = sorted(INP)[c % len(INP)]
                if (c >> 8) % 2:
                    r, f = getattr(o, INP[n])(S[j]), lambda r: ('val', None)
                else:
                    r, f = IOP[n](o, S[j]), lambda r: ('val', None)
            elif name == 'cmp': r, f = CMP[sorted(CMP)[c % 6]](o, S[j]), val
            elif name == 'disjoint': r, f = o.isdisjoint(S[j]), val
            elif name == 'add': r, f = o.add(A), val
            elif name == 'remove': r, f = o.remove(A), val
            elif name == 'discard': r, f = o.discard(A), val
            elif name == 'adde': r, f = o.add(E), val
            elif name == 'removee': r, f = o.remove(E), val
            elif name == 'discarde': r, f = o.discard(E), val
            elif name == 'pop': r, f = o.pop(), lambda r: ('member', ad.key(r))
            elif name == 'clear': r, f = o.clear(), val
            elif name == 'flip': r, f = o.flip(E), val
            elif name == 'grow':
                e = self.fresh[b % len(self.fresh)]
                desc = (name, i, e, c)
                r, f = ad.C([{e}]), fam
            elif name in ('dump', 'pdump'): r, f = o.dump(p[5]), lambda r: ('file', p[4])
            elif name in ('load', 'pload'):
                desc = (name, i, p[6][1], c)
                r, f = ad.C.load(p[5]), fam
            elif name == 'loadstr':
                T = self.texts[b % 2]
                desc = ('load', i, T[1], c)
                r, f = ad.C.loads(T[0]), fam
            else: raise Violation('harness', name)
        except Violation:
            raise
        except Exception as x:
            res = ('exc', type(x).__name__, str(x)[:200])
            f = None
            x = None
        end = next(self.clock)
        self.ctx.stats['op:' + name] += 1
        if name == 'pdump': self.sim.L.sim_file_wclose(p[4])
        if f: res = f(r)
        r = None
        self.hist.append((len(self.hist), start, end, desc, res, k))

    # ------------------------------------------------------------------ the oracle
    def allowed(self, st, desc, res, univ=None):
        """state after the call if the result fits, else None"""
        name, i, j, c = desc
        u, S = st[0] if univ is None else univ, st[1:]
        if name == 'final':
            return st if list(S) == list(res) else None
        m = S[i]
        put = lambda x: st[:i + 1] + (x,) + st[i + 2:]
        ok = lambda r: st if res == r else None
        fam = lambda x: st if res == ('fam', x) else None
        none = ('val', None)
        if name == 'len': return ok(('val', len(m)))
        if name in ('list', 'copy', 'rand', 'minw', 'maxw'): return fam(m)
        if name == 'invert': return fam(M.invert(m, u))
        if name == 'minimal': return fam(M.minimal(m))
        if name == 'maximal': return fam(M.maximal(m))
        if name == 'hitting': return fam(M.hitting(m, u)) if m else st
        if name == 'dumps': return st if res[0] == 'text' and self.decode(res[1]) == m else None
        if name in ('dump', 'pdump'): return st if res[0] == 'file' and self.decode(self.bytes(name, res[1])) == m else None
        if name == 'choice':
            if not m: return st if res[:2] == ('exc', 'KeyError') else None
            return st if res[0] == 'member' and res[1] in m else None
        if name == 'pop':
            if not m: return st if res[:2] == ('exc', 'KeyError') else None
            return put(m - {res[1]}) if res[0] == 'member' and res[1] in m else None
        if name == 'bool': return ok(('val', bool(m)))
        if name == 'has': return ok(('val', j in m))
        if name == 'hase': return ok(('val', any(j in s for s in m)))
        if name == 'repr': return ok(('val', 'str'))
        if name == 'smaller': return fam(M.smaller(m, c % 5))
        if name == 'larger': return fam(M.larger(m, c % 5))
        if name == 'size': return fam(M.sized(m, c % 5))
        if name == 'rm_some': return fam(M.rm_some(m))
        if name == 'add_some': return fam(M.add_some(m, u))
        if name == 'swap_some': return fam(M.swap_some(m, u))
        if name == 'incl': return fam(M.including(m, j))
        if name == 'excl': return fam(M.excluding(m, j))
        if name in ('prob', 'cost') and res[0] == 'exc':
            return st if j != u and res[1] in ('AssertionError', 'RuntimeError') else None
        if name == 'prob':
            return st if res[0] == 'prob' and abs(res[1] - len(m) * 0.5 ** len(j)) < 1e-9 else None
        if name == 'cost': return fam(M.F(s for s in m if len(s) <= c % 5))
        if name == 'search': return fam(M.F(s for s in m if is_matching(s)) if self.ad.name == 'GraphSet' else m)
        if name in ('bin', 'ibin'):
            n = sorted(BIN if name == 'bin' else INP)[c % len(BIN if name == 'bin' else INP)]
            g = S[j]
            if n in ('quotient', 'remainder') and not g:
                return st if res[:2] == ('exc', 'ZeroDivisionError') else None
            x = BIN[n](m, g)
            if name == 'bin': return fam(x)
            return put(x) if res == none else None
        if name == 'cmp': return ok(('val', SET_CMP[sorted(CMP)[c % 6]](m, S[j])))
        if name == 'disjoint': return ok(('val', not (m & S[j])))
        if name == 'add': return put(m | {j}) if res == none else None
        if name == 'discard': return put(m - {j}) if res == none else None
        if name == 'remove':
            if j not in m: return st if res[:2] == ('exc', 'KeyError') else None
            return put(m - {j}) if res == none else None
        if name == 'adde': return put(M.add_elem(m, j)) if res == none else None
        if name == 'discarde': return put(M.remove_elem(m, j)) if res == none else None
        if name == 'removee':
            if not any(j in s for s in m): return st if res[:2] == ('exc', 'KeyError') else None
            return put(M.remove_elem(m, j)) if res == none else None
        if name == 'clear': return put(frozenset()) if res == none else None
        if name == 'flip': return put(M.flip(m, j)) if res == none else None
        if name == 'grow': return (u | {j},) + S if res == ('fam', frozenset([frozenset([j])])) else None
        if name == 'load': return fam(j)
        if name == 'pload': return fam(j)
        raise Violation('harness', name)

    # such a call uses the universe as of some moment while it runs, not necessarily the one of its effect
    UNIV = ('invert', 'hitting', 'add_some', 'swap_some', 'prob', 'cost')

    def univs(self, h, st):
        yield None
        if h[3][0] not in self.UNIV: return
        sure = set(self.state0[0])
        may = set()
        for g in self.hist:
            if g[3][0] == 'grow':
                if g[2] < h[1]: sure.add(g[3][2])
                elif g[1] < h[2]: may.add(g[3][2])
        may -= sure
        for k in range(len(may) + 1):
            for x in itertools.combinations(sorted(may, key=repr), k):
                yield frozenset(sure | set(x))

    def bytes(self, name, i):
        return (self.left[i] if name == 'pdump' else self.sim.file_bytes(i)).decode()

    def decode(self, txt):
        x = self.cache.get(txt)
        if x is None:
            try:
                x = self.key(self.ad.C.loads(txt))
            except Exception as e:
                x = 'undecodable: %r' % e
            self.cache[txt] = x
        return x

    def check(self):
        self.cache = {}
        H = sorted(self.hist, key=lambda h: h[1])
        th = {}
        for h in H: th.setdefault(h[5], []).append(h)
        seqs = list(th.values())
        seen = set()
        best = [0, None]
        stack = [((0,) * len(seqs), self.state0)]
        n = 0
        while stack:
            pos, st = stack.pop()
            if (pos, st) in seen: continue
            seen.add((pos, st))
            n += 1
            if n > 60000:
                self.ctx.stats['history_undecided'] += 1
                return
            nxt = [(k, seqs[k][p]) for k, p in enumerate(pos) if p < len(seqs[k])]
            if not nxt:
                self.ctx.stats['linearized'] += 1
                self.ctx.state(hash(st))
                return
            minend = min(h[2] for _, h in nxt)
            if sum(pos) >= best[0]: best = [sum(pos), (st, [h for _, h in nxt])]
            for k, h in nxt:
                if h[1] > minend: continue
                s2 = None
                for un in self.univs(h, st):
                    s2 = self.allowed(st, h[3], h[4], un)
                    if s2 is not None: break
                if s2 is not None:
                    stack.append((pos[:k] + (pos[k] + 1,) + pos[k + 1:], s2))
        st, nxt = best[1]
        raise Violation('linearizability:' + nxt[0][3][0], 'no sequential order explains the results; at the furthest point, families %s; next calls %s' % (
            canon(st)[:1200], [(h[3][0], canon(h[3][1:])[:200], canon(h[4])[:400]) for h in nxt]))
