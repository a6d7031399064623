"""Dumps to and loads from a simulated storage device: short and interrupted transfers, errors at any byte, a crash
that leaves any prefix, damaged bytes; loads happen later in the history or in a fresh process."""
import errno
import io
import os
import pickle
import random
import signal
import struct
import sys
from itertools import islice
from core import Violation, canon
from machine import Machine, MachineWorkload, ADS, GROUPS
import machine

GROUPS.setdefault('iof', ['dumpf', 'dumpf', 'loadf', 'loadf', 'freshload'])
GROUPS.setdefault('many', ['new_many'])
GROUPS.setdefault('dam', ['trunc', 'trunc', 'rderr', 'corrupt', 'corrupt', 'crash'])
NF = 6
HARD = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG, errno.EPIPE]


class SimIO(io.RawIOBase):
    """a file object on a simulated device"""

    def __init__(self, sim, fid):
        self.sim, self.fid = sim, fid
        self.fd = os.open('/dev/null', os.O_RDWR)
        sim.L.sim_file_bind(self.fd, fid)

    def fileno(self): return self.fd
    def readable(self): return True
    def writable(self): return True

    def write(self, b):
        if isinstance(b, str): b = b.encode()
        if self.sim.L.sim_pipe_write(self.fid, bytes(b), len(b)) < 0:
            raise OSError(errno.EIO, 'write')
        return len(b)

    def readinto(self, b):
        import ctypes
        t = ctypes.create_string_buffer(len(b))
        n = self.sim.L.sim_pipe_read(self.fid, t, len(b))
        if n < 0: raise OSError(errno.EIO, 'read')
        b[:n] = t.raw[:n]
        return n

    def done(self):
        """the descriptor must still be the caller's"""
        try:
            os.fstat(self.fd)
        except OSError:
            raise Violation('io:descriptor', 'the caller\'s file descriptor was closed')
        self.sim.L.sim_file_unbind(self.fd)
        os.close(self.fd)


def nfds():
    return len(os.listdir('/proc/self/fd'))


# ---------------------------------------------------------------- fresh processes
class Zygote:
    """forked before the run touches the library; forks one process per request"""

    def __init__(self, sim):
        self.sim = sim
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            self.serve(r1, w2)
        os.close(r1)
        os.close(w2)
        self.w, self.r, self.pid = w1, r2, pid

    def serve(self, r, w):
        try:
            while True:
                q = rd(r)
                if q is None: os._exit(0)
                a, b = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        ans = self.handle(q)
                    except BaseException as e:
                        ans = ('harness', repr(e))
                    wr(b, ans)
                    os._exit(0)
                os.close(b)
                ans = rd(a)
                os.close(a)
                st = os.waitpid(pid, 0)[1]
                if ans is None:
                    ans = ('died', os.WTERMSIG(st) if os.WIFSIGNALED(st) else -os.WEXITSTATUS(st))
                wr(w, ans)
        except BaseException:
            pass
        os._exit(1)

    def handle(self, q):
        sim = self.sim
        ad = ADS[q['init']['cls']]()
        ad.setup(q['init'])
        if q['univ'] is not None:
            if ad.name == 'setset':
                ad.C.set_universe(q['univ'])
            elif ad.name in ('GraphSet', 'DiGraphSet'):
                ad.restore(q['univ'])
        ad.elems = ad.univ()
        live = []
        for f in q['live']:
            live.append((ad.new(f), frozenset(f)))
        out = []
        sim.L.sim_file_reset(0)
        sim.file_put(0, q['data'])
        if q['chunk']: sim.L.sim_file_chunk(0, q['chunk'])
        for at, e in q['faults']: sim.L.sim_file_rfault(0, at, e)
        fp = SimIO(sim, 0)
        for _ in range(q['n']):
            try:
                o = ad.C.loads(q['data'].decode()) if q['str'] else ad.C.load(fp)
            except Exception as e:
                out.append(('exc', type(e).__name__))
                break
            out.append(use(ad, o) if q['use'] else ('fam', frozenset(ad.key(x) for x in islice(iter(o), 5000)), o.len()))
        for o, m in live:
            if frozenset(ad.key(x) for x in o) != m:
                return ('live', canon(m))
        return ('ok', out)

    def ask(self, **q):
        wr(self.w, q)
        ans = rd(self.r)
        if ans is None:
            raise Violation('harness', 'fresh process server gone')
        if ans[0] == 'harness':
            raise RuntimeError('fresh process: ' + ans[1])
        if ans[0] == 'died':
            raise Violation('io:died', 'a fresh process loading the dump was terminated: %r' % (ans[1],))
        if ans[0] == 'live':
            raise Violation('io:live', 'a live family changed while a dump was loaded: ' + ans[1])
        return ans[1]

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


def wr(fd, x):
    b = pickle.dumps(x)
    b = struct.pack('<I', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def rd(fd):
    h = b''
    while len(h) < 4:
        x = os.read(fd, 4 - len(h))
        if not x: return None
        h += x
    n = struct.unpack('<I', h)[0]
    b = b''
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x: return None
        b += x
    return pickle.loads(b)


def use(ad, o):
    """a family read from a damaged dump may be anything, but it must be safe to use"""
    try:
        o.len()
        list(islice(iter(o), 20))
        o.copy() | o
        o & ad.new([])
        o.dumps()
        bool(o)
    except Violation:
        pass
    except (SystemError, AssertionError):
        raise
    except Exception as e:
        return ('used', type(e).__name__)
    return ('used', '')


# ---------------------------------------------------------------- the machine
class IOMachine(Machine):
    def __init__(self, ctx, init, *a):
        self.sim = ctx.sim
        self.zy = Zygote(ctx.sim)
        for i in range(NF): ctx.sim.L.sim_file_reset(i)
        self.init = init
        Machine.__init__(self, ctx, init, *a)
        self.files = [[] for _ in range(NF)]
        self.bad = [False] * NF
        self.junk = []        # families read from corrupt dumps, kept alive

    def close(self):
        self.zy.close()

    def transient(self, q, size, fid, wr):
        """short and interrupted transfers"""
        L = self.sim.L
        n = 0
        if q.random() < 0.6:
            L.sim_file_chunk(fid, q.choice([1, 2, 3, 7, 16, 100, 1000]))
            n += 1
        if q.random() < 0.6:
            for _ in range(q.randint(1, 4)):
                at = q.randrange(size + 2)
                (L.sim_file_wfault if wr else L.sim_file_rfault)(fid, at, errno.EINTR)
                n += 1
        return n

    def o_dumpf(self, a, b, c, d, e):
        L = self.sim.L
        o, m = self.pick(a)
        fid = b % NF
        q = random.Random(c)
        if self.bad[fid] or q.random() < 0.4 or len(self.files[fid]) > 5:
            L.sim_file_reset(fid)
            self.files[fid] = []
            self.bad[fid] = False
        old = self.sim.file_bytes(fid)
        L.sim_file_reset(fid)
        self.sim.file_put(fid, old)
        size = len(o.dumps()) if q.random() < 0.8 else 30
        hard = False
        k = q.random()
        if k < 0.2:
            pass
        elif k < 0.65:
            # offsets count from the start of the file
            if q.random() < 0.6: L.sim_file_chunk(fid, q.choice([1, 2, 3, 7, 16, 100, 1000]))
            for _ in range(q.choice([0, 1, 1, 2, 4])):
                L.sim_file_wfault(fid, len(old) + q.randrange(size + 2), errno.EINTR)
        else:
            hard = True
            if q.random() < 0.3: L.sim_file_chunk(fid, q.choice([1, 5, 40]))
            er = q.choice(HARD)
            L.sim_file_wfault(fid, len(old) + q.randrange(size + 8), er if q.random() < 0.4 else -er)
        fp = SimIO(self.sim, fid)
        n0 = nfds()
        f0 = self.sim.counter('io_fault')
        exc = None
        try:
            r = o.dump(fp)
        except OSError as x:
            exc = x
        fired = self.sim.counter('io_fault') - f0
        self.ctx.stats['dump_' + ('failed' if exc else 'ok')] += 1
        if nfds() != n0:
            raise Violation('io:fdleak', 'dump left a descriptor open (%s)' % exc)
        if not hard and exc is not None:
            raise Violation('io:transient', 'short or interrupted writes made dump fail: %r' % (exc,))
        if hard and fired and exc is None:
            raise Violation('io:silent', 'a write failed for good, but dump returned')
        if hard and not fired and exc is not None:
            raise Violation('io:spurious', 'dump failed without a fault: %r' % (exc,))
        fp.done()
        # whatever comes next works again
        data = self.sim.file_bytes(fid)
        L.sim_file_reset(fid)
        if exc is None:
            self.sim.file_put(fid, data)
            self.files[fid].append(m)
            if len(self.files[fid]) == 1 or q.random() < 0.5:
                self.load_file(fid, q, False)
        else:
            if data[:len(old)] != old:
                raise Violation('io:clobbered', 'a failed dump changed what was in the file before')
            if q.random() < 0.5 and old:
                self.sim.file_put(fid, old)       # the caller truncates and tries again
            else:
                self.files[fid] = []
                self.sim.file_put(fid, b'')
            if self.members(o) != m:
                raise Violation('isolation:dump', 'a failed dump changed the family')

    def load_file(self, fid, q, faults):
        L = self.sim.L
        data = self.sim.file_bytes(fid)
        L.sim_file_reset(fid)
        self.sim.file_put(fid, data)
        if faults:
            self.transient(q, len(data), fid, False)
        fp = SimIO(self.sim, fid)
        n0 = nfds()
        n = q.randint(1, len(self.files[fid]))
        for m in self.files[fid][:n]:
            try:
                o = self.ad.C.load(fp)
            except OSError as x:
                raise Violation('io:load', 'loading a complete dump failed: %r' % (x,))
            except ValueError as x:
                raise Violation('io:incomplete', 'dump returned, but what it wrote cannot be loaded: %r' % (x,))
            self.verify(o, m, 'load')
            self.push(o, m)
        if nfds() != n0:
            raise Violation('io:fdleak', 'load left a descriptor open')
        fp.done()
        L.sim_file_reset(fid)
        self.sim.file_put(fid, data)
        self.ctx.stats['loads'] += n

    def filled(self, r):
        c = [i for i in range(NF) if self.files[i]]
        return c[r % len(c)] if c else None

    def o_loadf(self, a, b, *x):
        fid = self.filled(a)
        if fid is not None:
            self.load_file(fid, random.Random(b), True)

    def ask(self, data, n, q, faults=(), chunk=0, str_=False, use=False):
        u = self.u() if self.ad.name in ('setset', 'GraphSet', 'DiGraphSet') else None
        live = [[list(s) for s in m] for _, m in self.pool[:2]] if self.ad.name != 'EdgeVertexSetSet' else []
        live = [[frozenset(s) for s in f] for f in live]
        return self.zy.ask(init=self.init, univ=u, data=data, n=n, faults=list(faults), chunk=chunk, str=str_, use=use, live=live)

    def o_freshload(self, a, b, *x):
        """a restart: only the file survives"""
        fid = self.filled(a)
        if fid is None: return
        q = random.Random(b)
        data = self.sim.file_bytes(fid)
        n = len(self.files[fid])
        fl = [(q.randrange(len(data)), errno.EINTR) for _ in range(q.choice([0, 0, 1, 3]))]
        ans = self.ask(data, n, q, fl, q.choice([0, 0, 1, 5, 100]))
        self.ctx.stats['fresh_loads'] += n
        for i, m in enumerate(self.files[fid]):
            if i >= len(ans) or ans[i][0] != 'fam':
                raise Violation('io:fresh', 'dump %d of %d cannot be loaded in a fresh process: %r' % (i, n, ans[-1]))
            if ans[i][1] != m or ans[i][2] != len(m):
                raise Violation('io:fresh', 'a fresh process loads %s instead of %s' % (canon(ans[i][1])[:500], canon(m)[:500]))

    def o_new_many(self, a, *x):
        q = random.Random(a)
        wide = len(self.ad.elems) > 100
        p = q.choice([0.01, 0.03, 0.1] if wide else [0.2, 0.5, 0.5, 0.8])
        sets = [frozenset(e for e in self.ad.elems if q.random() < p) for _ in range(q.randint(3, 60) if wide else q.randint(30, 280))]
        self.push(self.ad.new(sets), frozenset(sets))

    # -- damage
    def text(self, o):
        return o.dumps()

    def outcome(self, data, m, q, what, faults=(), exact=True):
        """load damaged data: an exception or (if exact) the family that was dumped"""
        self.ctx.stats['dam:' + what] += 1
        where = q.random()
        try:
            txt = data.decode()
        except UnicodeDecodeError:
            txt = None
        if where < 0.25:
            st = txt is not None and not faults and q.random() < 0.5
            ans = self.ask(data, 1, q, faults, q.choice([0, 0, 1, 5]), st, not exact)[0]
            if ans[0] == 'exc':
                self.ctx.stats['dam_raised'] += 1
            elif exact and (ans[1] != m or ans[2] != len(m)):
                raise Violation('io:wrong', '%s: a fresh process loads %s instead of %s' % (what, canon(ans[1])[:500], canon(m)[:500]))
            return
        n0 = nfds()
        o = None
        try:
            if where < 0.6 and txt is not None and not faults:
                o = self.ad.C.loads(txt)
            else:
                L = self.sim.L
                L.sim_file_reset(NF)
                self.sim.file_put(NF, data)
                if q.random() < 0.4: L.sim_file_chunk(NF, q.choice([1, 5, 30]))
                for at, er in faults: L.sim_file_rfault(NF, at, er)
                fp = SimIO(self.sim, NF)
                n0 = nfds()
                try:
                    o = self.ad.C.load(fp)
                finally:
                    if nfds() != n0:
                        raise Violation('io:fdleak', 'a failed load left a descriptor open')
                    fp.done()
        except Violation:
            raise
        except SystemError as x:
            raise Violation('io:SystemError', repr(x))
        except Exception as x:
            self.ctx.stats['dam_raised'] += 1
            self.ctx.dig.update(type(x).__name__.encode())
        if o is not None:
            self.ctx.stats['dam_loaded'] += 1
            if exact:
                self.verify(o, m, 'damaged')
            else:
                use(self.ad, o)
                if q.random() < 0.3: self.junk = (self.junk + [o])[-3:]
        o = None
        self.verify_all('load of a damaged dump')

    def o_trunc(self, a, b, *x):
        o, m = self.pick(a)
        q = random.Random(b)
        t = self.text(o).encode()
        if q.random() < 0.3:
            # the beginning was lost, perhaps of a dump of few nodes
            if q.random() < 0.6 and self.ad.elems and self.ad.name != 'EdgeVertexSetSet':
                e = q.sample(list(self.ad.elems), min(len(self.ad.elems), q.choice([1, 1, 2, 3])))
                m = frozenset([frozenset(e)] + ([frozenset()] if q.random() < 0.3 else []))
                o = self.ad.new(list(m))
                t = self.text(o).encode()
            at = [i + 1 for i, ch in enumerate(t) if ch in (10, 32) and i + 1 < len(t)]
            k = q.choice(at) if at and q.random() < 0.8 else q.randrange(1, len(t))
            if t[k:].split() in ([b'T', b'.'], [b'B', b'.'], [b'T'], [b'B']):
                return  # that is a dump, too
            return self.outcome(t[k:], m, q, 'behead')
        # preferably near the ends of lines
        nl = [i for i, ch in enumerate(t) if ch in (10, 32)]
        k = q.choice(nl) + q.choice([-1, 0, 1]) if nl and q.random() < 0.5 else q.randrange(len(t))
        self.outcome(t[:max(0, min(k, len(t) - 1))], m, q, 'trunc')

    def o_rderr(self, a, b, *x):
        o, m = self.pick(a)
        q = random.Random(b)
        t = self.text(o).encode()
        e = q.choice([errno.EIO, errno.EIO, errno.ESTALE, errno.EINTR])
        f = [(q.randrange(len(t)), e if e == errno.EINTR or q.random() < 0.5 else -e)]
        if q.random() < 0.4: f.append((q.randrange(len(t)), errno.EINTR))
        self.outcome(t, m, q, 'rderr', f)

    def o_crash(self, a, b, *x):
        """the process dies while it dumps: a restarted one finds what had reached the device"""
        o, m = self.pick(a)
        q = random.Random(b)
        L = self.sim.L
        L.sim_file_reset(NF)
        size = len(self.text(o))
        L.sim_file_wfault(NF, q.randrange(size), -errno.EIO)
        if q.random() < 0.5: L.sim_file_chunk(NF, q.choice([1, 3, 10, 50]))
        fp = SimIO(self.sim, NF)
        try:
            o.dump(fp)
        except OSError:
            pass
        fp.done()
        data = self.sim.file_bytes(NF)
        self.outcome(data, m, q, 'crash')

    def o_corrupt(self, a, b, *x):
        o, m = self.pick(a)
        q = random.Random(b)
        t = bytearray(self.text(o).encode())
        for _ in range(q.choice([1, 1, 1, 2, 4, 10])):
            t = damage(t, q)
        self.outcome(bytes(t), m, q, 'corrupt', exact=False)


def number(q):
    k = q.random()
    if k < 0.6: return q.randint(0, 12)
    if k < 0.9: return q.choice([-1, 13, 20, 50, 99, 127, 128, 255, 256, 300, -2, -100])
    if k < 0.99: return q.choice([2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 10 ** 30, -2 ** 31, -2 ** 63])
    return q.choice([65535, 65536, 65534, 60000, 70000, 10 ** 6])


def damage(t, q):
    k = q.randrange(12)
    n = len(t)
    i = q.randrange(n + 1)
    s = bytes(t)
    if k == 0 and n:
        t = bytearray(t)
        t[i % n] ^= 1 << q.randrange(8)
        return t
    if k == 1 and n:
        return bytearray(s[:i] + s[min(n, i + q.randint(1, 5)):])
    if k == 10:
        # the start was lost
        return bytearray(s[i:] if q.random() < 0.6 or b' ' not in s else s[s.index(b' ', min(i, s.rindex(b' '))) + 1:])
    if k == 2:
        return bytearray(s[:i] + bytes(q.choice(b'0123456789 .\nTB-\0\xff') for _ in range(q.randint(1, 4))) + s[i:])
    lines = s.split(b'\n')
    j = q.randrange(len(lines))
    if k == 3:
        lines.insert(j, lines[q.randrange(len(lines))])
    elif k == 4:
        del lines[j]
    elif k == 5:
        h = q.randrange(len(lines))
        lines[j], lines[h] = lines[h], lines[j]
    elif k == 11:
        lines.insert(j, q.choice([b'B', b'T', b'.', b'T ', b'B T', b'T 3', b'B 3 T', b'. 1', b' ', b' T', b'\t']))
    elif k == 6:
        lines[j] = lines[j] + b' ' * q.choice([1, 10, 3000]) if q.random() < 0.5 else b'9' * q.choice([5, 30, 5000])
    else:
        w = lines[j].split(b' ')
        h = q.randrange(len(w))
        r = q.random()
        if r < 0.75: w[h] = str(number(q)).encode()
        elif r < 0.85: w[h] = q.choice([b'T', b'B', b'.', b'', b'x', b'0x10', b'+1', b'1.5', b'1e3'])
        elif r < 0.92 and len(w) > 1: del w[h]
        else:
            all_ = s.split()
            w[h] = q.choice(all_) if all_ else b'1'
        lines[j] = b' '.join(w)
    return bytearray(b'\n'.join(lines))


class IOWorkload(MachineWorkload):
    def gen(self, rng, tier, idx):
        if rng.random() > 0.2:
            return MachineWorkload.gen(self, rng, tier, idx)
        # dumps of many kilobytes
        w = {k: v for k, v in self.w.items() if k in ('iof', 'dam', 'mem', 'upd', 'io', 'iter')}
        n, cfg = rng.randint(12, 18), machine.gen_mem_cfg(rng)
        if rng.random() < 0.3:
            # dumps with many elements
            n, cfg = rng.choice([120, 130, 200, 260, 400]), rng.choice([{}, {'GC_PPM': 200}])
            w = {k: v for k, v in w.items() if k in ('iof', 'dam', 'iter')}
        else:
            w['upd'] = 2
        w['many'] = 4
        ops = machine.gen_ops(rng, rng.randint(6, 20), w)
        ops.insert(0, ['new_many'] + [rng.randrange(1 << 30) for _ in range(5)])
        return {'cfg': cfg, 'init': {'cls': 'setset', 'n': n, 'labels': rng.choice(['int1', 'str']), 'universe': True},
                'ops': ops, 'check': rng.choice(self.check), 'mseed': rng.randrange(1 << 30)}

    def run(self, t, ctx):
        m = IOMachine(ctx, t['init'], t['check'], t['mseed'])
        ctx.may_die(False)
        m.run(t['ops'])
        m.close()
        ctx.sample = {'init': t['init'], 'cfg': t['cfg'], 'first_ops': t['ops'][:4], 'n_ops': len(t['ops'])}
