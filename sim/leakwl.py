"""C19: the same history several times in one process; after each repetition everything the history made
is dropped, and node memory, interpreter objects, heap bytes and descriptors must not grow."""
import array, ctypes, gc, json, os, random, sys, copy
from core import Ctx, Violation, apply_cfg

MIN = 6
MORE = 26


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks',
                                               'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = Mallinfo


class LeakWorkload:
    def __init__(self, *parts):
        self.parts = parts

    def gen(self, rng, tier, idx):
        k = rng.choices(range(len(self.parts)), [w for w, _ in self.parts])[0]
        t = self.parts[k][1].gen(rng, tier, idx)
        t['part'] = k
        # how a repetition leaves: everything dropped at the end, or iterators abandoned first, ...
        t['reps'] = MIN
        return t

    def once(self, blob, ctx):
        t = json.loads(blob)
        apply_cfg(ctx.sim, t)
        random.seed(t['seed'])
        c = Ctx(ctx.sim, ctx.shm)
        err = None
        try:
            self.parts[t['part']][1].run(t, c)
        except Violation as v:
            err = v.kind
        except MemoryError:
            err = 'MemoryError'
        except Exception as e:
            err = type(e).__name__
        st = (dict(c.stats), set(c.states), c.nontrivial, c.sample, c.dig.hexdigest())
        del c, t
        return err, st

    def measure(self, sim):
        from graphillion import setset, GraphSet, DiGraphSet, VertexSetSet, EdgeVertexSetSet
        for c in (setset, GraphSet, DiGraphSet, VertexSetSet, EdgeVertexSetSet):
            try:
                c.set_universe([])      # a universe keeps its elements, which may hold on to anything
            except Exception:
                pass
        for _ in range(3):
            gc.collect()
        sys._clear_type_cache()
        sim.set('GC_PPM', 0)
        sim.gc()
        m = libc.mallinfo2()
        return [sim.used(), sys.getallocatedblocks(), m.uordblks + m.hblkhd, len(os.listdir('/proc/self/fd'))]

    def run(self, t, ctx):
        ctx.may_die(False)
        blob = json.dumps(t)
        names = ['internal nodes', 'interpreter objects', 'heap bytes', 'file descriptors']
        ser = [array.array('q', [0] * 4) for _ in range(MIN + MORE)]
        n = 0
        last = None
        base = self.measure(ctx.sim)[0]
        for rep in range(MIN + MORE):
            err, st = self.once(blob, ctx)
            if rep == 0:
                ctx.stats.update(st[0])
                ctx.states |= st[1]
                ctx.nontrivial = st[2]
                ctx.sample = st[3]
                ctx.rec(st[4], err)
                ctx.final_hash = ctx.sim.hash()
            del st
            if err:
                ctx.stats['inner_stopped'] += 1
                if err != last and last is not None and last != '':
                    return
            last = err
            err = None
            m = self.measure(ctx.sim)
            for i in range(4):
                ser[rep][i] = m[i]
            n = rep + 1
            if m[0] != base and last is None:
                raise Violation('leak:nodes', 'internal nodes in use after everything was dropped: %d, before the history: %d (repetition %d)' % (
                    m[0], base, rep))
            del m
            if n >= MIN and not any(self.grows(ser, 2, n, i) for i in range(4)):
                break
        ctx.step(len(t.get('ops', ())), 'final')
        ctx.stats['reps'] += n
        if os.environ.get('LEAK_DEBUG'):
            os.write(2, (repr(ser[:n]) + '\n').encode())
        for i in range(4):
            if n == MIN + MORE and self.grows(ser, 2, n, i):
                raise Violation('leak:' + names[i], '%s after each of %d repetitions of the history: %s' % (
                    names[i], n, [s[i] for s in ser[:n]]))
        ctx.rec([s[0] for s in ser[:MIN]])

    @staticmethod
    def grows(ser, a, b, i):
        return all(ser[k + 1][i] > ser[k][i] for k in range(a, b - 1))
