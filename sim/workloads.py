"""Property -> workload (imported inside lanes)."""
from machine import MachineWorkload
from bigwl import BigWorkload, CHANGE, ITER, WEIGHT, RECONF
from iowl import IOWorkload
from convwl import ConvWorkload
from leakwl import LeakWorkload
from threadwl import ThreadWorkload
from mpwl import MPWorkload
from permwl import PermWorkload
from widewl import WideWorkload
from longwl import LongWorkload
from univwl import UnivWorkload
from graphwl import GraphWorkload, UND, STR, PAR, DIR


def get(prop):
    return REG[prop]()


class Mix:
    """one of several workloads per run, chosen by the run's seed"""

    def __init__(self, *parts):
        self.parts = parts

    def gen(self, rng, tier, idx):
        k = rng.choices(range(len(self.parts)), [w for w, _ in self.parts])[0]
        t = self.parts[k][1].gen(rng, tier, idx)
        t['part'] = k
        return t

    def run(self, t, ctx):
        ctx.stats['part:%d' % t['part']] += 1
        self.parts[t['part']][1].run(t, ctx)


FOUR = ['setset'] * 5 + ['GraphSet'] * 3 + ['DiGraphSet', 'VertexSetSet', 'VertexSetSet']
heavy_gc = lambda rng: rng.choice(['hook', 'hook', 'hook', 'small'])

REG = {
    'C01': lambda: Mix((6, MachineWorkload(weights={'bad': 0})), (0.06, BigWorkload(refs=0.02))),
    'C02': lambda: Mix(
        (5, MachineWorkload(weights={'bad': 0, 'upd': 6, 'elem': 6, 'sets': 6, 'iter': 4, 'weight': 3, 'io': 1.5, 'reconf': 2},
                            check=(1.0,))),
        (1, GraphWorkload(UND + STR + PAR, directed=0.15, aux=0.6, nops=(4, 12))),
        (0.08, BigWorkload(refs=0.02, ops=CHANGE))),
    'C03': lambda: Mix(
        (5, MachineWorkload(weights={'bad': 0, 'mem': 8, 'memo': 5, 'weight': 3, 'reconf': 3, 'make': 7, 'sets': 1.5, 'cmp': 0.5},
                            mem=heavy_gc, check=(1.0, 0.3))),
        (2, GraphWorkload(UND + STR + PAR, directed=0.2, aux=0.4, mem=1.0, nops=(3, 9))),
        (0.3, BigWorkload()), (0.5, BigWorkload(deny=0.8))),
    'C04': lambda: Mix(
        (4, MachineWorkload(weights={'bad': 0, 'make': 7, 'grow': 1}, oom=0.3,
                            mem=lambda rng: rng.choice(['none', 'hook', 'small', 'tiny', 'tiny']), check=(0.3, 0.0))),
        (3, GraphWorkload(UND + STR + PAR, directed=0.3, oom=0.6)),
        (0.25, BigWorkload(oom=0.35, deny=0.5))),
    'C05': lambda: IOWorkload(weights={'bad': 0, 'iof': 12, 'io': 2, 'make': 7, 'grow': 1.5, 'cmp': 0.3, 'weight': 0.5},
                              check=(0.3, 0.0)),
    'C06': lambda: IOWorkload(weights={'bad': 0, 'dam': 14, 'iof': 1, 'make': 7, 'grow': 1.5, 'cmp': 0.3, 'weight': 0.5},
                              check=(0.0,)),
    'C07': lambda: Mix((6, MachineWorkload(weights={'bad': 0, 'iter': 14, 'weight': 3, 'mem': 6, 'upd': 5, 'sets': 5, 'elem': 4, 'bin': 3,
                                            'cmp': 0, 'size': 0.5, 'grow': 1.5}, check=(0.3, 0.0))),
        (0.08, BigWorkload(refs=0.02, ops=ITER))),
    'C08': lambda: Mix((6, MachineWorkload(weights={'bad': 0, 'weight': 16, 'make': 7, 'cmp': 0, 'repr': 0}, check=(0.2, 0.0))),
        (0.6, UnivWorkload(more=['weigh', 'iter_w'])), (0.1, BigWorkload(refs=0, ops=WEIGHT))),
    'C09': lambda: Mix((4, GraphWorkload(UND)), (1, WideWorkload(UND, 'und')), (0.12, LongWorkload(UND, 'und'))),
    'C10': lambda: Mix((5, GraphWorkload(DIR, directed=1.0)), (1, WideWorkload(DIR, 'dir')), (0.25, LongWorkload(DIR, 'dir'))),
    'C11': lambda: Mix((5, GraphWorkload(STR, dense=0.75)), (1, WideWorkload(STR, 'str')), (0.25, LongWorkload(STR, 'str'))),
    'C12': lambda: Mix((5, GraphWorkload(PAR, dense=0.4)), (1, WideWorkload(PAR, 'par')), (0.25, LongWorkload(PAR, 'par'))),
    'C15': lambda: Mix(
        (3, MachineWorkload(weights={'bad': 0, 'grow': 9, 'un': 5, 'iter': 4, 'io': 3, 'weight': 3, 'reconf': 3},
                            classes=['setset'], check=(1.0, 0.3))),
        (3, GraphWorkload(UND + STR + PAR, directed=0.3, nworlds=(2, 3, 4), aux=0.45, nops=(4, 14), maxm=7)),
        (2.5, UnivWorkload())),
    'C17': lambda: Mix(
        (6, MachineWorkload(weights={'bad': 22, 'upd': 4, 'iter': 4, 'weight': 2},
                            classes=['setset'] * 4 + ['GraphSet'] * 5 + ['DiGraphSet'] * 2 + ['VertexSetSet'] * 2 + ['EdgeVertexSetSet'],
                            check=(0.2, 0.0))),
        (1, UnivWorkload(more=['bad']))),
    'C18': lambda: Mix(
        (4, ConvWorkload()),
        (1.5, UnivWorkload(more=['conv', 'vset'])),
        (1, MachineWorkload(weights={'bad': 0}, classes=['VertexSetSet', 'EdgeVertexSetSet', 'EdgeVertexSetSet'], check=(0.3, 0.0)))),
    'C19': lambda: LeakWorkload(
        (3, MachineWorkload(weights={'bad': 4, 'iter': 4, 'weight': 4, 'io': 1.5, 'reconf': 3, 'un': 4}, check=(0.2, 0.0))),
        (3, MachineWorkload(weights={'bad': 25, 'iter': 4, 'weight': 4}, check=(0.0,),
                            classes=['setset'] * 4 + ['GraphSet'] * 5 + ['DiGraphSet'] * 2 + ['VertexSetSet'] * 2 + ['EdgeVertexSetSet'])),
        (3, GraphWorkload(UND + STR + PAR, directed=0.25, aux=0.2, nops=(1, 5))),
        (1, ConvWorkload()),
        (0.7, UnivWorkload(more=['bad'])),
        (1, IOWorkload(weights={'bad': 0, 'iof': 10, 'io': 3, 'dam': 6, 'make': 7, 'grow': 1.5, 'cmp': 0.3, 'weight': 0.5}, check=(0.0,)))),
    'C13': lambda: MPWorkload(),
    'C14': lambda: ThreadWorkload(),
    'C20': lambda: PermWorkload(),
    'C16': lambda: Mix((6, MachineWorkload(weights={'bad': 0, 'reconf': 14, 'make': 7, 'grow': 3, 'mem': 5, 'un': 1, 'cmp': 0.5},
                                   classes=FOUR, check=(0.3, 0.0))),
        (0.1, BigWorkload(refs=0, ops=RECONF))),
}

REG['DEV_univ'] = lambda: UnivWorkload()
# parts on their own, for development: DEV_<kind>_<part>
for _k, _n in (('und', UND), ('str', STR), ('par', PAR), ('dir', DIR)):
    REG['DEV_%s_wide' % _k] = lambda n=_n, k=_k: WideWorkload(n, k)
    REG['DEV_%s_long' % _k] = lambda n=_n, k=_k: LongWorkload(n, k)
for _k, _n in (('all', None), ('change', CHANGE), ('iter', ITER), ('weight', WEIGHT), ('reconf', RECONF)):
    REG['DEV_big_' + _k] = lambda n=_n: BigWorkload(**({'ops': n} if n else {}))
