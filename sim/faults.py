"""Faults armed for one operation and disarmed before anything is verified."""
import math

FAILS = ('malloc_fail', 'new_fail', 'table_denied', 'io_fault')


def gen_fault(rng, table=True):
    k = rng.random()
    at = lambda hi: int(math.exp(rng.uniform(0, math.log(hi))))
    if k < 0.45:
        return ['new', at(600)]
    if k < 0.55:
        return ['newp', rng.choice([5, 30, 200])]
    if k < 0.70:
        return ['malloc', at(30)]
    return ['deny', rng.choice([2000, 6000, 20000]), rng.choice([1000, 1000, 700, 400])]


class Faults:
    def __init__(self, ctx):
        self.ctx, self.sim = ctx, ctx.sim
        self.on = False
        self.seen = 0

    def fired(self):
        return sum(self.sim.counter(c) for c in FAILS)

    def arm(self, f):
        s = self.sim
        self.before = self.fired()
        self.ctx.may_die(True)
        self.on = True
        if f[0] == 'new': s.set('NEW_FAIL_AT', f[1])
        elif f[0] == 'newp': s.set('NEW_FAIL_PERMILLE', f[1])
        elif f[0] == 'malloc': s.set('MALLOC_FAIL_AT', f[1])
        elif f[0] == 'deny':
            s.set('DENY_BIG', f[1])
            s.set('DENY_PERMILLE', f[2])
        s.arm(1)

    def disarm(self):
        if not self.on:
            return
        s = self.sim
        s.arm(0)
        for k in ('NEW_FAIL_AT', 'NEW_FAIL_PERMILLE', 'MALLOC_FAIL_AT', 'DENY_BIG', 'DENY_PERMILLE'):
            s.set(k, 0)
        self.on = False
        self.ctx.may_die(False)
        if self.fired() > self.before:
            self.seen += 1
            self.ctx.stats['ops_with_fault'] += 1

    def hit(self):
        """did a fault fire in the operation armed last?"""
        return self.fired() > self.before
