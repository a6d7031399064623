#!/opt/vp/venv/bin/python
"""check.py PROPERTY [--replay FILE] [--budget SECONDS] [--idx N]

Decides one property by seeded simulation.  exit 0 held, 1 violation, other: error."""
import argparse, collections, json, os, selectors, sys, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
import core
from core import H, LANES, Lane, VERIF


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def match_known(prop, res, trace):
    for k in known_findings():
        if k['property'] == prop and k['kind'] == res['viol'][0] and k.get('contains', '') in res['viol'][1]:
            return k
    return None


class Shrinker:
    """ddmin over ops, then knobs; every probe is a fresh fork of the same lane state."""

    def __init__(self, lane, trace, kind, deadline):
        self.lane, self.kind, self.deadline = lane, kind, deadline
        self.best = trace
        self.res = None
        self.probes = 0

    def bad(self, t):
        if time.time() > self.deadline:
            return False
        self.probes += 1
        r = self.lane.call({'t': 'trace', 'trace': t})
        if 'viol' in r and r['viol'][0] == self.kind:
            self.res = r  # of the trace that becomes the best one
            return True
        return False

    def ddmin(self, key):
        ops = list(self.best.get(key, []))
        n = 2
        while len(ops) >= 1 and time.time() < self.deadline:
            size = max(1, len(ops) // n)
            changed = False
            i = 0
            while i < len(ops):
                cand = ops[:i] + ops[i + size:]
                t = dict(self.best)
                t[key] = cand
                if self.bad(t):
                    ops = cand
                    self.best = t
                    changed = True
                else:
                    i += size
                if time.time() > self.deadline:
                    return
            if size == 1 and not changed:
                break
            if not changed:
                n = min(len(ops), n * 2) or 1

    def knobs(self):
        for k in list(self.best.get('cfg', {})):
            c = dict(self.best['cfg'])
            del c[k]
            t = dict(self.best)
            t['cfg'] = c
            if self.bad(t):
                self.best = t

    def run(self):
        self.knobs()
        self.ddmin('ops')
        for k in self.best:
            if isinstance(self.best[k], list) and k != 'ops' and k.startswith('l_'):
                self.ddmin(k)
        self.knobs()
        return self.best


def replay(prop, path):
    d = json.load(open(path))
    bdir = B.build()
    lane = Lane(bdir, prop, d['lane'], 0, hashseed=d['hashseed'])
    res = lane.call({'t': 'trace', 'trace': d['trace']})
    lane.close()
    if 'viol' in res:
        print('REPLAY %s: %s' % (res['viol'][0], res['viol'][1]))
        print('HASH', res['hash'])
        same = res['viol'][0] == d['kind'] and res['hash'] == d.get('hash', res['hash'])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if same else ' (differs from the recorded run)'))
        return 1
    print('REPLAY: no violation', res.get('hash'))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--idx', type=int)
    ap.add_argument('--survey', action='store_true', help='list distinct violations, do not stop')
    a = ap.parse_args()
    prop = a.prop
    if a.replay:
        sys.exit(replay(prop, a.replay))
    vseed = int(os.environ.get('VERIF_SEED', '1'))
    tier = 'thorough' if a.thorough else os.environ.get('VERIF_TIER', 'quick')
    import workloads_meta as M
    meta = M.META[prop]
    budget = a.budget or (meta.get('quick_s', 40) if tier == 'quick' else meta.get('thorough_s', 600))
    maxruns = a.runs or (10**9)
    print('check %s seed=%d tier=%s' % (prop, vseed, tier), flush=True)
    t_start = time.time()
    bdir = B.build()
    t_build = time.time() - t_start
    lanes = [Lane(bdir, prop, i, vseed) for i in range(LANES)]

    def job(idx, **kw):
        return dict(t='gen', idx=idx, seed=H(vseed, prop, idx), tier=tier, id=idx, **kw)

    if a.idx is not None:
        r = lanes[a.idx % LANES].call(job(a.idx, want=True))
        print(json.dumps(r, indent=1)[:20000])
        return 0
    sel = selectors.DefaultSelector()
    nxt = {l.lane: l.lane for l in lanes}
    runs = 0
    ctr, stats = collections.Counter(), collections.Counter()
    hashes, states, nontriv = set(), set(), set()
    samples = []
    recheck = {}
    det_n = det_bad = 0
    dts = 0.0
    t0 = time.time()
    survey = collections.OrderedDict()
    known = []
    unrepro = 0
    rc = nviol = 0

    def collect():
        """runs lanes until the budget is used or a violation candidate is found; returns the candidate"""
        nonlocal runs, dts, det_n, det_bad
        viol = None
        for l in lanes:
            sel.register(l.p.stdout, selectors.EVENT_READ, l)
            l.send(job(nxt[l.lane]))
            nxt[l.lane] += LANES
        active = len(lanes)
        while active:
            for ev, _ in sel.select(timeout=5):
                l = ev.data
                sent = l.busy
                r = l.recv()
                if 'harness' in r:
                    print('HARNESS ERROR idx=%s\n%s' % (r['id'], r['harness']))
                    print(json.dumps(r.get('trace'))[:3000])
                    for x in lanes:
                        x.p.kill()
                    sys.exit(3)
                if sent.get('recheck'):
                    det_n += 1
                    if r['hash'] != recheck.pop(r['id']):
                        det_bad += 1
                        print('NOTE nondeterministic run idx=%s' % r['id'])
                else:
                    runs += 1
                    dts += r['dt']
                    slow.append((round(r['dt'], 2), r['id']))
                    if len(slow) > 200: slow[:] = sorted(slow)[-5:]
                    ctr.update(r['ctr'])
                    stats.update(r['stats'])
                    hashes.add(r['hash'])
                    states.update(r['states'])
                    if r['nt']:
                        nontriv.add(r['hash'])
                    if r.get('sample') and len(samples) < 3:
                        samples.append(r['sample'])
                if 'viol' in r and not sent.get('recheck'):
                    k = match_known(prop, r, r.get('trace'))
                    if k:
                        if k['id'] not in known:
                            known.append(k['id'])
                    elif a.survey:
                        key = (r['viol'][0], r.get('opname'))
                        survey.setdefault(key, []).append((r['id'], r['viol'][1]))
                    elif viol is None:
                        viol = (l, r)
                if viol is not None or time.time() - t0 > budget or runs >= maxruns:
                    active -= 1
                    sel.unregister(l.p.stdout)
                    continue
                if not sent.get('recheck') and runs % 40 == 7 and 'viol' not in r:
                    recheck[r['id']] = r['hash']
                    l.send(job(r['id'], recheck=True))
                else:
                    l.send(job(nxt[l.lane]))
                    nxt[l.lane] += LANES
        return viol

    slow = []
    while True:
        viol = collect()
        if viol is None or a.survey:
            break
        rc = report(prop, vseed, viol, meta)
        if rc == 1:
            nviol = 1
            break
        # neither a violation nor an answer: recorded, and the search goes on
        unrepro += 1
        rc = 0
        if time.time() - t0 > budget or unrepro >= 5:
            break
    wall = time.time() - t0
    if a.survey:
        print('slowest', sorted(slow)[-5:])
        for (k, o), v in survey.items():
            print('SURVEY %s op=%s n=%d first idx=%d\n   %s' % (k, o, len(v), v[0][0], v[0][1][:700].replace('\n', '\n   ')))
    for k in known_findings():
        if k['property'] == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for l in lanes:
        l.close()
    faults = {k: ctr[k] for k in M.FAULTS if ctr.get(k)}
    ev = {
        'property': prop, 'tier': tier, 'seed': vseed, 'level': meta.get('level', 'exploration'),
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(nontriv),
            'rule': meta['rule'],
            'samples': samples or ['no sample recorded'],
            'simulated_runs': runs,
            'seeds_per_hour': int(runs / max(wall, 1e-9) * 3600),
            'simulated_time': '%d instrumented memory accesses and %d scheduling decisions (the code under test reads no clock)' % (
                ctr.get('access', 0), ctr.get('switch', 0) + ctr.get('pt_switch', 0) + ctr.get('loop', 0) + ctr.get('single', 0)),
            'faults_injected': faults,
            'simulator_events': dict(ctr),
            'workload_events': dict(stats),
            'distinct_executions': len(hashes),
            'distinct_states': len(states),
            'state_measure': meta.get('state_measure', 'hash of all live family contents after each step'),
            'determinism_rechecked': det_n, 'determinism_mismatches': det_bad,
            'candidates_that_did_not_reproduce': unrepro,
            'real': meta['real'], 'stub': meta['stub'],
            'build_s': round(t_build, 1),
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(time.time() - t_start, 1),
        'violations': nviol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d runs in %.1fs (build %.1fs), %d distinct nontrivial, faults %s, determinism %d/%d ok, rc=%d' % (
        prop, runs, wall, t_build, len(nontriv), faults, det_n - det_bad, det_n, rc))
    if a.survey or os.environ.get('SIM_STATS'):
        print(json.dumps(stats, indent=None, sort_keys=True))
    return rc


def report(prop, vseed, viol, meta):
    lane, r = viol
    trace, kind = r['trace'], r['viol'][0]
    print('violation candidate idx=%s kind=%s\n%s' % (r['id'], kind, r['viol'][1][:1500]), flush=True)
    # gate 1: same trace, twice (a hanging run uses up the CPU limit each time)
    rs = [lane.call({'t': 'trace', 'trace': trace}) for _ in range(1 if kind == 'hang' else 2)]
    for x in rs:
        if 'viol' not in x or x['viol'][0] != kind:
            print('NOTE: candidate does not reproduce (%s %s vs %s %s)' % (
                kind, r['hash'], x.get('viol', ['none'])[0], x['hash']))
            return 4
    s = Shrinker(lane, trace, kind, time.time() + (60 if kind != 'hang' else 100))
    best = s.run()
    x = s.res or rs[0]
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(VERIF, 'replays', '%s-%d-%s.json' % (prop, vseed, r['id']))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'verif_seed': vseed, 'run': r['id'], 'kind': kind, 'message': x['viol'][1],
                   'hash': x['hash'], 'lane': lane.lane, 'hashseed': lane.hashseed, 'trace': best,
                   'original_ops': len(trace.get('ops', [])), 'minimised_ops': len(best.get('ops', [])),
                   'shrink_probes': s.probes}, f, indent=1)
    # gate 2: fresh process
    import subprocess
    p = subprocess.run([core.PY, os.path.join(HERE, 'check.py'), prop, '--replay', path], capture_output=True, text=True)
    if p.returncode != 1:
        print('NOTE: minimised replay does not reproduce in a fresh process:\n' + p.stdout[-1500:] + p.stderr[-1500:])
        return 4
    print('minimised %d -> %d ops (%d probes): %s' % (len(trace.get('ops', [])), len(best.get('ops', [])), s.probes,
                                                     x['viol'][1][:2500]))
    print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
    return 1


if __name__ == '__main__':
    sys.exit(main() or 0)
