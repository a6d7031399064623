FAULTS = ['malloc_fail', 'new_fail', 'table_denied', 'forced_gc', 'team_shrunk', 'preempt', 'conflict', 'switch',
          'pt_switch', 'io_fault', 'io_short', 'pipe_block']
REAL = ['graphillion Python package (unmodified, from /repo)', 'every C++ source of the extension (from /repo, instrumented build)',
        'CPython interpreter']
STUB = ['OpenMP runtime (cooperative fibers under the seeded scheduler)', 'memory allocator entry points (planned failures, poison)',
        'node table size and collection points', 'file descriptors passed to dump/load (simulated files and pipes)',
        'interpreter-lock hand-over (baton)']
RULE = ('one run = one seeded trace of operations + simulator knobs in a forked pristine process; '
        'non-trivial = at least 5 operations executed to the end with all checks')
def meta(**k):
    d = dict(rule=RULE, real=REAL, stub=STUB, quick_s=50, thorough_s=780)
    d.update(k)
    return d
META = {'C%02d' % i: meta() for i in range(1, 21)}
META.update({'DEV_%s_%s' % (k, p): meta() for k in ('und', 'str', 'par', 'dir') for p in ('wide', 'long')})
META.update({'DEV_big_' + k: meta() for k in ('all', 'change', 'iter', 'weight', 'reconf')})
META['DEV_univ'] = meta()
