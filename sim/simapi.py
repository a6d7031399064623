"""ctypes view of the simulation runtime linked into the simulated extension."""
import ctypes

KEYS = ['NODE_INIT', 'NODE_LIMIT', 'DENY_BIG', 'DENY_PERMILLE', 'MALLOC_FAIL_AT', 'NEW_FAIL_AT',
        'THREADS', 'PROCS', 'TEAM_SHRINK', 'PREEMPT_MEAN', 'STRATEGY', 'POISON',
        'PT_PREEMPT_MEAN', 'MALLOC_FAIL_PERMILLE', 'NEW_FAIL_PERMILLE', 'DENY_MAX',
        'GC_PPM', 'CONFLICT']
COUNTERS = ['malloc', 'malloc_fail', 'new', 'new_fail', 'regions', 'switch', 'preempt',
            'team_shrunk', 'barrier', 'badfree', 'access', 'gil_release', 'pt_switch',
            'io_write', 'io_read', 'io_fault', 'io_short', 'pipe_block', 'deadlock',
            'gil_block', 'table_denied', 'bddinit', 'loop', 'single', 'critical', 'fdleak',
            'bigmalloc', 'forced_gc', 'conflict']
FAULT_COUNTERS = ['malloc_fail', 'new_fail', 'table_denied', 'forced_gc', 'team_shrunk', 'preempt', 'conflict',
                  'switch', 'pt_switch', 'io_fault', 'io_short', 'pipe_block']


class Sim:
    def __init__(self, path):
        L = self.L = ctypes.CDLL(path)
        L.sim_seed.argtypes = [ctypes.c_ulonglong]
        L.sim_set.argtypes = [ctypes.c_int, ctypes.c_long]
        L.sim_set.restype = ctypes.c_long
        L.sim_get.restype = ctypes.c_long
        L.sim_counter.restype = ctypes.c_ulonglong
        L.sim_hash.restype = ctypes.c_ulonglong
        L.sim_file_size.restype = ctypes.c_long
        L.sim_file_wfault.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int]
        L.sim_file_rfault.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int]
        L.sim_file_chunk.argtypes = [ctypes.c_int, ctypes.c_long]
        L.sim_file_pipe.argtypes = [ctypes.c_int, ctypes.c_long]
        L.sim_file_put.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_long]
        L.sim_file_get.argtypes = [ctypes.c_int, ctypes.c_char_p]
        L.sim_pipe_read.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_long]
        L.sim_pipe_read.restype = ctypes.c_long
        L.sim_pipe_write.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_long]
        L.sim_pipe_write.restype = ctypes.c_long
        self.key = {k: i for i, k in enumerate(KEYS)}
        # PyDLL variants keep the interpreter lock
        self.P = ctypes.PyDLL(path)
        self.P.sim_set.argtypes = [ctypes.c_int, ctypes.c_long]
        self.P.sim_set.restype = ctypes.c_long
        self.P.sim_counter.restype = ctypes.c_ulonglong
        try:
            self.used = self.P._Z7bddusedv
            self.used.restype = ctypes.c_ulonglong
            self.gc = self.P._Z5bddgcv
        except AttributeError:
            self.used = self.gc = None

    def seed(self, s):
        self.L.sim_seed(s & (2**64 - 1))

    def set(self, k, v):
        return self.P.sim_set(self.key[k], int(v))

    def counters(self):
        return {c: self.P.sim_counter(i) for i, c in enumerate(COUNTERS)}

    def counter(self, c):
        return self.P.sim_counter(COUNTERS.index(c))

    def hash(self):
        return self.L.sim_hash()

    def arm(self, on=1):
        self.P.sim_alloc_arm(on)

    # files
    def file_bytes(self, i):
        import ctypes as c
        n = self.L.sim_file_size(i)
        b = c.create_string_buffer(n + 1)
        self.L.sim_file_get(i, b)
        return b.raw[:n]

    def file_put(self, i, data):
        self.L.sim_file_put(i, bytes(data), len(data))
