"""Python locks of the code under test: waiting for one hands the baton over instead of blocking for real."""
import _thread, threading

real_allocate, RealRLock = _thread.allocate_lock, threading.RLock
yielder = None        # set while simulated threads run


def _acquire(lk, blocking, timeout):
    if lk.acquire(False):
        return True
    if not blocking:
        return False
    n = 0
    while yielder is not None:
        yielder()
        if lk.acquire(False):
            return True
        n += 1
        if n > 200000:
            raise RuntimeError('deadlock: a lock is never released')
    return lk.acquire(blocking, timeout)


class SimLock:
    _make = staticmethod(real_allocate)

    def __init__(self):
        self._l = self._make()

    def acquire(self, blocking=True, timeout=-1):
        return _acquire(self._l, blocking, timeout)

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._l._is_owned()


class SimRLock(SimLock):
    _make = staticmethod(RealRLock)


def install():
    threading.Lock = SimLock
    threading.RLock = SimRLock


def uninstall():
    threading.Lock = real_allocate
    threading.RLock = RealRLock
