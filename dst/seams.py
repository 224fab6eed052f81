"""The seams: every source of nondeterminism the library can touch, put behind the simulator.

install() runs once in each simulated process, before jadn is imported.  Until a run activates a seam it passes
straight through to the real thing.
"""
import _thread
import builtins
import datetime as _dt
import io
import os
import random
import sys
import threading
import time as _time

from .base import SimDeadlock, SRC


class World:
    """What the current run simulates."""
    sched = None            # active thread scheduler
    single = False          # single-threaded run: a blocking acquire of a held lock is a deadlock
    clock = None            # simulated unix time (float) or None for real
    fs = None               # active vfs.FS or None
    pid = None
    locale = None           # simulated default text encoding
    entropy = None          # simulated system entropy (a seeded generator) or None for real


W = World()
real = {}
T_REAL = {k: getattr(_time, k) for k in ('time', 'time_ns', 'localtime', 'gmtime', 'ctime', 'strftime', 'sleep', 'monotonic', 'perf_counter', 'tzset')}


# ---------------------------------------------------------------- clock
def _now():
    return T_REAL['time']() if W.clock is None else W.clock


class SimDateTime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(_now(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(_now(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(_now())


class SimDate(_dt.date):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(_now())


SimDateTime.__name__ = SimDateTime.__qualname__ = 'datetime'
SimDate.__name__ = SimDate.__qualname__ = 'date'


def _install_clock():
    _dt.datetime = SimDateTime
    _dt.date = SimDate
    _time.time = _now
    _time.time_ns = lambda: int(_now() * 1e9)
    _time.localtime = lambda s=None: T_REAL['localtime'](_now() if s is None else s)
    _time.gmtime = lambda s=None: T_REAL['gmtime'](_now() if s is None else s)
    _time.ctime = lambda s=None: T_REAL['ctime'](_now() if s is None else s)
    _time.strftime = lambda f, t=None: T_REAL['strftime'](f, T_REAL['localtime'](_now()) if t is None else t)
    _time.monotonic = lambda: T_REAL['monotonic']() if W.clock is None else W.clock
    _time.perf_counter = lambda: T_REAL['perf_counter']() if W.clock is None else W.clock

    def sleep(s):
        if W.clock is None and W.sched is None:
            return T_REAL['sleep'](s)
        if W.clock is not None:
            W.clock += s
        if W.sched is not None:
            W.sched.yield_now()
    _time.sleep = sleep


# ---------------------------------------------------------------- locks
_alloc = _thread.allocate_lock


class SimLock:
    def __init__(self):
        self._l = _alloc()

    def acquire(self, blocking=True, timeout=-1):
        s = W.sched
        if s is not None and s.is_task():
            while not self._l.acquire(False):
                if not blocking or timeout == 0:
                    return False
                if not s.block(self, timeout > 0):
                    return False
            return True
        if W.single:
            if self._l.acquire(False):
                return True
            if not blocking or timeout >= 0:
                return False
            raise SimDeadlock('acquire of a lock that is never released')
        return self._l.acquire(blocking, timeout)

    def release(self):
        self._l.release()
        if W.sched is not None:
            W.sched.unblock(self)

    def locked(self):
        return self._l.locked()

    acquire_lock, release_lock, locked_lock = acquire, release, locked
    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l._at_fork_reinit()


class SimRLock:
    def __init__(self):
        self._b, self._o, self._c = SimLock(), None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._o == me:
            self._c += 1
            return True
        if self._b.acquire(blocking, timeout):
            self._o, self._c = me, 1
            return True
        return False

    def release(self):
        if self._o != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._c -= 1
        if not self._c:
            self._o = None
            self._b.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._o == _thread.get_ident()

    def _release_save(self):
        c, self._c, self._o = self._c, 0, None
        self._b.release()
        return c

    def _acquire_restore(self, c):
        self._b.acquire()
        self._o, self._c = _thread.get_ident(), c

    def _at_fork_reinit(self):
        self._b._at_fork_reinit()
        self._o, self._c = None, 0


def _install_locks():
    # The interpreter's own Thread machinery keeps the real locks; code imported after this gets simulated ones.
    real['Lock'], real['RLock'] = threading.Lock, threading.RLock
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock


# ---------------------------------------------------------------- process identity and environment
def _install_process():
    gp = os.getpid
    os.getpid = lambda: gp() if W.pid is None else W.pid


# ---------------------------------------------------------------- randomness
class SimRandom(random.Random):
    """A generator seeded from the simulated system entropy where the library gives no seed."""

    def seed(self, a=None, version=2):
        if a is None and W.entropy is not None:
            a = W.entropy.getrandbits(128)
        super().seed(a, version)


def _install_entropy():
    import tempfile
    urandom, R = os.urandom, random.Random

    def sim(n):
        return urandom(n) if W.entropy is None else W.entropy.randbytes(n)
    os.urandom = random._urandom = sim
    real['Random'] = R
    random.Random = tempfile._Random = SimRandom


def _reseed(rseed):
    import tempfile
    random.seed(rseed)
    W.entropy = real['Random'](rseed * 7919 + 1)
    tempfile._name_sequence = None


def set_env(tz=None, clock=None, pid=None, rseed=None, cwd=None, locale=None):
    """The environment of one simulated process (hash seed is fixed when the process is made)."""
    if tz is not None:
        os.environ['TZ'] = tz
        T_REAL['tzset']()
    W.clock = clock
    W.pid = pid
    W.locale = locale
    if rseed is not None:
        _reseed(rseed)
    if cwd is not None:
        os.chdir(cwd)


def install():
    if real:
        return
    real['open'] = io.open
    _install_clock()
    _install_locks()
    _install_process()
    _install_entropy()
    from . import vfs
    vfs.install()


def import_jadn(points=False):
    install()
    if points:
        from . import inject
        inject.install()
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import jadn
    assert os.path.realpath(jadn.__file__).startswith(os.path.realpath(SRC)), jadn.__file__
    return jadn
