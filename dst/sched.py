"""Deterministic thread scheduler.

The simulated threads are real threads parked on a baton each: exactly one runs, and at every traced event in the
library's own code (a line, or a single bytecode instruction) the simulator decides whether another one takes over.
A blocking acquire of a simulated lock parks the thread until the lock is released.  The decisions are recorded as
[events run before the switch (-1: the thread could not go on), thread switched to]
and that list, replayed, gives the same execution.
"""
import _thread
import sys
import threading

from .base import PKG, BATCH, SimDeadlock, SimHang, mkrng
from .seams import W, real

PREFIX = PKG + '/'


class Chooser:
    """Decides who runs.  Subclasses return the number of events until the next decision."""

    def start(self, n):
        pass

    def gap(self, s):               # events until the next preemption; big number for never
        return 1 << 60

    def pick(self, s, ready, cur):  # cur is None when the current thread cannot go on
        return ready[0]


class Walk(Chooser):
    """Uniform random walk: geometric gaps with the given mean."""

    def __init__(self, rng, mean):
        self.r, self.mean = rng, mean

    def gap(self, s):
        if self.mean <= 1:
            return 1
        return 1 + int(self.r.expovariate(1.0 / self.mean))

    def pick(self, s, ready, cur):
        o = [t for t in ready if t != cur] or ready
        return self.r.choice(o)


class PCT(Chooser):
    """Probabilistic concurrency testing: random priorities and d priority changes at random events."""

    def __init__(self, rng, d, length):
        self.r, self.d, self.len = rng, d, max(length, 2)
        self.pts = sorted(rng.randrange(1, self.len) for _ in range(d))
        self.at = 0
        self.prio = {}
        self.low = 0

    def start(self, n):
        p = list(range(1, n + 1))
        self.r.shuffle(p)
        self.prio = dict(enumerate(p))

    def gap(self, s):
        while self.pts and self.pts[0] <= self.at:
            self.pts.pop(0)
        if not self.pts:
            return 1 << 60
        g = self.pts[0] - self.at
        self.at = self.pts.pop(0)
        return g

    def pick(self, s, ready, cur):
        if cur is not None:
            self.low -= 1
            self.prio[cur] = self.low
        return max(ready, key=lambda t: self.prio[t])


class Site(Chooser):
    """Preempt at a seed-chosen subset of code locations, every time (or every other time) they are reached."""
    sites = True

    def __init__(self, seed, rng, share, p):
        self.seed, self.r, self.share, self.p = seed, rng, share, p
        self.hot = {}

    def at_site(self, code, lineno):
        k = (code.co_name, lineno)
        h = self.hot.get(k)
        if h is None:
            h = self.hot[k] = mkrng('site', self.seed, k[0], lineno).random() < self.share
        return h and self.r.random() < self.p

    def pick(self, s, ready, cur):
        o = [t for t in ready if t != cur] or ready
        return self.r.choice(o)


class Fixed(Chooser):
    """Replay of a recorded list of switches."""

    def __init__(self, trace):
        self.t = [list(x) for x in trace]
        self.i = 0

    def gap(self, s):
        return self.t[self.i][0] if self.i < len(self.t) and self.t[self.i][0] > 0 else 1 << 60

    def pick(self, s, ready, cur):
        want = None
        if self.i < len(self.t):
            want = self.t[self.i][1]
            self.i += 1
        if want in ready:
            return want
        return cur if cur in ready else ready[0]


def make(policy):
    """policy (JSON) -> chooser."""
    k = policy['kind']
    if k == 'fixed':
        return Fixed(policy['trace'])
    r = mkrng('sched', policy['seed'])
    if k == 'walk':
        return Walk(r, policy['mean'])
    if k == 'pct':
        return PCT(r, policy['d'], policy['len'])
    if k == 'site':
        return Site(policy['seed'], r, policy['share'], policy['p'])
    if k == 'serial':
        return Chooser()
    raise ValueError(k)


def gen_policy(r, length=3000):
    x = r.random()
    seed = r.randrange(1 << 30)
    gran = 'opcode' if r.random() < .35 else 'line'
    if x < .5:
        p = {'kind': 'walk', 'mean': r.choice([1, 2, 4, 10, 30, 100])}
    elif x < .7:
        p = {'kind': 'pct', 'd': r.choice([1, 2, 3, 5]), 'len': length * (6 if gran == 'opcode' else 1)}
    else:
        p = {'kind': 'site', 'share': r.choice([.02, .1, .3]), 'p': r.choice([1, .5])}
    return {**p, 'seed': seed, 'gran': gran}


class Sched:
    def __init__(self, policy, budget=400000):
        self.ch = make(policy)
        self.opcode = policy.get('gran') == 'opcode'
        self.budget = budget
        self.steps = 0
        self.left = 0
        self.since = 0
        self.trace = []
        self.cur = None
        self.fns, self.baton, self.state, self.waits = [], [], [], {}
        self.ids = {}
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.failed = None
        self.pairs = set()
        self.loc = None
        self.on_switch = None
        self.sites = getattr(self.ch, 'sites', False)
        self.lockset = {}

    # -- interface of the seams
    def is_task(self):
        return _thread.get_ident() in self.ids

    def block(self, lock, timed):
        """The current thread waits for a lock.  False: a timed wait expires (only when nothing else can run)."""
        me = self.cur
        self.state[me] = ('wait', lock, timed)
        self._switch(None, me)
        ok = self.state[me] != 'expired'
        self.state[me] = 'ready'
        return ok

    def unblock(self, lock):
        for i, s in enumerate(self.state):
            if isinstance(s, tuple) and s[1] is lock:
                self.state[i] = 'ready'

    def yield_now(self):
        if self.is_task():
            self._preempt(True)

    # -- core
    def _ready(self):
        return [i for i, s in enumerate(self.state) if s == 'ready' or s == 'expired']

    def _switch(self, cur, me, done=False, forced=True):
        """Hand the baton to the chosen thread; returns when `me` gets it back (unless it is done)."""
        ready = self._ready()
        if not ready:
            timed = [i for i, s in enumerate(self.state) if isinstance(s, tuple) and s[2]]
            if timed:
                self.state[timed[0]] = 'expired'
                ready = [timed[0]]
            else:
                if any(isinstance(s, tuple) for s in self.state):
                    self.failed = 'deadlock: ' + ', '.join(f'thread {i} waits' if isinstance(s, tuple) else f'thread {i} {s}' for i, s in enumerate(self.state))
                self.main.release()
                if done:
                    return
                self.baton[me].acquire()    # never: the process ends
        nxt = self.ch.pick(self, ready, cur)
        self.left = self.ch.gap(self)
        if nxt != me or forced:
            self.trace.append([-1 if forced else self.since, nxt])
            self.since = 0
        if nxt != me and self.on_switch:
            self.on_switch(me, nxt)
        self.cur = nxt
        if nxt == me and not done:
            return
        self.baton[nxt].release()
        if not done:
            self.baton[me].acquire()
            if self.failed:
                raise SimHang(self.failed)

    def _preempt(self):
        me = self.cur
        if len(self.fns) > 1:
            self._switch(me, me)
        else:
            self.left = 1 << 60

    def _point(self, frame):
        self.steps += 1
        self.since += 1
        if self.steps > self.budget:
            self.failed = 'no progress: step budget exceeded'
            self.main.release()
            self.baton[self.cur].acquire()
        self.left -= 1
        if self.left <= 0 or self.sites and self.ch.at_site(frame.f_code, frame.f_lineno or 0):
            a = (frame.f_code.co_name, frame.f_lineno or 0)
            self.loc, prev = a, self.loc
            if prev:
                self.pairs.add((prev, a))
            self._preempt()

    def _local(self, frame, event, arg):
        if event == 'opcode' or event == 'line' and not self.opcode:
            self._point(frame)
        return self._local

    def _global(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(PREFIX) or fn == BATCH:
            if self.opcode:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _body(self, i, fn):
        self.ids[_thread.get_ident()] = i
        self.baton[i].acquire()
        sys.settrace(self._global)
        try:
            fn()
        except BaseException as e:      # noqa
            self.failed = self.failed or f'thread {i} died: {type(e).__name__}: {e}'
        finally:
            sys.settrace(None)
            self.state[i] = 'done'
            self.ids.pop(_thread.get_ident(), None)     # what the interpreter does to end the thread is outside the simulation
            if self.failed:
                try:
                    self.main.release()
                except RuntimeError:
                    pass
            else:
                self._switch(None, i, done=True)

    def run(self, fns):
        """Run the functions, one simulated thread each, to the end.  -> None or the reason they did not finish."""
        self.fns = list(fns)
        n = len(self.fns)
        self.state = ['ready'] * n
        self.baton = [_thread.allocate_lock() for _ in range(n)]
        for b in self.baton:
            b.acquire()
        for i, fn in enumerate(self.fns):
            threading.Thread(target=self._body, args=(i, fn), daemon=True).start()
        while len(self.ids) < n:
            _wait()
        threading._active_limbo_lock = real['RLock']()       # after a fork the interpreter made a new one through the seam
        self.ch.start(n)
        W.sched = self
        first = self.ch.pick(self, list(range(n)), None)
        self.left = self.ch.gap(self)
        self.trace.append([0, first])
        self.cur = first
        self.baton[first].release()
        self.main.acquire()
        W.sched = None
        return self.failed


def _wait():
    from .seams import T_REAL
    T_REAL['sleep'](0.0001)
