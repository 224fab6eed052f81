"""Seeds, explicit (JSON) values for plans, canonical outcomes."""
import hashlib
import json
import math
import os
import random
import re

REPO = os.environ.get('DST_REPO', '/repo')      # another tree only while developing the checks (planted bugs in scratch copies)
SRC = REPO + '/distribution/src'
PKG = SRC + '/jadn'
BATCH = REPO + '/distribution/make-artifacts.py'


def mkrng(*labels) -> random.Random:
    """One PRNG stream per (VERIF_SEED, property, run, purpose); independent of PYTHONHASHSEED."""
    h = hashlib.sha256(repr(labels).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


# ---------------------------------------------------------------- values in plans: JSON with tags
def to_j(v):
    if isinstance(v, bytes):
        return {'$b': v.hex()}
    if isinstance(v, dict):
        if all(isinstance(k, str) and not k.startswith('$') for k in v):
            return {k: to_j(x) for k, x in v.items()}
        return {'$d': [[to_j(k), to_j(x)] for k, x in v.items()]}
    if isinstance(v, tuple):
        return {'$t': [to_j(x) for x in v]}
    if isinstance(v, list):
        return [to_j(x) for x in v]
    if isinstance(v, float) and not math.isfinite(v):
        return {'$f': repr(v)}
    return v


def from_j(v):
    if isinstance(v, list):
        return [from_j(x) for x in v]
    if isinstance(v, dict):
        if '$b' in v:
            return bytes.fromhex(v['$b'])
        if '$d' in v:
            return {from_j(k): from_j(x) for k, x in v['$d']}
        if '$t' in v:
            return tuple(from_j(x) for x in v['$t'])
        if '$f' in v:
            return float(v['$f'])
        return {k: from_j(x) for k, x in v.items()}
    return v


# ---------------------------------------------------------------- canonical outcomes
_ADDR = re.compile(r'0x[0-9a-fA-F]{4,}')


def scrub(s: str) -> str:
    return _ADDR.sub('0x?', s)


def canon(v) -> str:
    """Type-exact, order-preserving text of a value (True != 1 != 1.0, bytes != str, dict order kept)."""
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        t = type(v)
        return repr(v) if t in (bool, int, float, str, bytes, type(None)) else f'{t.__name__}:{v!r}'
    if isinstance(v, dict):
        n = '' if type(v) is dict else type(v).__name__
        return n + '{' + ','.join(f'{canon(k)}:{canon(x)}' for k, x in v.items()) + '}'
    if isinstance(v, (list, tuple)):
        n = {list: '[', tuple: '('}.get(type(v), type(v).__name__ + '[')
        return n + ','.join(canon(x) for x in v) + ']'
    if isinstance(v, (set, frozenset)):
        return type(v).__name__ + '{' + ','.join(sorted(canon(x) for x in v)) + '}'
    return scrub(f'{type(v).__name__}:{v!r}')


def canon_u(v) -> str:
    """As canon, but dict order is ignored (value equality)."""
    if isinstance(v, dict):
        return '{' + ','.join(sorted(f'{canon(k)}:{canon_u(x)}' for k, x in v.items())) + '}'
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(canon_u(x) for x in v) + ']'
    return canon(v)


class SimHang(BaseException):
    """Raised by the simulator when a run exceeds its step budget."""


class SimDeadlock(BaseException):
    """Raised by the simulator when no task can run."""


class HarnessError(Exception):
    """The simulator itself is at fault: never reported as a violation."""


def outcome(fn, *a, msgs=True, **k):
    """('ok', canonical value) or ('err', type, message) of one call."""
    try:
        return ('ok', canon(fn(*a, **k)))
    except (HarnessError, SimHang):
        raise
    except BaseException as e:      # noqa: an injected KeyboardInterrupt is an outcome too
        return ('err', type(e).__name__, scrub(str(e)) if msgs else '')


def short(o, n=300):
    s = o if isinstance(o, str) else repr(o)
    return s if len(s) <= n else s[:n - 20] + f'...[{len(s)} chars]'


def digest(obj) -> str:
    return hashlib.sha256(json.dumps(obj, sort_keys=True, ensure_ascii=True, default=repr).encode()).hexdigest()[:20]


class Log:
    """Ordered event log of a run.  Never draws randomness, never reads a clock."""

    def __init__(self):
        self.ev = []

    def __call__(self, *a):
        self.ev.append([len(self.ev), *[x if isinstance(x, (int, str, type(None))) else repr(x) for x in a]])

    def digest(self):
        return digest(self.ev)
