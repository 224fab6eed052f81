"""Simulated file system seam.

Files live in a real scratch directory made for the run; open(), listdir() and friends go through this layer, which
adds short and interrupted transfers, failing operations, full disks, simulated default encodings, permuted directory
listings and process kills, all at plan-chosen operation numbers, and keeps a trace of every operation.

A plan's faults are {'op': kind of operation, 'n': which occurrence, 'kind': fault}; an I/O policy says how transfers
are split.  Operations are counted per kind over the run, so a fault hits the same operation on every replay.
"""
import builtins
import errno
import io
import os
import sys
import weakref

from .base import HarnessError, mkrng
from .seams import W, real

ERR = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EMFILE': errno.EMFILE, 'EACCES': errno.EACCES, 'ENOENT': errno.ENOENT,
       'EDQUOT': errno.EDQUOT, 'EROFS': errno.EROFS, 'EISDIR': errno.EISDIR, 'ESTALE': errno.ESTALE, 'EINTR': errno.EINTR}

KILL_STATUS = 77


class FS:
    """State of the simulated file layer during one run of one simulated process."""

    def __init__(self, root, faults=(), chunk=0, chunk_seed=0, eintr=0.0, listing=None, names=None, extra_roots=()):
        self.root = os.path.realpath(root)
        self.roots = [self.root] + [os.path.realpath(r) for r in extra_roots]
        self.faults = [dict(f) for f in faults]
        self.fired = []
        self.count = {}
        self.chunk = chunk                  # 0: whole transfers; n: transfers of 1..n bytes
        self.rng = mkrng('fs', chunk_seed)
        self.eintr = eintr
        self.listing = listing              # None: real order; int seed: permuted; 'sorted'/'reversed'
        self.trace = []
        self.open_raws = []
        self.touched = set()                # paths opened for writing, renamed or removed
        self.lost = set()                   # paths whose tail was lost to a reader
        self.got = {}                       # bytes delivered to readers, by path
        self.on_kill = None

    # -- decisions
    def hit(self, op, path):
        n = self.count.get(op, 0)
        self.count[op] = n + 1
        for f in self.faults:
            if f.get('path') and not path.endswith(f['path']):
                continue
            if f['op'] == op and (f['n'] == n or (f.get('sticky') and n >= f['n'])):
                self.fired.append((f['kind'], op, n))
                self.trace.append((op, n, os.path.basename(path), f['kind']))
                return f
        self.trace.append((op, n, os.path.basename(path)))
        return None

    def fail(self, f, path):
        k = f['kind']
        if k == 'KILL':
            self.kill()
        raise OSError(ERR[k], os.strerror(ERR[k]), path)

    def kill(self):
        if self.on_kill:
            self.on_kill()
        os._exit(KILL_STATUS)

    def inside(self, path):
        p = os.path.realpath(path)
        return any(p == r or p.startswith(r + os.sep) for r in self.roots)

    def size(self, n):
        if self.chunk and n > 1:
            return 1 + self.rng.randrange(min(n, self.chunk))
        return n

    def interrupted(self):
        return self.eintr and self.rng.random() < self.eintr

    def open_handles(self):
        return [r.simpath for r in (w() for w in self.open_raws) if r is not None and not r.closed]


class SimRaw(io.FileIO):
    torn = False

    """One open file.  Data is really in the scratch file; every transfer is the simulator's decision."""

    def __init__(self, fs, path, mode):
        self.simfs, self.simpath = fs, path
        super().__init__(path, mode)
        fs.open_raws.append(weakref.ref(self))

    def write(self, b):
        fs = self.simfs
        mv = memoryview(b).cast('B')
        if fs.interrupted():
            fs.fired.append(('EINTR', 'write', -1))
            super().write(b'')      # the OS call was restarted by the interpreter: nothing visible happens
        f = fs.hit('write', self.simpath)
        n = fs.size(len(mv))
        if fs.chunk and n < len(mv):
            fs.fired.append(('short-write', 'write', -1))
        if f:
            if f['kind'] in ('ENOSPC', 'EDQUOT', 'EIO', 'KILL') and len(mv) > 1:     # part of the data got out first
                part = f.get('part', 0) * len(mv) // 100
                if part:
                    super().write(mv[:part])
            if f['kind'] == 'SHORT':
                n = max(1, f.get('part', 50) * len(mv) // 100)
            else:
                fs.fail(f, self.simpath)
        return super().write(mv[:n])

    def readinto(self, b):
        fs = self.simfs
        f = fs.hit('read', self.simpath)
        mv = memoryview(b).cast('B')
        n = fs.size(len(mv))
        if f:
            if f['kind'] == 'TORN':     # the file ends here, as if its tail had been lost
                self.torn = True
            elif f['kind'] == 'SHORT':
                n = max(1, f.get('part', 50) * len(mv) // 100)
            else:
                fs.fail(f, self.simpath)
        if self.torn:
            if os.fstat(self.fileno()).st_size > self.tell():
                fs.lost.add(self.simpath)
            return 0
        if fs.chunk:
            fs.fired.append(('short-read', 'read', -1))
        k = super().readinto(mv[:n])
        if k:
            fs.got.setdefault(self.simpath, bytearray()).extend(mv[:k])
        return k

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        out = []
        while True:
            c = self.read(4096)
            if not c:
                return b''.join(out)
            out.append(c)

    def truncate(self, *a):
        f = self.simfs.hit('truncate', self.simpath)
        if f:
            self.simfs.fail(f, self.simpath)
        return super().truncate(*a)

    def close(self):
        if self.closed:
            return
        f = None
        if self.writable() and W.fs is self.simfs:
            f = self.simfs.hit('close', self.simpath)
            if f and f['kind'] == 'KILL':
                self.simfs.kill()
        super().close()
        if f:
            self.simfs.fail(f, self.simpath)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = W.fs
    is_path = isinstance(file, (str, bytes, os.PathLike))
    path = os.fsdecode(file) if is_path else None
    binary = 'b' in mode
    if fs is None or path is None or opener is not None or not fs.inside(path):
        if not binary and encoding is None and W.locale and (fs is None or path is None or not path.startswith(sys.prefix)):
            encoding = W.locale
        return real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in 'wax+')
    f = fs.hit('open-w' if writing else 'open-r', path)
    if f:
        fs.fail(f, path)
    rawmode = ''.join(c for c in mode if c in 'rwax+')
    if writing:
        fs.touched.add(os.path.realpath(path))
    raw = SimRaw(fs, path, rawmode)
    try:
        if binary and buffering == 0:
            return raw
        size = buffering if buffering > 1 else fs.bufsize if getattr(fs, 'bufsize', None) else io.DEFAULT_BUFFER_SIZE
        buf = io.BufferedRandom(raw, size) if '+' in mode else io.BufferedWriter(raw, size) if writing else io.BufferedReader(raw, size)
        if binary:
            return buf
        if encoding in (None, 'locale'):
            encoding = W.locale or 'utf-8'
        t = io.TextIOWrapper(buf, encoding, errors, newline)
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


def _perm(fs, names):
    if fs.listing == 'sorted':
        return sorted(names)
    if fs.listing == 'reversed':
        return sorted(names, reverse=True)
    names = sorted(names)
    mkrng('listing', fs.listing).shuffle(names)
    return names


def _wrap_dir(name):
    orig = getattr(os, name)

    def listdir(path='.'):
        fs = W.fs
        if fs is None or isinstance(path, int) or not fs.inside(os.fsdecode(path)):
            return orig(path)
        f = fs.hit('listdir', os.fsdecode(path))
        if f:
            fs.fail(f, path)
        out = orig(path)
        return _perm(fs, out) if fs.listing is not None else out
    setattr(os, name, listdir)


class _ScanDir:
    def __init__(self, ents):
        self.ents = iter(ents)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.ents)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _wrap_scandir():
    orig = os.scandir

    def scandir(path='.'):
        fs = W.fs
        if fs is None or isinstance(path, int) or not fs.inside(os.fsdecode(path)):
            return orig(path)
        f = fs.hit('listdir', os.fsdecode(path))
        if f:
            fs.fail(f, path)
        with orig(path) as it:
            ents = {e.name: e for e in it}
        order = _perm(fs, list(ents)) if fs.listing is not None else list(ents)
        return _ScanDir([ents[n] for n in order])
    os.scandir = scandir


def _wrap_op(name, nargs):
    orig = getattr(os, name)

    def op(*a, **k):
        fs = W.fs
        if fs is not None and isinstance(a[0], (str, bytes, os.PathLike)) and any(fs.inside(os.fsdecode(x)) for x in a[:nargs] if isinstance(x, (str, bytes, os.PathLike))):
            f = fs.hit(name, os.fsdecode(a[nargs - 1]))
            if f:
                fs.fail(f, os.fsdecode(a[nargs - 1]))
            for x in a[:nargs]:
                fs.touched.add(os.path.realpath(x))
        return orig(*a, **k)
    op.__name__ = name
    setattr(os, name, op)


def install():
    builtins.open = sim_open
    io.open = sim_open
    _wrap_dir('listdir')
    _wrap_scandir()
    for n, k in (('remove', 1), ('unlink', 1), ('rename', 2), ('replace', 2), ('rmdir', 1), ('mkdir', 1), ('truncate', 1)):
        _wrap_op(n, k)
    # shutil's fast copy paths bypass file objects: force the plain loop so that copies go through the seam
    import shutil
    for n in ('_USE_CP_SENDFILE', '_HAS_FCOPYFILE'):
        if hasattr(shutil, n):
            setattr(shutil, n, False)
