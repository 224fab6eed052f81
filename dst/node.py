"""Simulated processes.

A Zygote is an interpreter with a fixed hash seed that has imported the library and done nothing else; every simulated
process is a fork of it, so it starts from the same pristine state each time.  One simulated process at a time runs,
to completion or to its kill point.
"""
import ctypes
import importlib
import io
import os
import pickle
import resource
import select
import signal
import socket
import struct
import subprocess
import sys
import time

VENV = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def child_env(hashseed):
    env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'PYTHONHASHSEED': str(hashseed), 'PYTHONDONTWRITEBYTECODE': '1',
           'PYTHONPYCACHEPREFIX': '/nonexistent/pyc', 'PYTHONPATH': HERE, 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'PYTHONUTF8': '0',
           'HOME': '/nonexistent', 'PYTHONWARNINGS': 'ignore'}
    if 'DST_REPO' in os.environ:
        env['DST_REPO'] = os.environ['DST_REPO']
    return env


def no_aslr():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def _send(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack('<Q', len(b)) + b)
    f.flush()


def _recv(f):
    h = f.read(8)
    if len(h) < 8:
        raise EOFError
    return pickle.loads(f.read(struct.unpack('<Q', h)[0]))


def resolve(name):
    mod, fn = name.split(':')
    m = sys.modules.get(mod) or importlib.import_module(mod)
    return getattr(m, fn)


def run_forked(fn, args, timeout, post=None):
    """Run fn(*args) in a fork of this process.  -> ('ok', value) | ('exc', repr) | ('timeout',) | ('exit', status)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            if timeout:     # a loop without end is cut by the time it computes, whatever else the machine is doing
                resource.setrlimit(resource.RLIMIT_CPU, (int(timeout / 3) + 1, resource.RLIM_INFINITY))
            sys.stdout = io.StringIO()
            try:
                res = ('ok', fn(*args))
            except BaseException as e:
                import traceback
                res = ('exc', type(e).__name__ + ': ' + str(e), traceback.format_exc()[-3000:])
            b = pickle.dumps(res)
            with os.fdopen(w, 'wb') as f:
                f.write(b)
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 99
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    t_end = time.monotonic() + timeout if timeout else None
    try:
        while True:
            left = None if t_end is None else t_end - REAL_MONO()
            if left is not None and left <= 0:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return ('timeout',)
            rl, _, _ = select.select([r], [], [], left)
            if not rl:
                continue
            c = os.read(r, 1 << 20)
            if not c:
                break
            chunks.append(c)
    finally:
        os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.waitstatus_to_exitcode(st) == -signal.SIGXCPU:
        return ('timeout',)
    b = b''.join(chunks)
    if b:
        try:
            return pickle.loads(b)
        except Exception:
            pass
    return ('exit', os.waitstatus_to_exitcode(st))


REAL_MONO = time.monotonic


def zygote_main():
    from . import seams
    seams.install()
    junk = [[object() for _ in range(k % 7)] for k in range(int(os.environ.get('PYTHONHASHSEED', '0')) * 37)]      # other addresses
    seams.import_jadn('points' in sys.argv[2:])
    del junk[::3]
    seams.W.junk = junk
    for m in (m for m in sys.argv[2:] if m != 'points'):
        importlib.import_module(m)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    inp, out = os.fdopen(os.dup(0), 'rb'), os.fdopen(os.dup(1), 'wb')
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(2, 1)
    import gc
    gc.collect()
    gc.freeze()
    _send(out, 'ready')
    while True:
        try:
            req = _recv(inp)
        except EOFError:
            return
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        fn, args, timeout = req
        if fn == 'session':
            if os.fork() == 0:
                try:
                    inp.close()
                    out.close()
                    session_main(*args)
                finally:
                    os._exit(0)
            _send(out, 'forked')
            continue
        _send(out, run_forked(resolve(fn), args, timeout))


def session_main(addr, fn, init):
    """A long-lived simulated process: serves commands until its socket closes."""
    s = socket.socket(socket.AF_UNIX)
    s.connect(addr)
    f = s.makefile('rwb')
    node = resolve(fn)(*init)
    _send(f, 'up')
    while True:
        try:
            cmd = _recv(f)
        except EOFError:
            return
        try:
            r = ('ok', node(*cmd))
        except BaseException as e:      # noqa
            import traceback
            r = ('exc', type(e).__name__ + ': ' + str(e), traceback.format_exc()[-3000:])
        _send(f, r)


class Session:
    """Handle on a long-lived simulated process.  It runs only while it is being asked something."""
    count = 0

    def __init__(self, zygote, fn, *init, timeout=30):
        Session.count += 1
        addr = f'\0dst-{os.getpid()}-{Session.count}'
        ls = socket.socket(socket.AF_UNIX)
        ls.bind(addr)
        ls.listen(1)
        ls.settimeout(60)
        try:
            zygote.start('session', addr, fn, init)
            self.s, _ = ls.accept()
        finally:
            ls.close()
        self.s.settimeout(timeout)
        self.f = self.s.makefile('rwb')
        self.dead = _recv(self.f) != 'up'

    def ask(self, *cmd):
        if self.dead:
            return ('dead',)
        try:
            _send(self.f, cmd)
            return _recv(self.f)
        except (TimeoutError, socket.timeout):
            self.dead = True
            return ('timeout',)
        except (EOFError, OSError):
            self.dead = True
            return ('dead',)

    def close(self):
        try:
            self.f.close()
            self.s.close()
        except OSError:
            pass


class Zygote:
    def __init__(self, hashseed, modules=()):
        self.hashseed = hashseed
        self.p = subprocess.Popen([VENV, '-W', 'ignore', '-m', 'dst.node', 'zygote', *modules], cwd=HERE, env=child_env(hashseed),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, preexec_fn=no_aslr)
        self.ready = False

    def up(self):
        if not self.ready:
            try:
                assert _recv(self.p.stdout) == 'ready'
            except EOFError:
                return False
            self.ready = True
        return True

    def start(self, what, *args):
        if not self.up():
            raise EOFError('no zygote')
        _send(self.p.stdin, (what, args, None))
        assert _recv(self.p.stdout) == 'forked'

    def call(self, fn, *args, timeout=60):
        if not self.up():
            return ('nozygote',)
        _send(self.p.stdin, (fn, args, timeout))
        return _recv(self.p.stdout)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


class Cluster:
    """The simulated processes a run may start, by hash seed."""

    def __init__(self, modules):
        self.modules = list(modules)
        self.z = {}

    def node(self, hashseed=0):
        if hashseed not in self.z:
            self.z[hashseed] = Zygote(hashseed, self.modules)
        return self.z[hashseed]

    def close(self):
        for z in self.z.values():
            z.close()


if __name__ == '__main__':
    if sys.argv[1] == 'zygote':
        from dst import node
        node.zygote_main()
