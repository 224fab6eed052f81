"""C10: a batch conversion killed or failing at any point converges when run again."""
import contextlib
import copy
import gc
import io
import os
import pickle
import shutil
import sys
import tempfile
import types

from .. import gen, inject, tools
from ..base import BATCH, PKG, digest, mkrng, scrub
from ..node import Cluster, run_forked
from ..seams import W, real, set_env
from ..work import safe, variant
from .c05 import norm
from .common import Harness, Lost, need

PROP = 'C10'
RUNS = {'quick': 1000, 'thorough': 16000}
REAL = ['make-artifacts.py (main, translate)', 'jadn.core, jadn.convert, jadn.transform, jadn.translate', 'shutil.copy, os.makedirs', 'io buffering and text layers', 'CPython hash randomisation']
STUB = ['raw file layer (kill, power loss, full disk, I/O errors, failing open, close and mkdir, short and interrupted transfers)', 'directory listing order', 'clock, zone, default encoding', 'fire (command line)',
        'interrupts and allocation failures (placed by the simulator)']
RULE = 'a run in which at least one attempt was killed, failed, or cut short, or ran over the output of another batch, before a later attempt'
MEASURE = 'distinct histories of attempts: (faults that fired and where, cut, listing order, outcome, edits) per run'
SUFFIX = ['.jadn', '-core.jadn', '_ia.dot', '_i.puml', '.jidl', '.html', '.md', '.json']
CL = None


def setup():
    global CL
    CL = Cluster(['points', 'jadn.codec', 'jadn.convert', 'jadn.transform', 'jadn.translate', 'dst.checks.c10'])


def teardown():
    CL.close()


def gen_faults(r, small):
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        op = r.choice(['open-w', 'open-w', 'write', 'write', 'write', 'close', 'close', 'mkdir', 'open-r', 'read', 'listdir'])
        kind = r.choice({'open-w': ['EACCES', 'ENOSPC', 'EMFILE', 'EIO', 'KILL', 'KILL', 'KILL'], 'write': ['ENOSPC', 'EIO', 'EDQUOT', 'SHORT', 'KILL', 'KILL', 'KILL'], 'close': ['EIO', 'ENOSPC', 'KILL', 'KILL'],
                         'mkdir': ['ENOSPC', 'EACCES', 'KILL'], 'open-r': ['EMFILE', 'EIO', 'EACCES', 'KILL'], 'read': ['EIO', 'ESTALE', 'SHORT', 'KILL'], 'listdir': ['EIO', 'EACCES', 'EMFILE', 'KILL']}[op])
        f = {'op': op, 'n': r.choice([0, 0, 1]) if op in ('mkdir', 'listdir') else r.randrange(r.choice([3, 10, 10, 30]) if op != 'write' else r.choice([3, 10, 30, 100])), 'kind': kind, 'part': r.choice([0, 30, 50, 99])}
        if kind in ('ENOSPC', 'EDQUOT', 'EMFILE') and r.random() < .4:
            f['sticky'] = True
        out.append(f)
    return out


def gen_attempt(r):
    x = r.random()
    return {'fresh': r.random() < .7, 'hs': r.choice([0, 1, 7]), 'tz': r.choice(['UTC', 'America/New_York', 'ABC-13DEF']), 'clock': r.choice([0.0, 1.7e9, 4102444800.0]), 'locale': r.choice(['utf-8', 'utf-8', 'cp1252', 'ascii']),
            'listing': r.choice(['sorted', 'reversed', r.randrange(1000), r.randrange(1000)]), 'faults': gen_faults(r, True) if x < .75 else [], 'cut': [r.choice(['interrupt', 'memory', 'stack']), r.random()] if x > .8 else None,
            'chunk': r.choice([0, 0, 0, 100, 4096]), 'seed': r.randrange(1 << 30), 'eintr': r.choice([0, 0, 0, .2]), 'bufsize': r.choice([None, None, None, 100, 1000]), 'dirs': r.choice(['abs', 'rel', 'default']),
            'crash': r.choice(['process', 'process', 'machine']), 'edit': None}


def conv(r, **k):
    """A schema that every output format can express, mostly."""
    for _ in range(40):
        s = gen.gen_schema(r, docs=True, hard=r.random() < .5, **k)
        if safe({'schemas': [s]}) and js_ok(s):
            break
    return s


def js_ok(s):
    """The JSON schema writer wants these."""
    names = {t[0] for t in s['types']}
    for t in s['types']:
        if t[1] == 'MapOf':
            kt = next((o[1:] for o in t[2] if o[0] == '+'), '')
            if kt not in names or not t[2] or t[2][0][0] != '+':
                return False
    return True


def gen_plan(r, i, tier):
    srcs, schemas = [], []
    stems = ['a', 'b', 'model-1.0', 'Zed', 'ünï', 'a-core', 'with space', 'x.y']
    for k in range(r.choice([1, 2, 2, 3, 4])):
        schemas.append(variant(schemas[-1], r) if schemas and r.random() < .3 else conv(r, ntypes=r.choice([1, 2, 3, 6, 12])))
        srcs.append({'stem': r.choice(stems), 'ext': r.choice(['.jadn', '.jadn', '.jidl', '.html']), 's': k})
    if r.random() < .35:        # two sources for the same artifacts: the order they are taken in decides
        k = r.randrange(len(srcs))
        schemas.append(variant(schemas[k], r))
        srcs.append({'stem': srcs[k]['stem'], 'ext': r.choice(['.jadn', '.jidl', '.html']), 's': len(schemas) - 1})
    seen, out = set(), []
    for s in srcs:
        if (s['stem'], s['ext']) not in seen:
            seen.add((s['stem'], s['ext']))
            out.append(s)
    attempts = [gen_attempt(r) for _ in range(r.choice([1, 1, 2, 3]))]
    for _ in range(r.choice([1, 1, 2])):
        attempts.append({**gen_attempt(r), 'faults': [], 'cut': None})
    for a in attempts:
        if r.random() < .2:
            schemas.append(variant(schemas[0], r) if r.random() < .3 else conv(r, ntypes=r.choice([1, 2, 4])))
            a['edit'] = [r.randrange(len(out)), len(schemas) - 1]
    plan = {'schemas': schemas, 'srcs': out, 'was': r.choice(['none', 'none', 'empty', 'other', 'other', 'junk']), 'extra': r.choice([None, None, None, 'dir', 'bad', 'broken']) if r.random() < .4 else None, 'attempts': attempts}
    return plan if safe(plan) else gen_plan(r, i, tier)


def _texts(jobs, d):
    """The source files' bytes; runs in a pristine process."""
    from .c12 import _save
    set_env('UTC', 1.7e9, 4242, 0)
    out = []
    for ext, s in jobs:
        p = os.path.join(d, 't')
        try:
            _save(ext[1:], copy.deepcopy(s), p, '', False)
            with real['open'](p, 'rb') as f:
                out.append(f.read())
            os.unlink(p)
        except Exception:
            out.append(None)
    return out


def batch():
    """The script's module, loaded afresh with interruption points."""
    m = types.ModuleType('make_artifacts')
    m.__file__ = BATCH
    sys.modules['fire'] = types.ModuleType('fire')
    sys.modules['fire'].Fire = lambda *a, **k: None
    with real['open'](BATCH, 'rb') as f:
        src = f.read()
    import builtins
    exec(inject.with_points(src, BATCH) if '__dst_pt__' in builtins.__dict__ else compile(src, BATCH, 'exec'), m.__dict__)
    return m


def ref(d, count):
    """An uninterrupted run in a pristine process -> ('ok', interruption points) or ('err', type, text)."""
    from .. import vfs
    set_env('UTC', 1.7e9, 4242, 0, cwd=d, locale='utf-8')
    W.fs = vfs.FS(d, [], 0, 0, 0, 'sorted')
    m = batch()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            inj, o = inject.cut(m.main, 'count', 0, os.path.join(d, 'Schemas'), os.path.join(d, 'Out'))
    finally:
        W.fs = None
    if o[0] == 'err':
        return ('err', type(o[1]).__name__, scrub(str(o[1]))[:200])
    return ('ok', inj.count)


def snapshot(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for x in fs:
            q = os.path.join(p, x)
            with real['open'](q, 'rb') as f:
                out[os.path.relpath(q, d)] = f.read()
        for x in ds:
            out[os.path.relpath(os.path.join(p, x), d)] = None
    return out


def process(d, A, edits, points, log):
    """One simulated process: attempts in turn, until killed."""
    from .. import vfs
    out = []
    m = batch()
    for k, a in enumerate(A):
        set_env(a['tz'], a['clock'], 100 + A[0]['seed'] % 32000, A[0]['seed'] % 1000 + k, cwd=d, locale=a['locale'])       # a process keeps its number, another has another
        if edits[k]:
            with real['open'](os.path.join(d, 'Schemas', edits[k][0]), 'wb') as f:
                f.write(edits[k][1])
        fs = vfs.FS(d, a['faults'], a['chunk'], a['seed'], a['eintr'], a['listing'], extra_roots=[os.path.join(PKG, 'data')])
        fs.bufsize = a['bufsize']
        css = os.path.isdir(os.path.join(d, 'Out', 'css'))

        def killed():
            with real['open'](log, 'wb') as f:
                pickle.dump((out, {'fired': fs.fired, 'trace': fs.trace, 'touched': sorted(os.path.relpath(x, d) for x in fs.touched)}), f)
        fs.on_kill = killed
        args = [] if a['dirs'] == 'default' else ['Schemas', 'Out'] if a['dirs'] == 'rel' else [os.path.join(d, 'Schemas'), os.path.join(d, 'Out')]
        cut = err = None
        W.fs = fs
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if a['cut']:
                    kind, x = a['cut']
                    inj, o = inject.cut(m.main, kind, int(x * 60) if kind == 'stack' else int(x * (points or 1)), *args)
                    cut = inj.fired
                    if o[0] == 'err':
                        raise o[1]
                else:
                    m.main(*args)
        except BaseException as e:      # noqa: the cut may be a KeyboardInterrupt
            err = (type(e).__name__, scrub(str(e))[:200])
        handles = fs.open_handles()
        if cut:         # cut between open() and the with statement: the file object goes with the frame
            inj = o = None
            gc.collect()
            handles = fs.open_handles()
        W.fs = None
        out.append({'err': err, 'fired': fs.fired, 'trace': fs.trace, 'handles': [os.path.basename(h) for h in handles], 'cut': cut, 'css': css, 'out': snapshot(d)})
    return out


def run(plan):
    base = os.path.realpath(tempfile.mkdtemp(prefix='dst-c10-'))
    try:
        return _run(plan, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def lay(d, files, extra):
    os.makedirs(os.path.join(d, 'Schemas'))
    for n, b in files.items():
        with real['open'](os.path.join(d, 'Schemas', n), 'wb') as f:
            f.write(b)
    if extra == 'dir':
        os.mkdir(os.path.join(d, 'Schemas', 'sub.jadn'))
        with real['open'](os.path.join(d, 'Schemas', 'sub.jadn', 'c.jadn'), 'wb') as f:
            f.write(b'not a schema')
    elif extra:
        with real['open'](os.path.join(d, 'Schemas', 'broken.jadn' if extra == 'broken' else 'notes.txt'), 'wb') as f:
            f.write(b'{"types": [')


def _run(plan, base):
    d, log = base + '/w', base + '/log'
    viol, st, shape = [], {}, []

    def bump(k, n=1):
        st[k] = st.get(k, 0) + n
    A, S = plan['attempts'], plan['srcs']
    jobs = [(s['ext'], plan['schemas'][s['s']]) for s in S] + [(S[a['edit'][0]]['ext'], plan['schemas'][a['edit'][1]]) for a in A if a['edit']]
    texts = need(run_forked(_texts, (jobs, base), 60))
    if None in texts:
        return {'viol': [], 'stats': {'sources that cannot be saved': 1}, 'log': 'none', 'cov': []}
    files = {s['stem'] + s['ext']: t for s, t in zip(S, texts)}
    # the sources during each attempt, and what an uninterrupted run makes of them
    state, states, edits, now = [], [], [], dict(files)
    et = iter(texts[len(S):])
    cur = {s['stem'] + s['ext']: plan['schemas'][s['s']] for s in S}
    curs = []
    for a in A:
        e = None
        if a['edit']:
            s = S[a['edit'][0]]
            e = [s['stem'] + s['ext'], next(et)]
            now = {**now, e[0]: e[1]}
            cur = {**cur, e[0]: plan['schemas'][a['edit'][1]]}
        if now not in states:
            states.append(now)
            curs.append(cur)
        state.append(states.index(now))
        edits.append(e)
    want = []
    for k, f in enumerate(states):
        q = f'{base}/r{k}'
        lay(q, f, plan['extra'])
        r = CL.node(0).call('dst.checks.c10:ref', q, True, timeout=60 * plan.get('patience', 1))
        if r[0] in ('timeout', 'nozygote'):
            raise Lost(str(r))
        if r[0] != 'ok':
            raise Harness(str(r)[:2000])
        o = snapshot(q)
        want.append((r[1], {x: b for x, b in o.items() if not (x + '/').startswith('Schemas/')}))
        src = {x: b for x, b in o.items() if (x + '/').startswith('Schemas/')}
        shutil.rmtree(q)
        if r[1][0] == 'ok':
            bump('source directories that convert')
            bad = incomplete(f, curs[k], want[-1][1])
            if bad:
                viol.append(['incomplete', f'uninterrupted run on {sorted(f)}: {bad}'])
    # the first directory
    lay(d, files, plan['extra'])
    if plan['was'] != 'none':
        os.makedirs(d + '/Out/css')
        rr = mkrng('was', len(files))
        for n in sorted(want[0][1]):
            b = want[0][1][n]
            if b is None or plan['was'] == 'empty' or rr.random() < .3:
                continue
            with real['open'](os.path.join(d, n), 'wb') as f:
                f.write(b + b'\nthe tail of a longer document' * 9 if plan['was'] == 'other' else b'\x00\xff junk')
        with real['open'](d + '/Out/keep.txt', 'wb') as f:
            f.write(b'precious')
        st['nontrivial'] = 1
    extra = {x: b for x, b in snapshot(d).items()}
    done = []
    while len(done) < len(A):
        start = len(done)
        end = start + 1
        while end < len(A) and not A[end]['fresh']:
            end += 1
        if os.path.exists(log):
            os.unlink(log)
        pts = max([w[0][1] for w in want if w[0][0] == 'ok'], default=3000)
        r = CL.node(A[start]['hs']).call('dst.checks.c10:process', d, A[start:end], edits[start:end], pts, log, timeout=90 * plan.get('patience', 1))
        if r[0] == 'ok':
            done += r[1]
        elif r[0] == 'exit' and r[1] == 77 and os.path.exists(log):
            with real['open'](log, 'rb') as f:
                out, at = pickle.load(f)
            k = start + len(out)
            if A[k]['crash'] == 'machine':      # the machine went down: what was not on the disk yet is lost
                rr = mkrng('crash', A[k]['seed'])
                for n in at['touched']:
                    p = os.path.join(d, n)
                    if os.path.isfile(p):
                        size = os.path.getsize(p)
                        with real['open'](p, 'r+b') as f:
                            x = rr.random()
                            if x < .4:
                                f.truncate(rr.randrange(size + 1))
                            elif x < .6 and size:
                                at0 = rr.randrange(size)
                                f.seek(at0)
                                f.write(bytes(size - at0))
                bump('fault:power loss')
            done += out + [{'err': ('KILL', ''), 'killed': True, 'fired': at['fired'], 'trace': at['trace'], 'handles': [], 'cut': None, 'out': snapshot(d)}]
            bump('kills')
        elif r[0] in ('timeout', 'nozygote'):
            raise Lost(str(r))
        elif r[0] == 'exit':
            viol.append(['process-died', f'status {r[1]} at attempt {start} or later'])
            break
        else:
            raise Harness(str(r)[:2000])
    for k, (a, o) in enumerate(zip(A, done)):
        w, good = want[state[k]]
        bump('attempts')
        for f in o['fired']:
            bump(f'fault:{f[0]} at {f[1]}')
        if o['cut']:
            bump(f'fault:{o["cut"].split("@")[0]} during batch')
        if a['edit']:
            bump('source edited between attempts')
        if k + 1 < len(A) and o['err']:
            st['nontrivial'] = 1
        hard = [f for f in o['fired'] if f[0] not in ('SHORT', 'EINTR', 'short-write', 'short-read', 'KILL') and not (f[1] == 'mkdir' and o.get('css'))]
        what = f'attempt {k} ({"after " + str([(x["err"] or ["ok"])[0] for x in done[:k]]) if k else "first"}) on {sorted(states[state[k]])}, listing {a["listing"]}, directories {a["dirs"]}, faults fired {[f for f in o["fired"] if f[2] >= 0][:5]}, ' \
               f'cut {o["cut"]}, ended {o["err"] or "normally"}'
        after = o['out']
        s1 = {x: b for x, b in after.items() if (x + '/').startswith('Schemas/')}
        s0 = {**{x: b for x, b in extra.items() if (x + '/').startswith('Schemas/')}, **{os.path.join('Schemas', x): b for x, b in states[state[k]].items()}}
        if s1 != s0:
            viol.append(['source-changed', f'{what}: {diff(s0, s1)}'])
        if 'Out/keep.txt' in extra and after.get('Out/keep.txt') != b'precious':
            viol.append(['other-file', f'{what}: an unrelated file in the output directory was changed'])
        if o['handles']:
            viol.append(['handle-open', f'{what}: {o["handles"]}'])
        outs = {x: b for x, b in after.items() if not (x + '/').startswith('Schemas/') and x != 'Out/keep.txt'}
        if o['err'] is None:
            bump('attempts that ended normally')
            if w[0] != 'ok':
                viol.append(['success-where-impossible', f'{what}: an uninterrupted run raises {w}'])
            elif outs != good:
                viol.append(['diverged', f'{what}: {diff(good, outs)}'])
            if hard:
                viol.append(['swallowed', f'{what}: ended normally although {hard} was reported by the system'])
        elif not o.get('killed'):
            if not o['cut'] and not hard and w[0] == 'ok':
                viol.append(['not-converging', f'{what}: nothing failed'])
        shape.append([[f for f in o['fired'] if f[2] >= 0], o['cut'] and o['cut'].split(':')[0], a['listing'], (o['err'] or ['ok'])[0], bool(a['edit'])])
    return {'viol': viol, 'stats': st, 'log': digest([shape, viol, [w[0] for w in want], [[x if len(x) < 2 else x[:2] for x in o['trace']] for o in done],
                                                      [(o['err'], {x: b and digest(b.hex()) for x, b in o['out'].items()}) for o in done]]), 'cov': [digest([shape, plan['was'], len(S)])[:12]]}


def diff(a, b):
    for x in sorted(set(a) | set(b)):
        if x not in b:
            return f'{x} is missing'
        if x not in a:
            return f'{x} is there but should not be'
        if a[x] != b[x]:
            from .c06 import where
            return f'{x}: {where(a[x] or b"", b[x] or b"")}'


def incomplete(files, schemas, out):
    names = {'Out', 'Out/css', 'Out/css/dtheme.css'} | {f'Out/{os.path.splitext(f)[0]}{x}' for f in files for x in SUFFIX}
    if names - set(out):
        return f'not written: {sorted(names - set(out))}'
    try:
        with real['open'](os.path.join(PKG, 'data', 'dtheme.css'), 'rb') as f:
            if f.read() != out['Out/css/dtheme.css']:
                return 'dtheme.css is not a copy'
    except OSError as e:
        raise Harness(str(e))
    for stem in sorted({os.path.splitext(f)[0] for f in files}):
        if stem.endswith('-core') and stem[:-5] in {os.path.splitext(f)[0] for f in files}:
            continue
        r = run_forked(_read, (out[f'Out/{stem}.jadn'],), 30)
        cand = [schemas[f] for f in files if os.path.splitext(f)[0] == stem]
        if r[0] != 'ok' or norm(r[1]) not in [norm(c) for c in cand]:
            return f'{stem}.jadn does not hold the schema of {stem}: {str(r)[:300]}'


def _read(b):
    import jadn
    return jadn.loads(b.decode('utf8'))


def lists(plan):
    yield ('attempts',)
    yield ('srcs',)
    for k in range(len(plan['attempts'])):
        yield ('attempts', k, 'faults')


def simpler(plan):
    from ..shrink import schema_simpler
    for k, a in enumerate(plan['attempts']):
        for x, v in (('chunk', 0), ('eintr', 0), ('bufsize', None), ('cut', None), ('dirs', 'abs'), ('listing', 'sorted'), ('edit', None), ('hs', 0), ('tz', 'UTC'), ('clock', 0.0), ('locale', 'utf-8'), ('crash', 'process'), ('fresh', True)):
            if a[x] != v:
                n = copy.deepcopy(plan)
                n['attempts'][k][x] = v
                yield n
    for x, v in (('was', 'none'), ('extra', None)):
        if plan[x] != v:
            yield {**plan, x: v}
    for k in range(len(plan['schemas'])):
        for s in schema_simpler(plan['schemas'][k]):
            yield {**plan, 'schemas': [s if j == k else x for j, x in enumerate(plan['schemas'])]}


def valid(plan):
    return bool(plan['attempts']) and bool(plan['srcs']) and all(not a['edit'] or a['edit'][0] < len(plan['srcs']) for a in plan['attempts'])
