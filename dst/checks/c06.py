"""C06: saving reports success only when the complete document is on disk."""
import copy
import gc
import os
import pickle
import shutil
import tempfile

from .. import gen, inject, tools
from ..base import digest, scrub
from ..node import run_forked
from ..seams import W, real, set_env
from ..work import safe, variant
from .common import Harness, Lost, need

PROP = 'C06'
POINTS = True
RUNS = {'quick': 9000, 'thorough': 120000}
REAL = ['jadn.core.dump', 'jadn.convert (jidl_dump, html_dump, markdown_dump, diagram_dump)', 'jadn.translate.json_schema_dump', 'jadn.transform', 'io buffering and text layers']
STUB = ['raw file layer (simulated full disk, I/O errors, failing open and close, short and interrupted writes, kill)', 'clock', 'interrupts and allocation failures (placed by the simulator)']
RULE = 'a run in which at least one fault hit a file operation of a save, or a save wrote over left-over contents'
MEASURE = 'distinct histories of saves: (format, buffer size, faults that fired at which operation, cut, outcome, left-over kind)'
CLOCK = 1.7e9
OPENK = ['EACCES', 'ENOSPC', 'EMFILE', 'EIO', 'EROFS', 'ENOENT', 'KILL']
WRITEK = ['ENOSPC', 'ENOSPC', 'EIO', 'EDQUOT', 'ESTALE', 'SHORT', 'KILL']
CLOSEK = ['EIO', 'ENOSPC', 'EDQUOT', 'ESTALE', 'KILL']


def gen_faults(r):
    out = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        op = r.choice(['open-w', 'write', 'write', 'write', 'close', 'close', 'replace', 'fsync'] if r.random() < .2 else ['open-w', 'write', 'write', 'write', 'close'])
        kind = r.choice(OPENK if op == 'open-w' else WRITEK if op == 'write' else CLOSEK)
        f = {'op': op, 'n': r.choice([0, 0, 0, 1, 1, 2, 3, 5, 9, 20, 50]) if op == 'write' else 0, 'kind': kind, 'part': r.choice([0, 30, 50, 99])}
        if op == 'write' and kind in ('ENOSPC', 'EDQUOT', 'EIO') and r.random() < .5:
            f['sticky'] = True
        out.append(f)
    return out


def gen_plan(r, i, tier):
    s = gen.gen_schema(r, ntypes=r.choice([1, 2, 4, 8, 20, 40]), docs=True, hard=r.random() < .6)
    schemas = [s]
    if r.random() < .5:
        schemas.append(variant(s, r) if r.random() < .5 else gen.gen_schema(r, ntypes=r.choice([1, 3, 12]), docs=True, hard=True))
    if r.random() < .1:
        schemas.append(tools.broken(s, r))
    files = []
    pinned = [tools.gen_dump(r) for _ in range(r.choice([1, 1, 2, 3]))]
    for k in range(r.choice([1, 1, 2, 3])):
        files.append({'name': r.choice(['out', 'sub dir/out', '\u00e9t\u00e9', 'a.b']) + str(k), 'was': r.choice(['none', 'none', 'longer', 'shorter', 'junk', 'empty', 'old', 'dir' if r.random() < .1 else 'none',
                      'noparent' if r.random() < .1 else 'longer'])})
    tries = []
    for _ in range(r.choice([1, 2, 3, 5])):
        k = r.randrange(len(files))
        tries.append({'d': copy.deepcopy(r.choice(pinned)), 's': r.randrange(len(schemas)), 'f': k, 'faults': gen_faults(r), 'chunk': r.choice([0, 0, 1, 7, 100, 4096]), 'seed': r.randrange(1 << 30),
                      'eintr': r.choice([0, 0, 0, .2]), 'bufsize': r.choice([None, None, 16, 64, 500]), 'how': r.choice(['abs', 'abs', 'bytes', 'rel']),
                      'cut': [r.choice(['interrupt', 'memory', 'stack']), r.random()] if r.random() < .12 else None})
    for k in sorted({t['f'] for t in tries}):
        if r.random() < .8:
            last = [t for t in tries if t['f'] == k][-1]
            tries.append({**copy.deepcopy(last), 'faults': [], 'cut': None})
    plan = {'schemas': schemas, 'files': files, 'tries': tries}
    return plan if safe(plan) else gen_plan(r, i, tier)


def path_of(d, plan, t):
    return os.path.join(d, plan['files'][t['f']]['name'] + '.' + tools.EXTN[t['d'][0]])


def text_of(dmp, schema):
    """The document a save is to hold, without its header, from the function that makes it as a string."""
    import jadn
    from jadn import convert, transform, translate
    f, src, a = dmp
    if f == 'jadn':
        return jadn.dumps(schema, strip=a)
    if f == 'core':
        return jadn.dumps(transform.unfold_extensions(transform.strip_comments(schema)), strip=a)
    if f == 'jidl':
        return convert.jidl_dumps(schema, a) if a else convert.jidl_dumps(schema)
    if f == 'html':
        return convert.html_dumps(schema)
    if f == 'proto':
        return convert.proto_dumps(schema, a)
    if f == 'jas':
        return convert.jas_dumps(schema)
    if f == 'md':
        return convert.markdown_dumps(schema)
    if f == 'diagram':
        return convert.diagram_dumps(schema, a) if a else convert.diagram_dumps(schema)
    return translate.json_schema_dumps(schema, *a)


def _expect1(dmp, schema, path, cuts):
    """Fault-free save of a pristine process -> ('ok', bytes, document text, interruption points) or ('err', type)."""
    n = 0
    try:
        if cuts:
            inj, o = inject.cut(tools.run_dump, 'count', 0, dmp, copy.deepcopy(schema), path)
            if o[0] == 'err':
                raise o[1]
            n = inj.count
        else:
            tools.run_dump(dmp, copy.deepcopy(schema), path)
    except Exception as e:
        return ('err', type(e).__name__)
    with real['open'](path, 'rb') as f:
        b = f.read()
    return ('ok', b, text_of(dmp, copy.deepcopy(schema)), n)


def _expect(jobs, scratch):
    set_env('UTC', CLOCK, 4242, 0)
    return [run_forked(_expect1, (dmp, s, f'{scratch}/x{k}', cuts), 30) for k, (dmp, s, cuts) in enumerate(jobs)]


def snapshot(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for x in fs:
            q = os.path.join(p, x)
            with real['open'](q, 'rb') as f:
                out[os.path.relpath(q, d)] = f.read()
        for x in ds:
            out[os.path.relpath(os.path.join(p, x), d)] = None
    return out


def _process(plan, d, start, points, log):
    """One simulated process: tries from `start` on, until the end or until it is killed."""
    from .. import vfs
    set_env('UTC', CLOCK, 4242, 0, cwd=d)
    out = []
    schemas = [copy.deepcopy(s) for s in plan['schemas']]
    for k in range(start, len(plan['tries'])):
        t = plan['tries'][k]
        path = path_of(d, plan, t)
        arg = os.fsencode(path) if t['how'] == 'bytes' else os.path.relpath(path) if t['how'] == 'rel' else path
        fs = vfs.FS(d, t['faults'], t['chunk'], t['seed'], t['eintr'])
        fs.bufsize = t['bufsize']

        def killed():
            with real['open'](log, 'wb') as f:
                pickle.dump((out, {'fired': fs.fired, 'trace': fs.trace}), f)
        fs.on_kill = killed
        W.fs = fs
        cut = None
        err = None
        try:
            if t['cut']:
                kind, x = t['cut']
                n = int(x * 40) if kind == 'stack' else int(x * (points[k] or 1))
                inj, o = inject.cut(tools.run_dump, kind, n, t['d'], schemas[t['s']], arg)
                cut = inj.fired
                if o[0] == 'err':
                    raise o[1]
            else:
                tools.run_dump(t['d'], schemas[t['s']], arg)
        except BaseException as e:      # noqa: the cut may be a KeyboardInterrupt
            err = (type(e).__name__, scrub(str(e))[:200])
            handles = fs.open_handles()
        else:
            handles = fs.open_handles()
        if cut:         # cut between open() and the with statement: the file object goes with the frame
            inj = o = None
            gc.collect()
            handles = fs.open_handles()
        W.fs = None
        out.append({'err': err, 'fired': fs.fired, 'trace': fs.trace, 'handles': [os.path.basename(h) for h in handles], 'cut': cut, 'snap': snapshot(d)})
    return out


def run(plan):
    base = os.path.realpath(tempfile.mkdtemp(prefix='dst-c06-'))
    try:
        return _run(plan, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _run(plan, base):
    d, scratch, log = base + '/disk', base + '/scratch', base + '/log'
    os.mkdir(d)
    os.mkdir(scratch)
    viol, st, shape = [], {}, []

    def bump(k, n=1):
        st[k] = st.get(k, 0) + n
    T = plan['tries']
    # what each save is to give
    keys, jobs = {}, []
    for t in T:
        kk = repr((t['d'], t['s']))
        if kk not in keys:
            keys[kk] = len(jobs)
            jobs.append([t['d'], plan['schemas'][t['s']], False])
        if t['cut'] and t['cut'][0] != 'stack':
            jobs[keys[kk]][2] = True
    exp = need(run_forked(_expect, (jobs, scratch), 200))
    if any(e[0] != 'ok' for e in exp):
        raise Lost(str([e[:2] for e in exp if e[0] != 'ok'])[:300])
    want = [exp[keys[repr((t['d'], t['s']))]][1] for t in T]
    for (dmp, s, _), e in zip(jobs, exp):
        if e[1][0] == 'ok':
            bad = incomplete(dmp, e[1][1], e[1][2])
            if bad:
                viol.append(['incomplete', f'fault-free save {dmp}: {bad}'])
    # the disk before
    for k, f in enumerate(plan['files']):
        p = os.path.join(d, f['name'])
        if f['was'] != 'noparent':
            os.makedirs(os.path.dirname(p), exist_ok=True)
    for j, t in enumerate(T):
        p = path_of(d, plan, t)
        was = plan['files'][t['f']]['was']
        if os.path.exists(p) or not os.path.isdir(os.path.dirname(p)):
            continue
        if was == 'dir':
            os.mkdir(p)
        elif was not in ('none', 'noparent'):
            w = want[j][1] if want[j][0] == 'ok' else b'x' * 100
            with real['open'](p, 'wb') as f:
                f.write({'longer': w + b'\ntail of an older, longer document\n' * 20, 'shorter': w[:len(w) // 2], 'junk': b'\x00\xff\xfe junk' * 30, 'empty': b'', 'old': w}[was])
    for x in ('keep.txt', 'out0.bak', 'out0.tmp', 'out0'):
        p = os.path.join(d, x)
        if not os.path.exists(p):
            with real['open'](p, 'wb') as f:
                f.write(b'precious ' + x.encode())
    # the processes
    done, kills = [], 0
    before = snapshot(d)
    first = before
    while len(done) < len(T):
        start = len(done)
        if os.path.exists(log):
            os.unlink(log)
        r = run_forked(_process, (plan, d, start, [w[3] if w[0] == 'ok' else 0 for w in want], log), 60 * plan.get('patience', 1))
        if r[0] == 'ok':
            done += r[1]
        elif r[0] == 'exit' and r[1] == 77 and os.path.exists(log):
            with real['open'](log, 'rb') as f:
                out, at = pickle.load(f)
            done += out + [{'err': ('KILL', ''), 'killed': True, 'fired': at['fired'], 'trace': at['trace'], 'handles': [], 'cut': None, 'snap': snapshot(d)}]
            kills += 1
        elif r[0] in ('timeout', 'nozygote'):
            raise Lost(str(r))
        elif r[0] == 'exit':
            viol.append(['process-died', f'status {r[1]} at try {start} or later'])
            break
        else:
            raise Harness(str(r)[:2000])
    junk = set()
    for k, (t, o) in enumerate(zip(T, done)):
        rel = os.path.relpath(path_of(d, plan, t), d)
        was = plan['files'][t['f']]['was']
        w = want[k]
        err_faults = [f for f in o['fired'] if f[0] not in ('SHORT', 'EINTR', 'short-write', 'short-read', 'KILL')]
        for f in o['fired']:
            bump(f'fault:{f[0]} at {f[1]}')
        if o['fired'] or o['cut']:
            st['nontrivial'] = 1
        if o['cut']:
            bump(f'fault:{o["cut"].split("@")[0]} during save')
        if rel in before and before[rel] is not None and before[rel] != b'':
            bump('saves over earlier contents')
            st['nontrivial'] = 1
        bump('saves')
        what = f'try {k} {t["d"]} schema {t["s"]} -> {rel} (was {was}), faults fired {[f for f in o["fired"] if f[2] >= 0][:5]}, cut {o["cut"]}, operations {[x for x in o["trace"]][:6]}'
        after = o['snap']
        if o['err'] is None:
            bump('saves that returned')
            if w[0] != 'ok':
                viol.append(['success-where-impossible', f'{what}: a pristine save raises {w[1]}'])
            elif after.get(rel) != w[1]:
                got = after.get(rel)
                viol.append(['incomplete', f'{what}: returned, but the file holds {len(got) if got is not None else None} bytes instead of {len(w[1])}: {where(w[1], got)}'])
            if err_faults:
                viol.append(['swallowed', f'{what}: returned although {err_faults} was reported by the system'])
        elif not o.get('killed') and not o['cut'] and not err_faults and w[0] == 'ok' and was not in ('dir', 'noparent'):
            viol.append(['spurious-failure', f'{what}: raised {o["err"]} although nothing failed'])
        if o['handles']:
            viol.append(['handle-open', f'{what}: still open after the call: {o["handles"]}'])
        for x in sorted(set(before) | set(after)):
            if x == rel or x in junk:
                continue
            if x not in before:
                if o.get('killed'):
                    junk.add(x)
                    continue
                viol.append(['other-file', f'{what}: {x} appeared'])
            elif x not in after or before[x] != after[x]:
                viol.append(['other-file', f'{what}: {x} was {"changed" if x in after else "removed"}'])
        shape.append([t['d'][0], t['bufsize'], [f for f in o['fired'] if f[2] >= 0], o['cut'], (o['err'] or ['ok'])[0], was])
        before = after
    st['kills'] = kills
    return {'viol': viol, 'stats': st, 'log': digest([shape, viol, [o['trace'] for o in done], [(o['err'], {a: b and digest(b.hex()) for a, b in o['snap'].items()}) for o in done]]), 'cov': [digest(shape)[:12]]}


def incomplete(dmp, b, doc):
    """Is this file the document, perhaps after a header?"""
    try:
        text = b.decode('utf8')
    except UnicodeDecodeError as e:
        return f'not UTF-8: {e}'
    if dmp[1]:
        head, sep, text = text.partition('\n\n')
        if not sep or dmp[1] not in head:
            return f'no header naming the source: {head[:200]!r}'
    if text not in (doc, doc + '\n'):
        return f'holds {len(text)} characters, the document has {len(doc)}: {where(doc.encode(), text.encode())}'


def where(a, b):
    if b is None:
        return 'no file'
    k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    return f'differ at byte {k}: {a[max(0, k - 20):k + 40]!r} / {b[max(0, k - 20):k + 40]!r}'


def lists(plan):
    yield ('tries',)
    for k in range(len(plan['tries'])):
        yield ('tries', k, 'faults')


def simpler(plan):
    from ..shrink import schema_simpler
    for k, t in enumerate(plan['tries']):
        for x, v in (('chunk', 0), ('eintr', 0), ('bufsize', None), ('cut', None), ('how', 'abs')):
            if t[x] != v:
                n = copy.deepcopy(plan)
                n['tries'][k][x] = v
                yield n
        if t['d'][1]:
            n = copy.deepcopy(plan)
            n['tries'][k]['d'][1] = ''
            yield n
    for k in range(len(plan['schemas'])):
        for s in schema_simpler(plan['schemas'][k]):
            yield {**plan, 'schemas': [s if j == k else x for j, x in enumerate(plan['schemas'])]}
    for k, f in enumerate(plan['files']):
        if f['was'] != 'none':
            n = copy.deepcopy(plan)
            n['files'][k]['was'] = 'none'
            yield n


def valid(plan):
    return bool(plan['tries'])
