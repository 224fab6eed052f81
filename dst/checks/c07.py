"""C07: a conversion that fails leaves the existing output file intact."""
import copy
import os
import shutil
import sys
import tempfile

from .. import gen, inject, tools
from ..base import digest, scrub
from ..node import run_forked
from ..seams import W, real, set_env
from ..work import safe
from .c06 import snapshot, text_of
from .common import need

PROP = 'C07'
POINTS = True
RUNS = {'quick': 8000, 'thorough': 120000}
REAL = ['jadn.core.dump', 'jadn.convert (jidl_dump, html_dump, markdown_dump, diagram_dump, proto_dump, jas_dump)', 'jadn.translate.json_schema_dump', 'jadn.transform']
STUB = ['asynchronous interrupts, allocation failures and stack exhaustion (placed by the simulator)', 'raw file layer', 'clock']
RULE = 'a run in which at least one conversion failed or was cut while an output path was given'
MEASURE = 'distinct (format, defect or cut place, exception, earlier contents) outcomes per run'
CLOCK = 1.7e9


def damage(s, r):
    """A schema that some or all formats cannot be made from."""
    k = r.choice(['broken', 'broken', 'semantic', 'semantic', 'surrogate', 'surrogate', 'raw', 'raw', 'raw', 'value', 'late', 'late', 'style'])
    if k == 'broken':
        return tools.broken(s, r), None
    s = copy.deepcopy(s)
    if k == 'semantic':
        for _ in range(r.choice([1, 1, 2])):
            try:
                s = tools.semantic(s, r)
            except Exception:       # a definition cut short by the damage before
                break
        return s, None
    ts = [t for t in s['types'] if len(t) > 4]
    t = r.choice(ts[-3:] if k == 'late' and ts else ts) if ts else None
    if t is None:
        return s, None
    f = r.choice(t[4][-2:] if k == 'late' else t[4]) if t[4] else None
    if k == 'surrogate':
        x = r.random()
        bad = r.choice(['bad \ud800 text', '\udcff', 'x\udfff'])
        if x < .4 or not f:
            t[3] = bad
        elif x < .8:
            f[-1] = bad
        elif x < .9:
            s.setdefault('info', {'package': 'http://example.com/x'})['title'] = bad
        elif t[1] == 'Enumerated':
            f[1] = bad
        else:
            f[1] = 'a' + bad[-1]
    elif k in ('raw', 'late'):
        x = r.random()
        if x < .25 or not f:
            t[r.choice([1, 2, 3, 4])] = r.choice([None, 7, {}, 'x', ['q', 3], [[]], True])
        elif x < .35:
            del t[r.choice([1, 2, 3]):]
        elif x < .85:
            f[r.randrange(len(f))] = r.choice([None, {}, [], ['?'], 7, '', ['[x'], [']'], ['}x'], 'MapOf', 'No:Such', ['+'], ['*'], ['&99'], [None]])
        else:
            del f[r.choice(range(1, len(f))):]
    elif k == 'value':
        i = s.setdefault('info', {'package': 'http://example.com/x'})
        i[r.choice(['title', 'exports', 'config', 'roots', 'namespaces', 'other'])] = r.choice([None, 3, {'a': [1, {}]}, [None, 7], {'$MaxString': 'x'}, [[]]])
        if r.random() < .3:
            del s['types']
        elif r.random() < .3:
            s['types'] = r.choice([None, {}, 3, [None], [[]], [['A']]])
    elif k == 'style':
        return s, r.choice([{'format': 'nope'}, {'detail': 'nope'}, {'desc': 'x'}, {'name': None}, {'format': None}, {'page': []}, {'detail': 5, 'format': 'plantuml'}])
    return s, None


def gen_plan(r, i, tier):
    s = gen.gen_schema(r, ntypes=r.choice([1, 2, 3, 6, 12]), docs=True, hard=r.random() < .6)
    pinned = [tools.gen_dump(r) if r.random() < .95 else ['jas', '', None] for _ in range(r.choice([1, 2, 3]))]
    tries = []
    for _ in range(r.choice([2, 4, 6])):
        t = {'d': copy.deepcopy(r.choice(pinned) if r.random() < .6 else tools.gen_dump(r)), 's': copy.deepcopy(s), 'was': r.choice(['old', 'longer', 'tiny', 'empty', 'none', 'longer']), 'cut': None, 'bufsize': r.choice([None, None, 16, 200]),
             'how': r.choice(['abs', 'bytes', 'rel'])}
        if r.random() < .62:
            t['s'], style = damage(s, r)
            if style and t['d'][0] in ('diagram', 'jidl'):
                t['d'][2] = {**(t['d'][2] or {}), **style}
        elif r.random() < .06:      # A source named by bytes that are no text (see os.fsdecode)
            t['d'][1] = r.choice(['caf\udce9.jadn', 'x\ud800'])
        else:
            t['cut'] = [r.choice(['interrupt', 'memory', 'stack']), r.random()]
        tries.append(t)
    plan = {'tries': tries}
    return plan if safe(plan) else gen_plan(r, i, tier)


def _measure1(t, path):
    """What a pristine process does: -> {'doc': outcome of making the document, 'n0': points in it, 'open': points before the output is opened}."""
    from .. import vfs
    inj, o = inject.cut(text_of, 'count', 0, t['d'], copy.deepcopy(t['s']))
    n0 = inj.count
    doc = ('ok',) if o[0] == 'ok' else ('err', type(o[1]).__name__)
    if isinstance(o[1], str):
        try:
            (t['d'][1] + o[1]).encode('utf8')
        except UnicodeEncodeError:
            doc = ('err', 'UnicodeEncodeError')
    fs = vfs.FS(os.path.dirname(path))
    at = []
    hit = fs.hit

    def note(op, p):
        if op == 'open-w' and not at:
            at.append(inject.S.now.count)
        return hit(op, p)
    fs.hit = note
    W.fs = fs
    inject.cut(tools.run_dump, 'count', 0, t['d'], copy.deepcopy(t['s']), path)
    W.fs = None
    return {'doc': doc, 'n0': n0, 'open': at[0] if at else None}


def _measure(plan, scratch):
    set_env('UTC', CLOCK, 4242, 0)
    out = []
    for k, t in enumerate(plan['tries']):
        out.append(run_forked(_measure1, (t, f'{scratch}/m{k}.{tools.EXTN[t["d"][0]]}'), 30))
    return out


def _stack_need(t):
    """Fewest stack frames the document alone needs, or None."""
    lo, hi = 0, 400
    while lo < hi:
        mid = (lo + hi) // 2
        inj, o = inject.cut(text_of, 'stack', mid, t['d'], copy.deepcopy(t['s']))
        if inj.fired:
            lo = mid + 1
        else:
            hi = mid
    return lo


def _process(plan, d, cuts):
    from .. import vfs
    set_env('UTC', CLOCK, 4242, 0, cwd=d)
    out = []
    for k, t in enumerate(plan['tries']):
        path = os.path.join(d, f'out{k}.{tools.EXTN[t["d"][0]]}')
        arg = os.fsencode(path) if t['how'] == 'bytes' else os.path.relpath(path) if t['how'] == 'rel' else path
        fs = vfs.FS(d)
        fs.bufsize = t['bufsize']
        before = snapshot(d)
        if cuts[k]:
            kind, n = cuts[k]
            if kind == 'stack':
                need_ = _stack_need(t)
                if need_ < 4:
                    out.append(None)
                    continue
                n = int(n * (need_ - 3))
            W.fs = fs
            inj, o = inject.cut(tools.run_dump, kind, n, t['d'], copy.deepcopy(t['s']), arg)
        else:
            W.fs = fs
            inj, o = None, None
            try:
                tools.run_dump(t['d'], copy.deepcopy(t['s']), arg)
                o = ('ok', None)
            except Exception as e:
                o = ('err', e)
        W.fs = None
        err = None if o[0] == 'ok' else (type(o[1]).__name__, scrub(str(o[1]))[:200])
        out.append({'err': err, 'cut': inj.fired if inj else None, 'before': before, 'after': snapshot(d), 'ops': fs.trace[:6]})
    return out


def run(plan):
    base = os.path.realpath(tempfile.mkdtemp(prefix='dst-c07-'))
    d, scratch = base + '/disk', base + '/scratch'
    os.mkdir(d)
    os.mkdir(scratch)
    viol, st, shape = [], {}, []

    def bump(k, n=1):
        st[k] = st.get(k, 0) + n
    try:
        T = plan['tries']
        m = [need(x) for x in need(run_forked(_measure, (plan, scratch), 200))]
        cuts = []
        for k, (t, x) in enumerate(zip(T, m)):
            c = None
            if t['cut']:
                kind, frac = t['cut']
                if kind == 'stack':
                    c = [kind, frac]
                else:
                    # interruption points that lie inside the rendering, whatever the order of opening and rendering
                    top = x['open'] if x['open'] is not None and x['open'] >= .8 * x['n0'] else int(.85 * x['n0'])
                    c = [kind, int(frac * max(top, 1))] if top > 1 else None
            cuts.append(c)
            old = {'old': b'the earlier document\n', 'longer': b'earlier document, line\n' * 3000, 'tiny': b'x', 'empty': b''}.get(t['was'])
            if old is not None:
                with real['open'](os.path.join(d, f'out{k}.{tools.EXTN[t["d"][0]]}'), 'wb') as f:
                    f.write(old)
        with real['open'](os.path.join(d, 'keep.txt'), 'wb') as f:
            f.write(b'precious')
        out = need(run_forked(_process, (plan, d, cuts), 60 * plan.get('patience', 1)))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for k, (t, x, o) in enumerate(zip(T, m, out)):
        if o is None:
            continue
        rel = f'out{k}.{tools.EXTN[t["d"][0]]}'
        bump('conversions')
        what = f'try {k} {t["d"]} over {t["was"]}: cut {o["cut"]}, raised {o["err"]}, operations {o["ops"]}'
        if o['cut']:
            bump(f'fault:{o["cut"].split("@")[0]} while rendering {t["d"][0]}')
        elif o['err']:
            bump(f'fault:unconvertible schema for {t["d"][0]}')
        shape.append([t['d'][0], o['cut'], o['err'] and o['err'][0], t['was']])
        if o['err'] is None:
            if x['doc'][0] == 'err' and not o['cut']:
                viol.append(['success-where-impossible', f'{what}: the document cannot be made ({x["doc"][1]}), yet the save returned'])
            continue
        st['nontrivial'] = 1
        bump('failed conversions')
        b, a = o['before'], o['after']
        for n in sorted(set(a) | set(b)):
            if n not in a:
                viol.append(['file-lost', f'{what}: {n} is gone'])
            elif n not in b:
                viol.append(['partial-file', f'{what}: new file {n} holding {len(a[n] or b"")} bytes'])
            elif a[n] != b[n]:
                viol.append(['contents-lost', f'{what}: {n} had {len(b[n])} bytes, now {len(a[n])}'])
    return {'viol': viol, 'stats': st, 'log': digest([shape, viol, [o and (o['err'], o['ops']) for o in out]]), 'cov': [digest(shape)[:12]]}


def lists(plan):
    yield ('tries',)


def simpler(plan):
    for k, t in enumerate(plan['tries']):
        for x, v in (('bufsize', None), ('how', 'abs'), ('was', 'old')):
            if t[x] != v:
                n = copy.deepcopy(plan)
                n['tries'][k][x] = v
                yield n
        ts = t['s'].get('types') if isinstance(t['s'], dict) else None
        if isinstance(ts, list):
            for j in range(len(ts) - 1, -1, -1):
                n = copy.deepcopy(plan)
                del n['tries'][k]['s']['types'][j]
                yield n


def valid(plan):
    return bool(plan['tries'])
