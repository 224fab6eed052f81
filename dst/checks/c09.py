"""C09: import resolution is order-independent, self-contained and fault-honest."""
import contextlib
import copy
import io
import os
import re
import shutil
import tempfile

from .. import gen
from ..base import canon, digest, scrub
from ..node import Cluster, run_forked
from ..seams import W, real, set_env
from ..work import safe
from .common import Harness, Lost, need

PROP = 'C09'
RUNS = {'quick': 3500, 'thorough': 60000}
REAL = ['jadn.transform.resolve', 'jadn.core (load_any, check)', 'jadn.utils.build_deps', 'jadn.convert.jidl (package files)', 'io buffering and text layers', 'CPython hash randomisation']
STUB = ['directory listing order', 'raw file layer (read errors, failing open, failing directory listing, short and interrupted transfers)', 'storage damage to package files', 'clock, zone, default encoding']
RULE = 'a run in which a type of another package was resolved, or a fault or damage hit a package file'
MEASURE = 'distinct (package graph shape, listing orders, faults fired, damage, outcomes) per run'
BUILTIN = {'Binary', 'Boolean', 'Integer', 'Number', 'String', 'Enumerated', 'Choice', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record'}
IDS = ['x', 'b2', 'common', 'Ext', 'n1']
CL = None


def setup():
    global CL
    CL = Cluster(['jadn.codec', 'jadn.convert', 'jadn.transform', 'dst.checks.c09', 'dst.checks.c12'])


def teardown():
    CL.close()


def ns(k):
    return f'http://example.com/{"abcdefgh"[k]}/v1'


def gen_graph(r):
    n = r.choice([1, 2, 2, 3, 3, 4, 6])
    edges = set()
    shape = r.choice(['chain', 'star', 'cycle', 'random', 'random', 'diamond', 'pair'])
    for k in range(n):
        if shape == 'chain' and k + 1 < n:
            edges.add((k, k + 1))
        if shape == 'star' and k:
            edges.add((0, k))
        if shape == 'cycle' and n > 1:
            edges.add((k, (k + 1) % n))
        if shape == 'pair' and k:
            edges |= {(k - 1, k), (k, k - 1)}
        if shape == 'diamond' and k:
            edges.add((0 if k < n - 1 else 1, k))
            if k < n - 1 and n > 2:
                edges.add((k, n - 1))
        if shape == 'random':
            edges |= {(k, j) for j in range(n) if j != k and r.random() < .45}
    return n, edges


def gen_plan(r, i, tier):
    n, edges = gen_graph(r)
    unq = r.random() < .15      # unqualified imports: all names are different
    pk = []
    style = r.choice(['own', 'shared', 'mixed'])      # one id per target, or ids picked by each importer
    for k in range(n):
        s = gen.gen_schema(r, ntypes=r.choice([1, 2, 3, 5]), docs=r.random() < .5, hard=r.random() < .3)
        s['info'] = {**s.get('info', {}), 'package': ns(k)}
        s['info'].pop('config', None)
        if unq:
            rename(s, 'ABCDEFGH'[k])
        pk.append(s)
    for k, s in enumerate(pk):
        out = sorted(j for a, j in edges if a == k)
        ids = r.sample(IDS, len(out))
        s['info'].pop('namespaces', None)
        if out:
            s['info']['namespaces'] = {('abcdefgh'[j] + 'ns' if style == 'own' or style == 'mixed' and r.random() < .5 else d): ns(j) for j, d in zip(out, ids)}
        names = [t[0] for t in s['types']]
        s['info']['exports'] = sorted(r.sample(names, r.randrange(1, min(3, len(names)) + 1)))
        link(s, pk, r, unq)
    files = []
    for k in range(n):
        files.append({'name': r.choice(['', 'm', 'z']) + 'abcdefgh'[k] + r.choice(['', '-v1', '.x']), 'ext': r.choice(['.jadn', '.jadn', '.jidl']), 's': k, 'damage': None})
    if r.random() < .2:     # a second file for a package
        k = r.randrange(n)
        s = copy.deepcopy(pk[k])
        s['types'].append(['Zulu9', 'Boolean', [], '', []])
        pk.append(s if r.random() < .6 else copy.deepcopy(pk[k]))
        files.append({'name': 'dup', 'ext': r.choice(['.jadn', '.jidl']), 's': len(pk) - 1, 'damage': None})
    if r.random() < .25:
        from .c12 import gen_damage
        r.choice(files)['damage'] = [gen_damage(r)]
    for x in (['.html', '.txt', '.json', '.jadn~', ''] if r.random() < .3 else []):
        if r.random() < .5:
            files.append({'name': 'other', 'ext': x, 's': None, 'damage': None})
    roots = {}
    calls = []
    for _ in range(r.choice([2, 3, 3, 5])):
        k = 0 if r.random() < .7 else r.randrange(n)
        faults = []
        if r.random() < .3:
            op = r.choice(['open-r', 'read', 'read', 'listdir'])
            faults = [{'op': op, 'n': 0 if op == 'listdir' else r.randrange(8), 'kind': r.choice(['EIO', 'EACCES', 'EMFILE'] if op != 'read' else ['EIO', 'ESTALE', 'SHORT']), 'part': 30}]
        calls.append({'root': k, 'hs': r.choice([0, 1, 7]), 'fresh': r.random() < .4, 'listing': r.choice(['sorted', 'reversed', r.randrange(1000), r.randrange(1000)]), 'faults': faults, 'chunk': r.choice([0, 0, 100]),
                      'given': r.choice(['same', 'same', 'copy', 'file']), 'ed': 0, 'locale': r.choice(['utf-8', 'cp1252', 'ascii']), 'tz': r.choice(['UTC', 'America/New_York']), 'dir': r.choice(['abs', 'rel', 'slash'])})
    if r.random() < .3:     # the files are edited between calls: as long as before, and at the same place
        for c in calls[1:]:
            c['ed'] = r.choice([0, 1, 1])
    plan = {'packages': pk, 'n': n, 'files': files, 'calls': calls, 'root_in_dir': r.random() < .8, 'unq': unq}
    return plan if safe(plan) else gen_plan(r, i, tier)


def edition(s, k):
    """The schema as it is in edition k of its file."""
    s = copy.deepcopy(s)
    if s['types'] and len(s['types'][0]) > 3:
        s['types'][0][3] = f'edition {k}'
    return s


def publish(d, k):
    """Make the files those of edition k, in place."""
    for n in os.listdir(os.path.join(d, f'edition{k}')):
        with real['open'](os.path.join(d, f'edition{k}', n), 'rb') as fp:
            b = fp.read()
        p = os.path.join(d, 'packages', n)
        with real['open'](p, 'wb') as fp:
            fp.write(b)
        os.utime(p, (1.7e9 + 60 * k, 1.7e9 + 60 * k))


def rename(s, p):
    m = {t[0]: p + t[0] for t in s['types']}
    s.update(apply(s, m))


def apply(s, m):
    def ref(v):
        return v[0] + m.get(v[1:], v[1:]) if v[:1] in '#>' else m.get(v, v)

    def opts(o):
        return [x[0] + ref(x[1:]) if x[0] in '+*#>' else x for x in o]
    return {**s, 'types': [[m[t[0]], t[1], opts(t[2]), t[3], [f if t[1] == 'Enumerated' else [f[0], f[1], ref(f[2]), opts(f[3]), f[4]] for f in t[4]]] for t in s['types']]}


def link(s, pk, r, unq=False):
    """Make some references point into other packages."""
    where = {v: k for k, v in s['info'].get('namespaces', {}).items()}
    if not where:
        return
    other = [(where[p['info']['package']], p) for p in pk if p['info']['package'] in where]

    def pick(p_undef=.01):
        i, p = r.choice(other)
        return f'{i}:{r.choice(p["types"])[0] if r.random() >= p_undef else "Nope"}'

    def pick_e():
        c = [(i, t) for i, p in other for t in p['types'] if t[1] in ('Enumerated', 'Record', 'Map', 'Choice') and not any(o[0] in '#>' for o in t[2])]
        i, t = r.choice(c) if c else (None, None)
        return f'#{i}:{t[0]}' if t else pick()
    for t in s['types']:
        if t[1] == 'Enumerated':
            if r.random() < .2 and any(o[0] in '#' for o in t[2]) and not t[4]:
                t[2] = [pick_e() if o[0] == '#' else o for o in t[2]]
                t[2] = [o for o in t[2] if o[0] == '#' or o == '=']
            continue
        if t[1] in ('ArrayOf', 'MapOf') and r.random() < .4:
            t[2] = [o[0] + (pick_e() if r.random() < .2 else pick()) if o[0] == '*' else o for o in t[2]]
        used = {o[1:] for f in t[4] if len(f) > 3 for o in f[3] if o[0] == '&'}
        for f in t[4]:
            if len(f) > 3 and not f[3] and str(f[0]) not in used and r.random() < .4:
                f[2] = pick()
                if r.random() < .1:
                    f[2], f[3] = 'ArrayOf', ['*' + pick_e()]
    if r.random() < .3:
        loc = [t[0] for t in s['types'] if t[1] in ('Record', 'Map', 'Choice')]
        if loc:     # a local enumeration that refers to the fields of a type nothing else may refer to
            q = 'abcdefgh'.index(s['info']['package'][19]) if unq else 9
            s['types'].append([f'Whisky{q}', 'ArrayOf', ['*' + r.choice(['#', '#', '>']) + r.choice(loc)], '', []])
            s['types'].append([f'Xenon{q}', 'Record', [], '', [[1, 'alpha', f'Whisky{q}', [], '']]])
            if r.random() < .5:
                s['info']['exports'] = sorted(s['info']['exports'] + [f'Xenon{q}'])


def _prepare(plan, d):
    out = [_prepare_one(plan, d, k) for k in sorted({c['ed'] for c in plan['calls']} | {0})]
    for o in out:
        if o[0] != 'ok':
            return o
    os.mkdir(os.path.join(d, 'packages'))
    return ('ok', [o[1] for o in out])


def _prepare_one(plan, d, ed):
    """In a pristine process: make the files, and load each one alone."""
    from .c12 import _save, spoil
    import jadn
    set_env('UTC', 1.7e9, 4242, 0, cwd=d)
    out = []
    P = os.path.join(d, f'edition{ed}')
    os.mkdir(P)
    for k, f in enumerate(plan['files']):
        p = os.path.join(P, f['name'] + f['ext'])
        if f['s'] is None:
            b = b'not a schema'
        else:
            try:
                _save(f['ext'][1:], edition(plan['packages'][f['s']], ed), p, '', False)
            except Exception as e:
                return ('unsaved', f'{type(e).__name__} {e}')
            with real['open'](p, 'rb') as fp:
                b = fp.read()
            for dm in f['damage'] or []:
                b = spoil(b, b[::-1], dm)
        if f['s'] in range(plan['n']) and f['s'] == 0 and not plan['root_in_dir']:
            if os.path.exists(p):
                os.unlink(p)
            out.append(None)
            continue
        with real['open'](p, 'wb') as fp:
            fp.write(b)
        if f['ext'] not in ('.jadn', '.jidl'):
            out.append(None)
            continue
        try:
            with real['open'](p, encoding='utf8') as fp:
                out.append(('ok', jadn.load_any(fp)))
        except Exception as e:
            out.append(('err', type(e).__name__))
    return ('ok', out)


def process(d, plan, calls):
    from .. import vfs
    import jadn
    from jadn.transform import resolve
    out = []
    editions = [[edition(p, k) for p in plan['packages']] for k in (0, 1)]
    for c in calls:
        publish(d, c['ed'])
        schemas = editions[c['ed']]
        set_env(c['tz'], 1.7e9, 4242, 0, cwd=d, locale=c['locale'])
        s = schemas[c['root']] if c['given'] == 'same' else copy.deepcopy(schemas[c['root']])
        f = [f for f in plan['files'] if f['s'] == c['root']]
        path = os.path.join(d, 'packages', f[0]['name'] + f[0]['ext']) if f else ''
        if c['given'] == 'file' and os.path.exists(path) and not f[0]['damage']:
            with real['open'](path, encoding='utf8') as fp:
                s = jadn.load_any(fp)
        was, s0 = canon(s), copy.deepcopy(s)
        fs = vfs.FS(d, c['faults'], c['chunk'], 0, 0, c['listing'])
        W.fs = fs
        arg = {'abs': os.path.join(d, 'packages'), 'rel': 'packages', 'slash': 'packages/'}[c['dir']]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                o = ('ok', copy.deepcopy(resolve.resolve_imports(s, arg, *([tuple(IDS) + tuple('abcdefgh'[k] + 'ns' for k in range(plan['n']))] if plan['unq'] else []))))
        except Exception as e:
            o = ('err', type(e).__name__, scrub(str(e))[:300])
        h = [os.path.basename(x) for x in fs.open_handles()]
        W.fs = None
        out.append({'o': o, 'fired': [f for f in fs.fired if f[2] >= 0], 'handles': h, 'changed': canon(s) != was, 'trace': fs.trace, 's0': s0, 'was': was})
    return out


# ---------------------------------------------------------------- reference: what a resolved schema must be
def ref(v, pkg):
    """(prefix, target) of a reference in a package, target None for a built-in type."""
    p, v = (v[0], v[1:]) if v[:1] in ('#', '>') else ('', v)
    if v in BUILTIN:
        return p + v, None
    if ':' in v:
        n, t = v.split(':', 1)
        return p, (pkg['info'].get('namespaces', {}).get(n, f'?{n}'), t)
    return p, (pkg['info']['package'], v)


def places(t):
    """The references of a definition in a fixed order, and the definition without them."""
    out = []

    def opts(olist):
        for o in olist:
            if o[0] in '+*#>':
                out.append(o[1:])
        return [o[0] if o[0] in '+*#>' else o for o in olist]
    t = (list(t) + [[], '', []][len(t) - 2:]) if len(t) < 5 else t
    body = [t[1], opts(t[2]), t[3], []]
    for f in t[4]:
        if t[1] == 'Enumerated':
            body[3].append(f)
        else:
            out.append(f[2])
            body[3].append([f[0], f[1], opts(f[3]), f[4]])
    return body, out


class Missing(Exception):
    pass


def reach(root, packages):
    """Everything the exported types reach, or Missing."""
    todo = [(root['info']['package'], t) for t in root['info'].get('exports', [])]
    seen = []
    while todo:
        p, t = todo.pop()
        if (p, t) in seen:
            continue
        if p not in packages:
            raise Missing(f'package {p}')
        td = next((x for x in packages[p]['types'] if x[0] == t), None)
        if td is None:
            raise Missing(f'{t} in {p}')
        seen.append((p, t))
        todo += [x for x in (ref(v, packages[p])[1] for v in places(td)[1]) if x]
    return seen


def dangling(pkg):
    """Whether a package, as damage left it, uses a namespace that it does not define."""
    return any(x and x[0][:1] == '?' for t in pkg['types'] for x in (ref(v, pkg)[1] for v in places(t)[1]))


def judge(root, packages, got):
    """None if got is root resolved against packages, else what is wrong."""
    if set(got) != {'info', 'types'} or canon(got['info']) != canon({k: v for k, v in root['info'].items() if k != 'namespaces'}):
        return f'info is {canon(got.get("info"))[:300]}'
    names = [t[0] for t in got['types']]
    if len(set(names)) != len(names):
        return f'defines {sorted(x for x in set(names) if names.count(x) > 1)} more than once'
    have = {t[0]: t for t in got['types']}
    me = root['info']['package']
    local = {(me, t): t for t in root['info'].get('exports', [])}
    todo = list(local)
    done = set()
    while todo:
        k = todo.pop()
        if k in done:
            continue
        done.add(k)
        name = local[k]
        if name not in have:
            return f'{k[1]} of {k[0]} is missing (as {name})'
        td = next(x for x in packages[k[0]]['types'] if x[0] == k[1])
        a, ra = places(td)
        try:
            b, rb = places(have[name])
        except Exception as e:
            return f'{name} is not a definition: {type(e).__name__}'
        if canon(a) != canon(b) or len(ra) != len(rb):
            return f'definition of {name} changed: {canon(td)[:200]} | {canon(have[name])[:200]}'
        for x, y in zip(ra, rb):
            pre, t = ref(x, packages[k[0]])
            if t is None:
                if y != pre:
                    return f'in {name}: {x} became {y}'
                continue
            if not y.startswith(pre) or ':' in y:
                return f'in {name}: {x} became {y}'
            y = y[len(pre):]
            if t[0] == me and y != t[1]:
                return f'in {name}: {x} of the root package became {y}'
            if local.setdefault(t, y) != y:
                return f'in {name}: {x} became {y}, elsewhere {local[t]}'
            todo.append(t)
    if len(set(local.values())) != len(local):
        return f'different types share a name: {sorted((v, k) for k, v in local.items() if list(local.values()).count(v) > 1)}'
    if set(names) != set(local.values()):
        return f'holds types that are not reached: {sorted(set(names) - set(local.values()))}'


def run(plan):
    d = os.path.realpath(tempfile.mkdtemp(prefix='dst-c09-'))
    viol, st, shape = [], {}, []

    def bump(k, n=1):
        st[k] = st.get(k, 0) + n
    P = os.path.join(d, 'packages')
    try:
        pre = need(run_forked(_prepare, (plan, d), 60))
        if pre[0] != 'ok':
            return {'viol': [], 'stats': {'packages that cannot be saved': 1}, 'log': str(pre), 'cov': []}
        alone = pre[1]
        before = [snap(os.path.join(d, f'edition{k}')) for k in range(len(alone))]
        done = []
        C = plan['calls']
        while len(done) < len(C):
            a = len(done)
            b = a + 1
            while b < len(C) and not C[b]['fresh']:
                b += 1
            r = CL.node(C[a]['hs']).call('dst.checks.c09:process', d, plan, C[a:b], timeout=60 * plan.get('patience', 1))
            if r[0] in ('timeout', 'nozygote'):
                raise Lost(str(r))
            if r[0] == 'exit':
                viol.append(['process-died', f'status {r[1]} at call {a} or later'])
                break
            if r[0] != 'ok':
                raise Harness(str(r)[:2000])
            done += r[1]
            if snap(P) != before[C[b - 1]['ed']]:
                viol.append(['files-changed', f'calls {a} to {b - 1}'])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    known = []
    for al in alone:
        bad = [f['name'] + f['ext'] for f, x in zip(plan['files'], al) if x and x[0] == 'err']
        versions = {}
        nopkg = []
        for f, x in zip(plan['files'], al):
            if x and x[0] == 'ok':
                p = x[1].get('info', {}).get('package')
                if p is None:
                    nopkg.append(f['name'])
                versions.setdefault(p, []).append(x[1])
        known.append((bad, versions, nopkg))
    first = {}
    for f in plan['files']:
        for dm in f['damage'] or []:
            bump('fault:' + dm[0])
            st['nontrivial'] = 1
    for k, (c, o) in enumerate(zip(C, done)):
        bump('calls')
        bad, versions, nopkg = known[c['ed']]
        if k and c['ed'] != C[k - 1]['ed']:
            bump('fault:files edited between calls')
            st['nontrivial'] = 1
        for f in o['fired']:
            bump(f'fault:{f[0]} at {f[1]}')
            st['nontrivial'] = 1
        what = f'call {k} root {c["root"]} given {c["given"]} hash seed {c["hs"]} listing {c["listing"]} faults fired {o["fired"]}'
        shape.append([c['root'], c['listing'], o['fired'], o['o'][0] + (o['o'][1] if o['o'][0] == 'err' else '')])
        if o['changed']:
            viol.append(['given-changed', f'{what}: the given schema was changed'])
        if o['handles']:
            viol.append(['handle-open', f'{what}: {o["handles"]}'])
        root = o['s0']
        me = root['info']['package']
        hard = [f for f in o['fired'] if f[0] != 'SHORT']
        # the packages as they may be taken: one file for each name
        cands = [{me: root}]
        for p, v in versions.items():
            if p != me and p is not None:
                cands = [{**x, p: y} for x in cands for y in v]
        out = []
        for pkgs in cands[:16]:
            try:
                reach(root, pkgs)
                out.append(('ok', pkgs))
            except Missing as e:
                out.append(('err', str(e)))
        must_raise = hard or bad or nopkg
        if o['o'][0] == 'ok':
            bump('resolved')
            if must_raise:
                viol.append(['skipped', f'{what}: returned a schema although {hard or bad or nopkg} could not be read'])
            elif not any(x[0] == 'ok' for x in out):
                if not any(x[1].startswith('package') for x in out):
                    viol.append(['undefined', f'{what}: returned a schema although there is no {out[0][1]}'])
            elif not any(x[1].startswith('package') for x in out if x[0] == 'err'):
                js = [judge(root, x[1], o['o'][1]) for x in out if x[0] == 'ok']
                if None not in js:
                    viol.append(['wrong', f'{what}: {js[0]}'])
                if len({t for x in out if x[0] == 'ok' for t, _ in reach(root, x[1])}) > 1:
                    st['nontrivial'] = 1
                    bump('calls that reached other packages')
        else:
            bump('refused')
            if not must_raise and all(x[0] == 'ok' and not any(dangling(y) for y in x[1].values()) for x in out):
                viol.append(['refused', f'{what}: raised {o["o"]} although every package is there and sound'])
        if not hard:
            key = (o['was'], c['ed'])
            if key in first and first[key][1] != norm_o(o['o']):
                viol.append(['varies', f'{what}: not as call {first[key][0]}: {diff(first[key][1], norm_o(o["o"]))}'])
            first.setdefault(key, (k, norm_o(o['o'])))
    return {'viol': viol, 'stats': st, 'log': digest([shape, viol, [(norm_o(o['o']), o['trace']) for o in done]]), 'cov': [digest([shape, [p['info'].get('namespaces') for p in plan['packages']]])[:12]]}


def norm_o(o):
    return canon(o[1]) if o[0] == 'ok' else 'err ' + o[1]


def diff(x, y):
    k = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
    return f'...{x[max(0, k - 60):k + 100]} | ...{y[max(0, k - 60):k + 100]}'


def snap(d):
    out = {}
    for x in sorted(os.listdir(d)):
        with real['open'](os.path.join(d, x), 'rb') as f:
            out[x] = f.read()
    return out


def lists(plan):
    yield ('calls',)
    for k in range(len(plan['calls'])):
        yield ('calls', k, 'faults')


def simpler(plan):
    from ..shrink import schema_simpler
    for k, c in enumerate(plan['calls']):
        for x, v in (('faults', []), ('listing', 'sorted'), ('hs', 0), ('chunk', 0), ('given', 'copy'), ('locale', 'utf-8'), ('tz', 'UTC'), ('dir', 'abs'), ('fresh', True), ('root', 0)):
            if c[x] != v:
                n = copy.deepcopy(plan)
                n['calls'][k][x] = v
                yield n
    for k, f in enumerate(plan['files']):
        if f['damage']:
            n = copy.deepcopy(plan)
            n['files'][k]['damage'] = None
            yield n
        if f['s'] is None or f['s'] >= plan['n']:
            yield {**plan, 'files': plan['files'][:k] + plan['files'][k + 1:]}
        if f['ext'] == '.jidl':
            n = copy.deepcopy(plan)
            n['files'][k]['ext'] = '.jadn'
            yield n
    for k in range(len(plan['packages'])):
        s = plan['packages'][k]
        for j in range(len(s['types'])):        # the types that nothing refers to, and single fields
            name = s['types'][j][0]
            text = canon([plan['packages'][:k], [t for t in s['types'] if t is not s['types'][j]], s['info'].get('exports'), plan['packages'][k + 1:]])
            if not re.search(rf'[\W]{re.escape(name)}"', text):
                n = copy.deepcopy(plan)
                del n['packages'][k]['types'][j]
                yield n
            for m in range(len(s['types'][j][4])):
                n = copy.deepcopy(plan)
                del n['packages'][k]['types'][j][4][m]
                yield n
        if len(s['info'].get('exports', [])) > 1:
            for j in range(len(s['info']['exports'])):
                n = copy.deepcopy(plan)
                del n['packages'][k]['info']['exports'][j]
                yield n


def valid(plan):
    return bool(plan['calls'])
