"""C05: a saved schema loads back equal on any machine."""
import copy
import os
import shutil
import tempfile

from .. import gen
from ..base import canon, canon_u, digest, scrub
from ..node import Cluster
from ..seams import W, set_env
from ..work import safe
from .common import Harness, Lost

PROP = 'C05'
RUNS = {'quick': 3600, 'thorough': 40000}
REAL = ['jadn.core (dump, load, check)', 'jadn.convert.jidl, html', 'jadn.convert.utils', 'jadn.utils', 'jadn.codec (meta-schema check)', 'jsonschema', 'lxml', 'io buffering and text layers']
STUB = ['raw file layer (simulated short and interrupted transfers)', 'clock', 'time zone, default text encoding, working directory and pid per simulated process', 'process hash seed (chosen per process)']
RULE = 'a run in which a saved file was loaded by another process whose environment differs from the writer\'s'
MEASURE = 'distinct chains of (format, loader, header, I/O chunking, writer and reader environment)'
ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Auckland', 'ABC-13DEF']
SEEDS = [0, 1, 42]
CL = None


def setup():
    global CL
    CL = Cluster(['jadn.codec', 'jadn.convert', 'dst.checks.c05'])


def teardown():
    CL.close()


def gen_env(r):
    return {'hs': r.choice(SEEDS), 'tz': r.choice(ZONES), 'clock': r.choice([0.0, 951782400.0, 1710059400.0, 1699164000.5, 4102444800.0]), 'pid': r.choice([1, 4242, 99999]),
            'locale': r.choice(['utf-8', 'cp1252', 'ascii', 'latin-1', 'cp932', 'cp437', 'utf-8']), 'rseed': r.randrange(1000), 'cwd': r.choice(['.', '.', 'out', 'else where'])}


def gen_io(r):
    return {'chunk': r.choice([0, 0, 1, 3, 7, 64, 500, 5000]), 'seed': r.randrange(1 << 30), 'eintr': r.choice([0, 0, .2]), 'bufsize': r.choice([None, None, 16, 100, 1000])}


def gen_plan(r, i, tier):
    s = gen.gen_schema(r, ntypes=r.choice([1, 2, 3, 5, 9, 14]), docs=True, hard=r.random() < .7)
    if r.random() < .2:
        foreign(s, r)
    hops = []
    only = r.choice(['jadn', 'jidl', 'html', 'jidl', 'html', None, None])
    if r.random() < .3:
        texts(s, r, only)
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        f = only or r.choice(['jadn', 'jidl', 'html'])
        hops.append({'fmt': f, 'strip': r.random() < .4, 'src': r.choice(['', '', 'model.jadn', 'K\u00e4se "x" -- 100%.jadn', 'a>b.jidl', '\u4e2d\u6587.jadn', 'c:\\x\\y.jadn']),
                     'how': r.choice(['abs', 'abs', 'rel', 'bytes', 'fd']), 'name': r.choice(['out', 'my schema', '\u00e9t\u00e9', 'a.b']),
                     'load': r.choice(['load', 'load_any', 'load_any', 'loads']), 'env': gen_env(r), 'io': gen_io(r)})
    if r.random() < .5:
        spell(s, r)
    plan = {'schema': s, 'hops': hops, 'last': {'env': gen_env(r), 'io': gen_io(r)}}
    return plan if safe(plan) else gen_plan(r, i, tier)


def spell(s, r):
    """Say the same in other words: defaults spelled out, options in another order, other digits of the same number."""
    def opts(o, base, field):
        if field and r.random() < .3:
            o += [x for x in ('[1', ']1') if not any(y[0] in '[]' for y in o) and r.random() < .5]
        if base in ('Binary', 'String', 'ArrayOf', 'MapOf') and r.random() < .2 and not any(y[0] in '{%' for y in o):
            o.append('{0')
        if base == 'Number':
            for j, y in enumerate(o):
                if y[0] in 'yz' and r.random() < .5:
                    x = float(y[1:])
                    o[j] = y[0] + r.choice([y[1:] + '00' if '.' in y and 'e' not in y else y[1:], '%r' % x, '%e' % x if float('%e' % x) == x else y[1:], str(int(x)) if x == int(x) else y[1:]])
        if r.random() < .3:
            r.shuffle(o)
    for t in s['types']:
        opts(t[2], t[1], False)
        for f in t[4]:
            if t[1] != 'Enumerated':
                opts(f[3], f[2], True)


def texts(s, r, fmt):
    """Put unusual text into information values and, for the format that can hold them, into descriptions."""
    pool = ['a\tb', 'two\nlines', 'back\\slash "q"', '\u2028 \x85', ' padded ', '/* x */', '// y', '\u00e9' * 40]
    if fmt == 'jadn':
        pool += ['\x00', 'bell \x07 \x1b[0m', '\x7f\x80', '\ufeff']
    if 'info' in s:
        for k in ('description', 'title', 'comment'):
            if r.random() < .5:
                s['info'][k] = r.choice(pool)
    if fmt == 'jadn':
        bad = ['tab\there', '\x01 \x1b[0m', 'nul\x00nul', 'sep\u2028sep', '\x7fdel', 'v\x0bt\x0cf', 'nel\x85x']
        for t in s['types']:
            for d in [t] + t[4]:
                if r.random() < .2:
                    d[3 if d is t else -1] = r.choice(bad)


def foreign(s, r):
    """Refer to types of other packages."""
    i = s.setdefault('info', {'package': 'http://example.com/main'})
    i['namespaces'] = {n: f'http://example.com/{n}/v1' for n in r.sample(['ext', 'b2', 'common'], r.randrange(1, 4))}
    ns = sorted(i['namespaces'])
    for t in s['types']:
        if t[1] == 'Enumerated':
            continue
        if t[1] in ('ArrayOf', 'MapOf') and r.random() < .3 and not any(o[0] in 'qb' for o in t[2]):
            t[2] = [f'*{r.choice(ns)}:Thing' if o[0] == '*' else o for o in t[2]]
        for f in t[4]:
            if len(f) > 3 and not f[3] and r.random() < .3:
                f[2] = f'{r.choice(ns)}:{r.choice(["Thing", "Other-Type", "X1"])}'


def process(d, env, io, load, save):
    """One simulated process: load a schema (or take the given one), check it, save it."""
    from .. import vfs
    import jadn
    from jadn import convert
    set_env(env['tz'], env['clock'], env['pid'], env['rseed'], os.path.join(d, env['cwd']), env['locale'])
    fs = vfs.FS(d, (), io['chunk'], io['seed'], io['eintr'])
    fs.bufsize = io['bufsize']
    W.fs = fs
    out = {'io': 0}
    try:
        if 'schema' in load:
            s = load['schema']
        else:
            h = load['hop']
            m = {'jadn': jadn, 'jidl': convert, 'html': convert}[h['fmt']]
            p = '' if h['fmt'] == 'jadn' else h['fmt'] + '_'
            try:
                with open(load['path'], encoding='utf8') as f:
                    s = jadn.load_any(f) if h['load'] == 'load_any' else getattr(m, p + 'load')(f) if h['load'] == 'load' else getattr(m, p + 'loads')(f.read())
            except Exception as e:
                return {**out, 'err': f'load: {type(e).__name__}: {scrub(str(e))[:400]}', 'io': len(fs.fired)}
            out['schema'] = copy.deepcopy(s)
        if save:
            h, path = save['hop'], save['path']
            if h['how'] == 'rel':
                path = os.path.relpath(path)
            elif h['how'] == 'bytes':
                path = os.fsencode(path)
            elif h['how'] == 'fd':
                path = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            try:
                if h['fmt'] == 'jadn':
                    jadn.dump(s, path, h['src'], strip=h['strip'])
                else:
                    getattr(convert, h['fmt'] + '_dump')(s, path, h['src'])
            except Exception as e:
                return {**out, 'err': f'save: {type(e).__name__}: {scrub(str(e))[:400]}', 'io': len(fs.fired)}
        out['io'] = len(fs.fired)
        try:
            out['canon'] = jadn.utils.canonicalize(jadn.check(copy.deepcopy(s)))
        except Exception as e:
            return {**out, 'err': f'canonical form: {type(e).__name__}: {scrub(str(e))[:400]}', 'io': len(fs.fired)}
        return out
    finally:
        W.fs = None


def norm(s):
    """Canonical text of a schema: options are sets, defaults are absent, type definitions are full."""
    def num(o):
        return o[0] + repr(float(o[1:])) if o[0] in 'yz' else o

    def opts(ol, base, field):
        out = []
        for o in ol:
            if field and o in ('[1', ']1') or o == '{0' and base != 'Integer':
                continue
            out.append(num(o) if base == 'Number' else o)
        return sorted(out)
    types = []
    for t in s['types']:
        t = list(t) + [[], '', []][len(t) - 2:]
        fs = [[f[0], f[1], f[2]] if t[1] == 'Enumerated' else [f[0], f[1], f[2], opts(f[3], f[2], True), f[4]] for f in (list(x) for x in t[4])]
        types.append([t[0], t[1], opts(t[2], t[1], False), t[3], fs])
    return [canon_u({k: v for k, v in s.items() if k != 'types'}), *[canon(t) for t in types]]


def run(plan):
    d = os.path.realpath(tempfile.mkdtemp(prefix='dst-c05-'))
    viol, st, shape = [], {}, []
    want, first = norm(plan['schema']), None
    try:
        for sub in ('out', 'else where'):
            os.mkdir(os.path.join(d, sub))
        load, prev = {'schema': copy.deepcopy(plan['schema'])}, None
        steps = plan['hops'] + [None]
        for k, h in enumerate(steps):
            e = h or plan['last']
            env, io = e['env'], e['io']
            save = h and {'hop': h, 'path': os.path.join(d, 'out', f'{h["name"]}-{k}.{h["fmt"]}')}
            res = CL.node(env['hs']).call('dst.checks.c05:process', d, env, io, load, save, timeout=60 * plan.get('patience', 1))
            if res[0] == 'timeout' or res[0] == 'nozygote':
                raise Lost(str(res))
            if res[0] == 'exit':
                viol.append(['process-died', f'hop {k}: status {res[1]}'])
                break
            if res[0] != 'ok':
                raise Harness(str(res)[:2000])
            o = res[1]
            st['fault:short or interrupted transfers'] = st.get('fault:short or interrupted transfers', 0) + o['io']
            if k:
                ph = plan['hops'][k - 1]
                diff = [x for x in env if env[x] != ph['env'][x]]
                if diff:
                    st['nontrivial'] = 1
                    st['fault:environments differ'] = st.get('fault:environments differ', 0) + 1
                st['loads ' + ph['fmt']] = st.get('loads ' + ph['fmt'], 0) + 1
                if ph['src']:
                    st['headers'] = st.get('headers', 0) + 1
                where = f'hop {k} ({ph["fmt"]}, header {ph["src"]!r}, {ph["load"]}, written with {ph["env"]}, read with {env})'
                shape.append([ph['fmt'], ph['load'], ph['how'], bool(ph['src']), io['chunk'], ph['io']['chunk'], sorted(diff)])
                if 'schema' in o:
                    got = norm(o['schema'])
                    if got != want:
                        n = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
                        viol.append(['differs', f'{where}: saved {(want[n:n + 1] or ["-"])[0][:700]} loaded {(got[n:n + 1] or ["-"])[0][:700]}'])
                        break
            if 'canon' in o:
                c = [norm(o['canon']), canon_u(o['canon'])]
                first = first or c
                n = next((j for j in range(len(want)) if c[0][j:j + 1] != want[j:j + 1]), None)
                if n is not None or c[1] != first[1]:
                    viol.append(['canonical-form', f'process {k} {env}: ' + (f'of {want[n][:500]} is {(c[0][n:n + 1] or ["-"])[0][:500]}' if n is not None else f'{first[1][:600]} became {c[1][:600]}')])
                    break
            if 'err' in o:
                viol.append(['save-failed' if o['err'].startswith('save') else 'load-failed', f'process {k} {env}: {o["err"]}'])
                break
            if h:
                load = {'hop': h, 'path': save['path']}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    st['sim_s'] = 0
    return {'viol': viol, 'stats': st, 'log': digest([shape, viol, want]), 'cov': [digest([shape, want])[:12]]}


def lists(plan):
    yield ('hops',)


def simpler(plan):
    from ..shrink import schema_simpler
    base = {'hs': 0, 'tz': 'UTC', 'clock': 0.0, 'pid': 1, 'locale': 'utf-8', 'rseed': 0, 'cwd': '.'}
    for k in range(len(plan['hops']) + 1):
        h = plan['hops'][k] if k < len(plan['hops']) else plan['last']
        for x in base:
            if h['env'][x] != base[x]:
                n = copy.deepcopy(plan)
                (n['hops'][k] if k < len(plan['hops']) else n['last'])['env'][x] = base[x]
                yield n
        for x, v in (('chunk', 0), ('eintr', 0), ('bufsize', None)):
            if h['io'][x] != v:
                n = copy.deepcopy(plan)
                (n['hops'][k] if k < len(plan['hops']) else n['last'])['io'][x] = v
                yield n
        if k < len(plan['hops']):
            for x, v in (('src', ''), ('how', 'abs'), ('load', 'load'), ('strip', False), ('name', 'out')):
                if h[x] != v:
                    n = copy.deepcopy(plan)
                    n['hops'][k][x] = v
                    yield n
    for s in schema_simpler(plan['schema']):
        yield {**plan, 'schema': s}


def valid(plan):
    return bool(plan['hops'])
