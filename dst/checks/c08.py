"""C08: generated artifacts are reproducible byte for byte."""
import copy
import os
import shutil
import tempfile

from .. import gen, tools
from ..base import digest
from ..node import Cluster
from ..seams import real, set_env
from ..work import safe, variant
from .common import Harness, Lost

PROP = 'C08'
RUNS = {'quick': 4000, 'thorough': 60000}
REAL = ['jadn.core', 'jadn.utils', 'jadn.convert (all formats)', 'jadn.translate', 'jadn.transform', 'CPython hash randomisation (real interpreters with different seeds)']
STUB = ['clock', 'time zone, default text encoding, working directory, pid, random state per simulated process', 'heap layout (varied by the simulator)']
RULE = 'a run in which the same artifact was made by at least two processes whose environment or history differs'
MEASURE = 'distinct (artifacts, environments, histories) per run'
ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Auckland', 'ABC-13DEF']
SEEDS = [0, 1, 2, 7, 42]
CL = None


def setup():
    global CL
    CL = Cluster(['jadn.codec', 'jadn.convert', 'jadn.transform', 'jadn.translate', 'dst.checks.c08'])


def teardown():
    CL.close()


def gen_env(r):
    return {'hs': r.choice(SEEDS), 'tz': r.choice(ZONES), 'clock': r.choice([0.0, 951782400.0, 1710059400.0, 1699164000.5, 4102444800.0]), 'pid': r.choice([1, 4242, 99999]),
            'locale': r.choice(['utf-8', 'cp1252', 'ascii', 'latin-1', 'cp932']), 'rseed': r.randrange(1000), 'cwd': r.choice(['.', 'a', 'b c']), 'junk': r.choice([0, 0, 1, 500, 20000])}


def gen_job(r):
    if r.random() < .5:
        d = tools.gen_dump(r)
        return ['file', d, r.randrange(1000)]
    op = tools.gen_op(r)
    while op[0] == 'check' or op[0] == 'roundtrip' and r.random() < .7:
        op = tools.gen_op(r)
    return op


def gen_plan(r, i, tier):
    s = gen.gen_schema(r, ntypes=r.choice([2, 4, 7, 12, 20]), docs=True, hard=r.random() < .7)
    schemas = [s]
    if r.random() < .5:
        schemas.append(variant(s, r) if r.random() < .5 else gen.gen_schema(r, ntypes=r.choice([2, 5]), docs=True, hard=True))
    if r.random() < .2:
        schemas.append(tools.broken(s, r))
    jobs = [gen_job(r) for _ in range(r.choice([2, 4, 7]))]
    procs = []
    for k in range(r.choice([2, 3, 3])):
        order = list(range(len(jobs)))
        r.shuffle(order)
        hist = [[r.randrange(len(schemas)), gen_job(r)] for _ in range(r.choice([0, 0, 1, 3]))]
        procs.append({'env': gen_env(r), 'order': order, 'before': hist, 'twice': r.random() < .2})
    if r.random() < .25:        # only the hash seed differs
        for p in procs[1:]:
            p['env'] = {**procs[0]['env'], 'hs': p['env']['hs']}
    plan = {'schemas': schemas, 'jobs': jobs, 'procs': procs}
    return plan if safe(plan) else gen_plan(r, i, tier)


def body(op, o):
    """The part of an outcome that must not vary."""
    o = list(o)
    if o[0] == 'err':
        return o[:2]
    if op[0] == 'file' and op[1][1]:
        b = eval(o[1])      # repr of the bytes
        head, sep, rest = b.partition(b'\n\n')
        if op[1][1].encode() in head and b'\n' not in head:
            return ['ok', repr(rest)]
    return o


def process(d, p, schemas, jobs):
    e = p['env']
    home = os.path.join(d, e['cwd'])
    set_env(e['tz'], e['clock'], e['pid'], e['rseed'], home, e['locale'])
    junk = [str(k) for k in range(e['junk'])]
    junk = junk[::2]
    for si, op in p['before']:
        tools.outcome_of(op, copy.deepcopy(schemas[si]), home)
    out = {}
    pool = {}
    for k in p['order'] + (p['order'] if p['twice'] else []):
        o = tools.outcome_of(tools.intern(jobs[k], pool), copy.deepcopy(schemas[0]), home)[0]
        o = body(jobs[k], o)
        if out.setdefault(k, o) != o:
            return out, ['twice', k, out[k], o]
    return out, None


def run(plan):
    d = os.path.realpath(tempfile.mkdtemp(prefix='dst-c08-'))
    viol, st = [], {}

    def bump(k, n=1):
        st[k] = st.get(k, 0) + n
    res = []
    try:
        for x in ('a', 'b c'):
            os.mkdir(os.path.join(d, x))
        for p in plan['procs']:
            r = CL.node(p['env']['hs']).call('dst.checks.c08:process', d, p, plan['schemas'], plan['jobs'], timeout=60 * plan.get('patience', 1))
            if r[0] in ('timeout', 'nozygote'):
                raise Lost(str(r))
            if r[0] == 'exit':
                viol.append(['process-died', f'status {r[1]} in {p["env"]}'])
                break
            if r[0] != 'ok':
                raise Harness(str(r)[:2000])
            res.append(r[1][0])
            if r[1][1]:
                _, k, a, b = r[1][1]
                viol.append(['varies', f'{plan["jobs"][k]} twice in one process {p["env"]}: {cmp(a, b)}'])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    P = plan['procs']
    for n in range(1, len(res)):
        diff = [x for x in P[0]['env'] if P[0]['env'][x] != P[n]['env'][x]]
        for x in diff:
            bump('fault:different ' + {'hs': 'hash seed', 'tz': 'time zone', 'cwd': 'working directory', 'rseed': 'random state', 'junk': 'heap layout'}.get(x, x))
        if P[n]['before'] or P[0]['before']:
            bump('fault:different history')
        if diff or P[n]['before'] != P[0]['before']:
            st['nontrivial'] = 1
        for k in range(len(plan['jobs'])):
            bump('artifacts compared')
            a, b = res[0].get(k), res[n].get(k)
            if a is not None and b is not None and a != b:
                viol.append(['varies', f'{plan["jobs"][k]}: process 0 {P[0]["env"]} and process {n} {P[n]["env"]} (differ in {diff}, histories {[o[1][0] for o in P[0]["before"]]} and {[o[1][0] for o in P[n]["before"]]}): {cmp(a, b)}'])
    return {'viol': viol, 'stats': st, 'log': digest([viol, res]), 'cov': [digest([plan['jobs'], [p['env'] for p in P], [p['before'] for p in P]])[:12]]}


def cmp(a, b):
    x, y = repr(a), repr(b)
    k = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
    k = max(0, k - 80)
    return f'...{x[k:k + 300]} | ...{y[k:k + 300]}'


def lists(plan):
    yield ('jobs',)
    for k in range(len(plan['procs'])):
        yield ('procs', k, 'before')


def fixed(plan):
    """Orders name existing jobs only."""
    for p in plan['procs']:
        p['order'] = [k for k in p['order'] if k < len(plan['jobs'])]
    return plan


def simpler(plan):
    from ..shrink import schema_simpler
    if len(plan['procs']) > 2:
        for k in range(len(plan['procs'])):
            n = copy.deepcopy(plan)
            del n['procs'][k]
            yield n
    for k, p in enumerate(plan['procs']):
        for x, v in plan['procs'][0]['env'].items():
            if p['env'][x] != v:
                n = copy.deepcopy(plan)
                n['procs'][k]['env'][x] = v
                yield n
        if p['twice']:
            n = copy.deepcopy(plan)
            n['procs'][k]['twice'] = False
            yield n
    for s in schema_simpler(plan['schemas'][0]):
        yield {**plan, 'schemas': [s] + plan['schemas'][1:]}


def valid(plan):
    fixed(plan)
    return bool(plan['jobs']) and len(plan['procs']) > 1
