"""C11: threads may check, convert and translate one shared schema."""
import copy
import shutil
import tempfile

from .. import gen, sched, tools
from ..base import canon, digest
from ..node import run_forked
from ..seams import set_env
from ..work import safe, scribble, variant
from .common import need

PROP = 'C11'
RUNS = {'quick': 2600, 'thorough': 40000}
REAL = ['jadn.core', 'jadn.utils', 'jadn.convert (JIDL, HTML, Markdown, diagrams)', 'jadn.translate', 'jadn.transform', 'jadn.codec (construction, meta-schema check)', 'jsonschema', 'lxml/json/re']
STUB = ['thread scheduling (simulator decides every switch)', 'threading.Lock/RLock (simulated)', 'clock']
RULE = 'a run with at least two threads, at least one switch inside a library call'
MEASURE = 'distinct switch schedules (list of [events, thread]) and distinct pairs of code locations adjacent across a switch'
CLOCK = 1.7e9


def gen_plan(r, i, tier):
    s = gen.gen_schema(r, ntypes=r.choice([2, 3, 4, 6]), docs=True, hard=r.random() < .7)
    schemas = [s]
    if r.random() < .3:
        schemas.append(variant(s, r))
    n = r.choice([2, 2, 2, 3, 4])
    heavy = r.random() < .3
    focus = None
    if r.random() < .5:
        focus = tools.gen_op(r)
        while not heavy and focus[0] in ('check', 'roundtrip'):
            focus = tools.gen_op(r)
    threads, k = [], 0
    for t in range(n):
        ops = []
        for _ in range(r.choice([1, 2, 2, 3])):
            x = r.random()
            k += 1
            if x < .15:
                op = ['file', tools.gen_dump(r), k]
            elif focus and x < .65:
                op = copy.deepcopy(focus)
                if r.random() < .5:
                    for _ in range(20):
                        o = tools.gen_op(r)
                        if o[0] == focus[0]:
                            op = o
            else:
                op = tools.gen_op(r)
                while not heavy and op[0] in ('check', 'roundtrip') and r.random() < .8:
                    op = tools.gen_op(r)
            ops.append([r.randrange(len(schemas)) if r.random() < .3 else 0, op, r.choice(['drop', 'scribble', 'hold'])])
        threads.append(ops)
    length = 20000 if any(o[1][0] in ('check', 'roundtrip') for t in threads for o in t) else 1500
    plan = {'schemas': schemas, 'threads': threads, 'policy': sched.gen_policy(r, length)}
    return plan if safe(plan) else gen_plan(r, i, tier)


def _concurrent(plan, scratch):
    import gc
    gc.disable()
    set_env('UTC', CLOCK, 4242, 0)
    schemas = copy.deepcopy(plan['schemas'])
    snap = copy.deepcopy(plan['schemas'])
    was = [canon(x) for x in schemas]
    out = [[] for _ in plan['threads']]
    pool = {}
    threads = [[[si, tools.intern(op, pool), then] for si, op, then in ops] for ops in plan['threads']]
    held, order, changed = [], [], []

    def look(a, b):
        if schemas != snap and not changed:
            changed.append(f'when thread {a} was preempted at {s.loc}: {diff(schemas, snap)}')

    def body(t, ops):
        def fn():
            for k, (si, op, then) in enumerate(ops):
                order.append(('start', t, k))
                o, res = tools.outcome_of(op, schemas[si], scratch)
                out[t].append(o)
                if then == 'scribble' and op[0] in tools.FRESH:
                    scribble(res)
                elif then == 'hold' and res is not None:
                    held.append((t, k, res, o[1]))
                order.append(('end', t, k))
        return fn
    s = sched.Sched(plan['policy'], budget=1500000)
    s.on_switch = look
    failed = s.run([body(t, ops) for t, ops in enumerate(threads)])
    late = [(t, k, w[:500], canon(res)[:500]) for t, k, res, w in held if canon(res) != w] if not failed else []
    end = [k for k in range(len(schemas)) if canon(schemas[k]) != was[k]] if not failed else []
    return {'out': out, 'failed': failed, 'trace': s.trace, 'steps': s.steps, 'pairs': sorted(s.pairs), 'late': late, 'order': order, 'changed': changed, 'end': end}


def diff(a, b, p=''):
    if type(a) is type(b) and isinstance(a, (list, dict)) and len(a) == len(b):
        ks = range(len(a)) if isinstance(a, list) else a
        for k in ks:
            if isinstance(a, list) or k in b:
                if a[k] != b[k]:
                    return diff(a[k], b[k], f'{p}/{k}')
    return f'{p}: {str(b)[:200]} became {str(a)[:200]}'


def run(plan):
    scratch = tempfile.mkdtemp(prefix='dst-c11-')
    try:
        jobs = [(op, plan['schemas'][si]) for ops in plan['threads'] for si, op, _ in ops]
        want = tools.solo(jobs, CLOCK, scratch)
        r = need(run_forked(_concurrent, (plan, scratch), 120 * plan.get('patience', 1)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    viol = []
    if r['failed']:
        viol.append(['stuck', r['failed']])
    i = 0
    for t, ops in enumerate(plan['threads']):
        for k, (si, op, _) in enumerate(ops):
            if k < len(r['out'][t]) and tuple(r['out'][t][k]) != want[i]:
                viol.append(['interference', f'thread {t} op {k} {op}: alone {cmp(want[i], tuple(r["out"][t][k]))}'])
            i += 1
    for c in r['changed']:
        viol.append(['schema-changed', c])
    if r['end'] and not r['changed']:
        viol.append(['schema-changed', f'schema {r["end"]} differs at the end'])
    for t, k, was, now in r['late']:
        viol.append(['late-change', f'thread {t} op {k}: result was {was}, later became {now}'])
    nsw = len(r['trace']) - len(plan['threads'])
    st = {'threads': len(plan['threads']), 'operations': len(want), 'events': r['steps'], 'switches': len(r['trace']),
          'fault:preemption inside an operation': max(nsw, 0), f'policy:{plan["policy"]["kind"]}/{plan["policy"]["gran"]}': 1,
          'refused operations': sum(1 for w in want if w[0] == 'err')}
    for op, _ in jobs:
        st['op:' + (op[0] if op[0] != 'file' else 'file ' + op[1][0])] = st.get('op:' + (op[0] if op[0] != 'file' else 'file ' + op[1][0]), 0) + 1
    if nsw > 0:
        st['nontrivial'] = 1
    return {'viol': viol, 'stats': st, 'log': digest([r['trace'], r['out'], r['order'], r['steps']]), 'cov': [digest(r['trace'])[:12]],
            'pairs': [f'{a[0]}:{a[1]}>{b[0]}:{b[1]}' for a, b in r['pairs']], 'trace': r['trace']}


def cmp(a, b):
    """Where two outcomes part."""
    x, y = repr(a), repr(b)
    k = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
    k = max(0, k - 60)
    return f'...{x[k:k + 300]} | got ...{y[k:k + 300]}'


def fix_schedule(plan, res):
    p = copy.deepcopy(plan)
    p['policy'] = {'kind': 'fixed', 'gran': plan['policy']['gran'], 'trace': res['trace']}
    return p


def lists(plan):
    yield ('threads',)
    for t in range(len(plan['threads'])):
        yield ('threads', t)
    if plan['policy']['kind'] == 'fixed':
        yield ('policy', 'trace')


def simpler(plan):
    from ..shrink import schema_simpler
    if plan['policy']['kind'] != 'fixed':
        return
    for k in range(len(plan['schemas'])):
        for s in schema_simpler(plan['schemas'][k]):
            yield {**plan, 'schemas': [s if j == k else x for j, x in enumerate(plan['schemas'])]}


def valid(plan):
    return bool(plan['threads'])
