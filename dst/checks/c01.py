"""C01: threads sharing a codec never see each other's calls."""
import copy

from ..base import SimHang, canon, digest, mkrng, scrub
from .. import gen, sched
from ..node import run_forked
from ..work import Book, MODES, new_codec, perform, safe, scribble, solo, variant
from .common import Lost, need

PROP = 'C01'
RUNS = {'quick': 3600, 'thorough': 60000}
REAL = ['jadn.codec (all modules)', 'jadn.transform.unfold_extensions', 'jadn.core', 'jadn.definitions', 'jadn.utils']
STUB = ['thread scheduling (simulator decides every switch)', 'threading.Lock/RLock (simulated)', 'clock']
RULE = 'a run with at least two threads, at least one switch inside a library call'
MEASURE = 'distinct switch schedules (list of [events, thread]) and distinct pairs of code locations adjacent across a switch'


def gen_plan(r, i, tier):
    small = r.random() < .6
    s = gen.gen_schema(r, ntypes=r.choice([2, 3, 4]) if small else r.choice([5, 8]), info=r.random() < .5)
    schemas = [s]
    if r.random() < .5:
        schemas.append(variant(s, r))
    books = [Book(x, r) for x in schemas]
    codecs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        codecs.append([r.randrange(len(schemas)), *r.choice(MODES)])
    nthreads = r.choice([2, 2, 2, 3, 4])
    focus = r.choice(books[codecs[0][0]].names) if r.random() < .5 else None
    threads = []
    for t in range(nthreads):
        ops = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            x = r.random()
            if x < .1:
                ops.append(['build', r.randrange(len(schemas)), *r.choice(MODES)])
                sc = ops[-1][1]
                ops[-1].append([books[sc].call(ops[-1][2:4])])
            else:
                c = r.randrange(len(codecs)) if r.random() < .4 else 0
                b = books[codecs[c][0]]
                call = b.call(codecs[c][1:])
                if focus and r.random() < .7 and focus in b.names:
                    names, b.names = b.names, [focus]
                    call = b.call(codecs[c][1:])
                    b.names = names
                if threads and r.random() < .15:
                    o = r.choice(r.choice(threads))
                    if o[0] == 'call':
                        c, call = o[1], copy.deepcopy(o[2])
                ops.append(['call', c, call, r.choice(['drop', 'scribble', 'hold'])])
        threads.append(ops)
    plan = {'schemas': schemas, 'codecs': codecs, 'threads': threads, 'policy': sched.gen_policy(r, 1500)}
    return plan if safe(plan) else gen_plan(r, i, tier)


def _concurrent(plan):
    import gc
    gc.disable()
    codecs = [new_codec(copy.deepcopy(plan['schemas'][s]), vr, vs) for s, vr, vs in plan['codecs']]
    out = [[] for _ in plan['threads']]
    held = []
    order = []

    def body(t, ops):
        def fn():
            for k, op in enumerate(ops):
                order.append(('start', t, k))
                if op[0] == 'build':
                    try:
                        c = new_codec(plan['schemas'][op[1]], op[2], op[3])
                        o = ('ok',)
                    except Exception as e:
                        c, o = None, ('err', type(e).__name__, scrub(str(e)))
                    out[t].append([o, *([perform(c, call)[0] for call in op[4]] if c else [o for _ in op[4]])])
                else:
                    o, res, arg = perform(codecs[op[1]], op[2])
                    out[t].append([o])
                    if op[3] == 'scribble':
                        scribble(res)
                        scribble(arg)
                    elif op[3] == 'hold' and o[0] == 'ok':
                        held.append((t, k, res, o[1]))
                order.append(('end', t, k))
        return fn
    s = sched.Sched(plan['policy'])
    failed = s.run([body(t, ops) for t, ops in enumerate(plan['threads'])])
    late = [(t, k, was, canon(res)) for t, k, res, was in held if canon(res) != was] if not failed else []
    return {'out': out, 'failed': failed, 'trace': s.trace, 'steps': s.steps, 'pairs': sorted(s.pairs), 'late': late, 'order': order}


def run(plan):
    want = {}
    for c, (si, vr, vs) in enumerate(plan['codecs']):
        idx = [(t, k) for t, ops in enumerate(plan['threads']) for k, op in enumerate(ops) if op[0] == 'call' and op[1] == c]
        b, os = solo(plan['schemas'][si], vr, vs, [plan['threads'][t][k][2] for t, k in idx])
        for (t, k), o in zip(idx, os):
            want[t, k] = [tuple(o)]
        if b[0] != 'ok':
            return {'viol': [], 'stats': {'skipped: codec cannot be built': 1}, 'log': 'skip', 'cov': []}
    for t, ops in enumerate(plan['threads']):
        for k, op in enumerate(ops):
            if op[0] == 'build':
                b, os = solo(plan['schemas'][op[1]], op[2], op[3], op[4])
                want[t, k] = [tuple(b), *[tuple(o) for o in os]]
    for w in want.values():
        if any(o[0] == 'lost' for o in w):
            raise Lost(f'solo call did not finish: {w}')
    r = need(run_forked(_concurrent, (plan,), 60))
    viol = []
    if r['failed']:
        viol.append(['stuck', r['failed']])
    for t, outs in enumerate(r['out']):
        for k, o in enumerate(outs):
            o = [tuple(x) for x in o]
            if o != want[t, k]:
                viol.append(['interference', f'thread {t} op {k} {plan["threads"][t][k]}: alone {want[t, k]}, among threads {o}'])
    for t, k, was, now in r['late']:
        viol.append(['late-change', f'thread {t} op {k}: result was {was}, later became {now}'])
    nsw = len(r['trace']) - len(plan['threads'])
    st = {'threads': len(plan['threads']), 'calls': sum(len(o) for o in plan['threads']), 'events': r['steps'], 'switches': len(r['trace']),
          'fault:preemption inside a call': max(nsw, 0), f'policy:{plan["policy"]["kind"]}/{plan["policy"]["gran"]}': 1,
          'refused calls': sum(1 for w in want.values() for o in w if o[0] == 'err')}
    if nsw > 0:
        st['nontrivial'] = 1
    return {'viol': viol, 'stats': st, 'log': digest([r['trace'], r['out'], r['order'], r['steps']]), 'cov': [digest(r['trace'])[:12]],
            'pairs': [f'{a[0]}:{a[1]}>{b[0]}:{b[1]}' for a, b in r['pairs']], 'trace': r['trace']}


def fix_schedule(plan, res):
    p = copy.deepcopy(plan)
    p['policy'] = {'kind': 'fixed', 'gran': plan['policy']['gran'], 'trace': res['trace']}
    return p


def lists(plan):
    yield ('threads',)
    for t in range(len(plan['threads'])):
        yield ('threads', t)
    if plan['policy']['kind'] == 'fixed':
        yield ('policy', 'trace')


def valid(plan):
    n = len(plan['codecs'])
    return bool(plan['threads']) and n > 0
