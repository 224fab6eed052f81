"""C13: schema tools give the same answer whatever was processed before."""
import copy
import shutil
import tempfile

from .. import gen, inject, tools
from ..base import canon, digest, scrub
from ..node import run_forked
from ..seams import set_env
from ..work import Book, MODES, scribble, variant
from .c11 import cmp, diff
from .common import Lost, need

PROP = 'C13'
RUNS = {'quick': 2600, 'thorough': 40000}
POINTS = True       # the library is loaded with interruption points
REAL = ['jadn.core', 'jadn.utils', 'jadn.definitions', 'jadn.convert (JIDL, HTML, Markdown, diagrams)', 'jadn.translate', 'jadn.transform', 'jadn.codec', 'jsonschema', 'lxml/json/re']
STUB = ['asynchronous interrupt (raised at a chosen interruption point: function entry, return of a call, loop turn)', 'allocation failure (raised at a chosen interruption point: function entry, return of a call, loop turn)', 'stack limit', 'clock']
RULE = 'a run with at least two operations, of which one failed, was cut short, or worked on another schema before the next'
MEASURE = 'distinct histories: sequences of (operation, schema, outcome class, place of the cut)'
CLOCK = 1.7e9


def gen_plan(r, i, tier):
    s = gen.gen_schema(r, ntypes=r.choice([2, 3, 5, 8]), docs=True, hard=r.random() < .7)
    schemas = [s]
    for _ in range(r.choice([1, 2, 3])):
        x = r.random()
        b = r.choice(schemas[:1] + [s])
        if x < .3:
            schemas.append(variant(b, r))
        elif x < .65:
            schemas.append(tools.broken(b, r))
        elif x < .85:
            schemas.append(tools.reconfig(b, r))
        else:
            schemas.append(gen.gen_schema(r, ntypes=3, docs=True))
    book = Book(s, r)
    ops, k = [], 0
    p_cut = r.choice([0, .15, .3])
    p_edit = r.choice([0, 0, .2, .5])
    focus = tools.gen_op(r)[0] if r.random() < .4 else None
    for _ in range(r.choice([4, 8, 12])):
        k += 1
        si = r.randrange(len(schemas)) if r.random() < .6 else 0
        if p_edit > r.random():     # The caller changes the schema, or drops it for another
            again = tools.gen_op(r) if r.random() < .7 else None
            ops += [[si, copy.deepcopy(again), 'drop', None, 0]] if again else []
            ops.append([si, ['edit', r.choice(['deep', 'top', 'new']), r.randrange(len(schemas))], 'drop', None, 0])
            ops += [[si, again, 'drop', None, 0]] if again else []
            si = si if r.random() < .8 else 0
        x = r.random()
        if x < .12:
            op = ['file', tools.gen_dump(r), r.choice([0, k])]
        elif x < .2:
            si, op = 0, ['value', list(r.choice(MODES)), None]
            op[2] = book.call(op[1])
        elif x < .28:
            op = [r.choice(['loads', 'load_any']), 'jadn', text_of(schemas[si], r)]
        else:
            op = tools.gen_op(r)
            if focus and r.random() < .5:
                while op[0] != focus:
                    op = tools.gen_op(r)
        if r.random() < p_cut:
            kind = r.choice(['interrupt', 'interrupt', 'memory', 'stack'])
            n = r.choice([0, 1, 2, 3, 5, 8, 12, 20, 35]) if kind == 'stack' else r.randrange(1000)
            ops.append([si, op, 'drop', kind, n])
            if r.random() < .6:
                ops.append([si, copy.deepcopy(op), 'drop', None, 0])
        else:
            ops.append([si, op, r.choice(['drop', 'scribble', 'hold']), None, 0])
            if ops and r.random() < .1:
                ops.append(copy.deepcopy(r.choice(ops)))
    return {'schemas': schemas, 'ops': ops}


def text_of(schema, r):
    import json
    t = json.dumps(schema, ensure_ascii=r.random() < .5)
    if r.random() < .4:
        t = gen.damage_text(t, r)[1].decode('utf8', 'replace')
    return t


def _history(plan, scratch):
    set_env('UTC', CLOCK, 4242, 0)
    schemas = copy.deepcopy(plan['schemas'])
    styles = {}
    out, held = [], []
    for si, op, then, kind, n in plan['ops']:
        if op[0] == 'edit':
            b = copy.deepcopy(plan['schemas'][op[2]])
            if op[1] == 'deep':
                morph(schemas[si], b)
            elif op[1] == 'top':
                schemas[si].clear()
                schemas[si].update(b)
            else:
                sc, before = None, None
                schemas[si] = None
                schemas[si] = b
            out.append({'o': ('ok', op[1]), 'schema': {'types': []}})
            continue
        e = {}
        sc = schemas[si]
        before, was = copy.deepcopy(sc), canon(sc)
        op = tools.intern(op, styles)
        if kind:
            if kind != 'stack':
                total = inject_count(op, before, scratch)
                n = n * total // 1000
            inj, (st, v) = inject.cut(tools.outcome_of, kind, n, op, sc, scratch)
            e['fired'] = inj.fired
            if st == 'ok':
                e['o'] = v[0]
                if v[0][0] == 'err' and v[0][1] == 'RecursionError':
                    e['fired'] = 'stack'
            else:
                e['o'] = ('err', type(v).__name__, scrub(str(v)))
        else:
            e['o'], res = tools.outcome_of(op, sc, scratch)
            if then == 'scribble' and op[0] in tools.FRESH and not (op[0] == 'deps' and not plain(res)):
                scribble(res)
                if canon(sc) != was and e['o'][0] == 'ok':
                    e['alias'] = diff(sc, before)
                    sc.clear()
                    sc.update(copy.deepcopy(before))
            elif then == 'hold' and res is not None and op[0] in tools.FRESH:
                held.append((len(out), res, e['o'][1]))
        if canon(sc) != was:
            e['changed'] = (before, copy.deepcopy(sc))
        e['schema'] = before
        out.append(e)
    late = [(k, w[:300], canon(res)[:300]) for k, res, w in held if canon(res) != w]
    return out, late


def plain(deps):
    """Whether a dependency table holds names only, not what a broken schema has instead of a name."""
    return isinstance(deps, dict) and all(isinstance(v, str) for x in deps.values() for v in x)


def morph(a, b):
    """Make container a equal to b, keeping as many of its parts as possible."""
    if isinstance(a, dict):
        for k in [k for k in a if k not in b]:
            del a[k]
        for k, v in b.items():
            if k in a and type(a[k]) is type(v) and isinstance(v, (dict, list)):
                morph(a[k], v)
            else:
                a[k] = v
    else:
        del a[len(b):]
        for k, v in enumerate(b):
            if k < len(a) and type(a[k]) is type(v) and isinstance(v, (dict, list)):
                morph(a[k], v)
            elif k < len(a):
                a[k] = v
            else:
                a.append(v)


def inject_count(op, schema, scratch):
    def one():
        return inject.cut(tools.outcome_of, 'count', 0, op, copy.deepcopy(schema), scratch)[0].count
    r = run_forked(one, (), 60)
    return r[1] if r[0] == 'ok' else 0


def completed(before, after):
    """after is before with the omitted parts of type definitions filled in."""
    try:
        if {**before, 'types': 0} != {**after, 'types': 0} or len(before['types']) != len(after['types']):
            return False
        return all(list(a) == (list(b) + ['DefinitionName', 'DefinitionType', [], '', []][len(b):]) for b, a in zip(before['types'], after['types']))
    except Exception:
        return False


def norm(o):
    """Exhausting the stack by itself (cyclic definitions) is one outcome, wherever it happens."""
    o = tuple(o)
    return o[:2] if o[0] == 'err' and o[1] == 'RecursionError' else o


def run(plan):
    scratch = tempfile.mkdtemp(prefix='dst-c13-')
    try:
        out, late = need(run_forked(_history, (plan, scratch), 120 * plan.get('patience', 1)))
        want = tools.solo([(op[1] if op[1][0] != 'edit' else ['analyze'], e['schema']) for op, e in zip(plan['ops'], out)], CLOCK, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    viol, st, shape = [], {}, []
    interesting = 0

    def bump(k):
        st[k] = st.get(k, 0) + 1
    for k, (plop, e, w) in enumerate(zip(plan['ops'], out, want)):
        si, op, then, kind, n = plop
        if op[0] == 'edit':
            bump('op:edit ' + op[1])
            interesting += 1
            shape.append([*op, si])
            continue
        o, name = norm(e['o']), op[0] if op[0] != 'file' else 'file ' + op[1][0]
        bump('op:' + name)
        shape.append([name, si, o[0], e.get('fired')])
        interesting += o[0] == 'err' or si != plan['ops'][max(k - 1, 0)][0]
        cut = e.get('fired')
        if cut:
            bump(f'fault:{str(cut).split("@")[0]} in {op[0]}')
            interesting += 1
        if 'changed' in e:
            b, a = e['changed']
            if not completed(b, a):
                viol.append(['schema-changed', f'op {k} {short(op)} (cut {cut}, outcome {str(o)[:200]}): {diff(a, b)}'])
        if 'alias' in e:
            viol.append(['aliased', f'op {k} {short(op)}: changing the result changes the schema: {e["alias"]}'])
        if cut:
            if o[0] == 'ok' and o != norm(w):
                viol.append(['wrong-answer-when-cut', f'op {k} {short(op)}: cut at {cut}: {cmp(w, o)}'])
        elif o != norm(w):
            viol.append(['history', f'op {k} {short(op)} on schema {si}: alone {cmp(w, o)}'])
    for k, was, now in late:
        viol.append(['late-change', f'op {k}: result was {was}, later became {now}'])
    if len(out) > 1 and interesting:
        st['nontrivial'] = 1
    return {'viol': viol, 'stats': st, 'log': digest([[e['o'], e.get('fired')] for e in out]), 'cov': [digest(shape)[:12]]}


def short(op):
    s = str(op)
    return s if len(s) < 200 else s[:200] + '...'


def lists(plan):
    yield ('ops',)


def simpler(plan):
    from ..shrink import schema_simpler
    used = {o[0] for o in plan['ops']}
    for k in range(len(plan['schemas'])):
        if k not in used and plan['schemas'][k] != {'types': []}:
            yield {**plan, 'schemas': [{'types': []} if j == k else x for j, x in enumerate(plan['schemas'])]}
    for k in used:
        try:
            cand = list(schema_simpler(plan['schemas'][k]))
        except Exception:
            continue
        for s in cand:
            yield {**plan, 'schemas': [s if j == k else x for j, x in enumerate(plan['schemas'])]}


def valid(plan):
    return True
