"""C02: a codec's answers never depend on its history, even after cut-short calls."""
import copy

from ..base import canon, digest, from_j, scrub
from .. import gen, inject
from ..node import run_forked
from ..work import Book, MODES, count_events, new_codec, perform, safe, scribble, solo_many, variant
from .common import Lost, need

PROP = 'C02'
RUNS = {'quick': 3000, 'thorough': 50000}
POINTS = True       # the library is loaded with interruption points
REAL = ['jadn.codec (all modules)', 'jadn.transform.unfold_extensions', 'jadn.core', 'jadn.definitions', 'jadn.utils']
STUB = ['asynchronous interrupt (raised at a chosen interruption point: function entry, return of a call, loop turn)', 'allocation failure (raised at a chosen interruption point: function entry, return of a call, loop turn)', 'stack limit', 'clock']
RULE = 'a run with at least two calls on one codec, at least one mode switch, refused call or cut-short call before another call'
MEASURE = 'distinct histories: sequences of (operation kind, type, mode, outcome class, place of the cut)'


def gen_plan(r, i, tier):
    s = gen.gen_schema(r, ntypes=r.choice([2, 3, 5, 8]), info=r.random() < .5)
    schemas = [s] + ([variant(s, r)] if r.random() < .5 else [])
    books = [Book(x, r) for x in schemas]
    codecs, ops, modes = [], [], []

    def build():
        si = r.randrange(len(schemas))
        m = list(r.choice(MODES))
        codecs.append(si)
        modes.append(m)
        return ['build', si, m]
    ops.append(build())
    p_cut = r.choice([0, .15, .35])
    p_mode = r.choice([.05, .2])
    focus = r.choice(books[0].names) if r.random() < .4 else None
    for _ in range(r.choice([5, 10, 16])):
        c = 0 if r.random() < .6 else r.randrange(len(codecs))
        b = books[codecs[c]]
        names = b.names
        if focus in names and r.random() < .6:
            b.names = [focus]
        call = b.call(modes[c], .35)
        b.names = names
        x = r.random()
        if x < .08 and len(codecs) < 4:
            ops.append(build())
        elif x < .08 + p_mode:
            modes[c] = list(r.choice(MODES))
            ops.append(['mode', c, modes[c]])
        elif r.random() < p_cut:
            k = r.choice(['interrupt', 'interrupt', 'memory', 'stack'])
            n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 11, 15, 22]) if k == 'stack' else r.randrange(1000)
            y = r.random()
            if y < .25:
                m = list(r.choice(MODES))
                ops.append(['cutmode', c, k, n, m])
                for _ in range(3):
                    ops.append(['call', c, b.call(m if r.random() < .5 else modes[c], .1), 'drop'])
                if r.random() < .5:
                    modes[c] = list(r.choice(MODES))
                    ops.append(['mode', c, modes[c]])
            elif y < .35:
                ops.append(['cutbuild', r.randrange(len(schemas)), k, n, list(r.choice(MODES))])
            else:
                ops.append(['cut', c, k, n, call])
                if r.random() < .7:
                    ops.append(['call', c, copy.deepcopy(call) if r.random() < .5 else b.call(modes[c], .1), 'drop'])
        elif x > .975:
            if r.random() < .5:
                ops.append(['burst', c, [b.call(modes[c], .3) for _ in range(r.choice([1, 3, 12]))], r.choice([40, 150, 300])])
            else:       # many calls cut short, one after the other
                ops.append(['cutburst', c, r.choice(['interrupt', 'memory', 'stack']), [b.call(modes[c], .1) for _ in range(r.choice([1, 3]))],
                            r.choice([60, 300, 700]), r.randrange(1000), r.choice([1, 7, 13])])
                ops.append(['call', c, b.call(modes[c], .1), 'drop'])
        else:
            ops.append(['call', c, call, r.choice(['drop', 'scribble', 'hold'])])
    plan = {'schemas': schemas, 'ops': ops}
    return plan if safe(plan) else gen_plan(r, i, tier)


def _history(plan):
    """One process, the whole history.  -> list of what each operation did."""
    schemas = copy.deepcopy(plan['schemas'])
    was = [canon(s) for s in schemas]
    codecs, out, held = [], [], []

    def cutting(fn, kind, n, *args):
        before = [canon(a) for a in args]
        inj, (st, v) = inject.cut(fn, kind, n, *args)
        o = ('ok', canon(v)) if st == 'ok' else ('err', type(v).__name__, scrub(str(v)))
        broke = [i for i, a in enumerate(args) if canon(a) != before[i]]
        return o, inj.fired, broke
    for op in plan['ops']:
        k = op[0]
        e = {}
        if k == 'build':
            try:
                codecs.append(new_codec(schemas[op[1]], *op[2]))
                e['o'] = ('ok',)
            except Exception as x:
                codecs.append(None)
                e['o'] = ('err', type(x).__name__, scrub(str(x)))
        elif k == 'cutbuild':
            e['o'], e['fired'], e['broke'] = cutting(new_codec, op[2], op[3], schemas[op[1]], *op[4])
        else:
            c = codecs[op[1]] if op[1] < len(codecs) else None
            if c is None:
                e['o'] = ('skip',)
            elif k == 'mode':
                try:
                    c.set_mode(*map(bool, op[2]))
                    e['o'] = ('ok',)
                except Exception as x:
                    e['o'] = ('err', type(x).__name__, scrub(str(x)))
            elif k == 'cutmode':
                e['o'], e['fired'], e['broke'] = cutting(c.set_mode, op[2], op[3], *map(bool, op[4]))
            elif k == 'cut':
                call = op[4]
                e['o'], e['fired'], e['broke'] = cutting(c.encode if call[0] == 'e' else c.decode, op[2], op[3], call[1], from_j(call[2]))
            elif k == 'cutburst':
                e['hits'], e['broke'] = 0, []
                for j in range(op[4] if op[3] else 0):
                    call = op[3][j % len(op[3])]
                    n = (op[5] + j * op[6]) % (12 if op[2] == 'stack' else 40)
                    _, fired, broke = cutting(c.encode if call[0] == 'e' else c.decode, op[2], n, call[1], from_j(call[2]))
                    e['hits'] += bool(fired)
                    e['broke'] += broke
                e['o'] = ('ok',)
            elif k == 'burst':
                e['os'] = [perform(c, op[2][j % len(op[2])])[0] for j in range(op[3] if op[2] else 0)]
                e['o'] = ('ok',)
            else:
                o, res, arg = perform(c, op[2])
                e['o'] = o
                if op[3] == 'scribble':
                    scribble(res)
                    scribble(arg)
                elif op[3] == 'hold' and o[0] == 'ok':
                    held.append((len(out), res, o[1]))
        now = [canon(s) for s in schemas]
        if now != was:
            e['schema'] = [i for i in range(len(now)) if now[i] != was[i]]
            was = now
        out.append(e)
    late = [(k, was_, canon(res)) for k, res, was_ in held if canon(res) != was_]
    return out, late


def run(plan):
    ops = copy.deepcopy(plan['ops'])
    # where to cut: from the number of library call boundaries the operation passes when left alone
    per = {}
    codecs, modes = [], []
    for k, op in enumerate(ops):
        if op[0] == 'build':
            codecs.append(op[1])
            modes.append(op[2])
        elif op[0] == 'mode' and op[1] < len(modes):
            modes[op[1]] = op[2]
        elif op[0] == 'cutbuild' and op[2] != 'stack':
            per.setdefault(op[1], []).append((k, ['build', op[4]]))
        elif op[0] in ('cut', 'cutmode') and op[2] != 'stack' and op[1] < len(codecs):
            per.setdefault(codecs[op[1]], []).append((k, ['mode' if op[0] == 'cutmode' else 'call', modes[op[1]], op[4]]))
    for si, ws in per.items():
        for (k, _), n in zip(ws, count_events(plan['schemas'][si], [w for _, w in ws])):
            ops[k][3] = ops[k][3] * n // 1000
    out, late = need(run_forked(_history, ({**plan, 'ops': ops},), 60))
    # what every call answers alone, in every mode its codec may be in
    poss, need_, todo = [], {}, []
    for k, op in enumerate(ops):
        if op[0] == 'build':
            poss.append({tuple(op[2])})
        elif op[0] == 'mode' and op[1] < len(poss):
            poss[op[1]] = {tuple(op[2])}
        elif op[0] == 'cutmode' and op[1] < len(poss):
            poss[op[1]] = poss[op[1]] | {tuple(op[4])}
        elif op[0] in ('call', 'cut', 'burst') and op[1] < len(poss):
            calls = op[2] if op[0] == 'burst' else [op[2] if op[0] == 'call' else op[4]]
            for m in poss[op[1]]:
                for call in calls:
                    need_.setdefault(codecs[op[1]], {}).setdefault(m, []).append(call)
    ref, built = {}, {}
    for si, jobs in need_.items():
        for m, (b, os) in solo_many(plan['schemas'][si], jobs).items():
            if b[0] == 'lost' or any(o[0] == 'lost' for o in os):
                raise Lost('solo call did not finish')
            built[si, m] = b
            for call, o in zip(jobs[m], os):
                ref[si, m, repr(call)] = tuple(o)
    viol, st, shape = [], {}, []
    poss = []
    ncall = nint = 0

    def bump(k, n=1):
        st[k] = st.get(k, 0) + n
    for k, (op, e) in enumerate(zip(ops, out)):
        kind, o = op[0], tuple(e['o'])
        bump('op:' + kind)
        if e.get('schema'):
            viol.append(['schema-changed', f'op {k} {op}: changed schema {e["schema"]}'])
        if e.get('fired'):
            bump('fault:' + str(e['fired']).split('@')[0] + ' in ' + {'cut': 'call', 'cutmode': 'set_mode', 'cutbuild': 'construction'}[kind])
            nint += 1
            if e.get('broke'):
                viol.append(['argument-changed', f'op {k} {op}: cut at {e["fired"]}: argument changed'])
        shape.append([kind, op[1], o[0], e.get('fired')])
        if kind == 'build':
            poss.append({tuple(op[2])})
            if o[0] != 'ok':
                if built.get((op[1], tuple(op[2])), ('?',))[0] == 'ok':
                    viol.append(['history', f'op {k} {op}: in this history {o}, alone it can be built'])
                    break
                return {'viol': viol, 'stats': {'skipped: codec cannot be built': 1}, 'log': 'skip', 'cov': []}
            continue
        if kind == 'cutbuild' or o == ('skip',):
            continue
        if kind == 'cutburst':
            bump('fault:' + op[2] + ' in burst of calls', e['hits'])
            nint += bool(e['hits'])
            if e['broke']:
                viol.append(['argument-changed', f'op {k} {op}: argument changed'])
            continue
        c = op[1]
        if kind == 'mode':
            poss[c] = {tuple(op[2])}
            nint += 1
            if o[0] != 'ok':
                viol.append(['mode-refused', f'op {k} {op}: {o}'])
        elif kind == 'cutmode':
            poss[c] = {tuple(op[4])} if o[0] == 'ok' else poss[c] | {tuple(op[4])}
        elif kind == 'cut':
            if o[0] == 'ok' or not e.get('fired') and o[1] not in ('RecursionError', 'MemoryError', 'KeyboardInterrupt'):
                fit = {m for m in poss[c] if ref[codecs[c], m, repr(op[4])] == o}
                if not fit and o[0] == 'ok':
                    viol.append(['wrong-answer-when-cut', f'op {k} {op}: cut at {e.get("fired")} answered {o}, alone {[ref[codecs[c], m, repr(op[4])] for m in poss[c]]}'])
                elif fit:
                    poss[c] = fit
            else:
                nint += 1
        else:
            calls = [op[2]] if kind == 'call' else [op[2][j % len(op[2])] for j in range(len(e.get('os', [])))]
            got = [o] if kind == 'call' else [tuple(x) for x in e['os']]
            for j, (call, g) in enumerate(zip(calls, got)):
                ncall += 1
                nint += g[0] == 'err'
                fit = {m for m in poss[c] if ref[codecs[c], m, repr(call)] == g}
                if not fit:
                    viol.append(['history', f'op {k}.{j} {call}: in this history {g}, alone in mode {sorted(poss[c])} {[ref[codecs[c], m, repr(call)] for m in sorted(poss[c])]}'])
                    break
                poss[c] = fit
    for k, was, now in late:
        viol.append(['late-change', f'op {k}: result was {was}, later became {now}'])
    bump('calls', ncall)
    if ncall >= 2 and nint:
        st['nontrivial'] = 1
    return {'viol': viol, 'stats': st, 'log': digest([out, late]), 'cov': [digest(shape)[:12]]}


def lists(plan):
    yield ('ops',)
    for k, op in enumerate(plan['ops']):
        if op[0] == 'burst':
            yield ('ops', k, 2)
        elif op[0] == 'cutburst':
            yield ('ops', k, 3)


def simpler(plan):
    for k, op in enumerate(plan['ops']):
        if op[0] == 'burst' and op[3] > 1:
            for n in (op[3] // 2, op[3] - 1):
                p = copy.deepcopy(plan)
                p['ops'][k][3] = n
                yield p
        elif op[0] == 'cutburst' and op[4] > 1:
            for n in (op[4] // 2, op[4] - 1):
                p = copy.deepcopy(plan)
                p['ops'][k][4] = n
                yield p


def valid(plan):
    n = 0
    for op in plan['ops']:
        if op[0] == 'build':
            n += 1
        elif op[0] != 'cutbuild' and op[1] >= n:
            return False
    return True
