"""C04: a damaged or hostile message is refused or decodes to a schema-valid value."""
import copy
import json

from .. import gen, model
from ..base import canon, canon_u, digest, from_j, scrub, to_j
from ..node import run_forked
from ..work import Book, MODES, new_codec, safe
from .common import need

PROP = 'C04'
RUNS = {'quick': 12000, 'thorough': 90000}
REAL = ['jadn.codec (all modules)', 'json parser']
STUB = ['network (simulated damage to message bytes: bit flips, truncation, splices, lost and duplicated spans, retyped, forged and out-of-range fields)', 'clock']
RULE = 'a run in which at least one damaged message reached the decoder (was still JSON)'
MEASURE = 'distinct (type kind, mode, damage kind, outcome class) histories per run'


def deep(r):
    k = r.choice([60, 300, 900, 3000, 60000])
    o, c = r.choice([('[', ']'), ('{"a":', '}'), ('{"1":', '}')])
    return (o * k + '1' + c * k).encode()


def gen_plan(r, i, tier):
    s = gen.gen_schema(r, ntypes=r.choice([1, 2, 4, 6, 10]))
    b = Book(s, r)
    mode = list(r.choice(MODES))
    msgs = []
    focus = r.choice(b.names) if r.random() < .4 else None
    last = None
    for _ in range(r.choice([10, 20, 40])):
        name = focus if focus and r.random() < .7 else r.choice(b.names)
        n = b.m.typ(name)
        try:
            v = b.vg.valid(name)
            text = json.dumps(b.m.enc(n, v, *mode))
        except (gen.Unfit, model.NoOpinion, TypeError, ValueError):
            continue
        x = r.random()
        if x < .2:
            msgs.append(['intact', name, text.encode().hex(), to_j(v)])
        elif x < .45:
            try:
                iv = b.vg.invalid(name)
                w = json.dumps(b.m.enc(n, iv, *mode)).encode()
                msgs.append(['forged', name, w.hex()])
            except Exception:
                continue
        elif x < .46:
            msgs.append(['deep', name, deep(r).hex() if r.random() < .5 else text.replace('"', '').replace('1', deep(r).decode(), 1).encode().hex()])
        else:
            k, w = gen.damage_text(text, r, last)
            if r.random() < .15:
                try:
                    k2, w = gen.damage_text(w.decode(), r, last)
                    k = k + '+' + k2
                except Exception:
                    pass
            msgs.append([k, name, w.hex()])
        last = text
    plan = {'schema': s, 'mode': mode, 'msgs': msgs}
    return plan if safe(plan) else gen_plan(r, i, tier)


def whole(w, e):
    """Does the encoding e of a decoded value hold everything the message w holds? Absent optional fields may be null, texts may be spelled otherwise."""
    if isinstance(w, dict) and isinstance(e, dict):
        w, e = ({k: v for k, v in x.items() if v is not None} for x in (w, e))
        if len(w) != len(e):
            return False
        return all(whole(w[k], e[k]) if k in e else True for k in w)
    if isinstance(w, list) and isinstance(e, list):
        w, e = list(w), list(e)
        for x in (w, e):
            while x and x[-1] is None:
                x.pop()
        return len(w) == len(e) and all(whole(a, b) for a, b in zip(w, e))
    if isinstance(w, str) and isinstance(e, str):
        return True
    return not isinstance(w, (dict, list)) and not isinstance(e, (dict, list)) and w == e


def _receiver(plan):
    c = new_codec(copy.deepcopy(plan['schema']), *plan['mode'])
    out = []
    for m in plan['msgs']:
        try:
            w = json.loads(bytes.fromhex(m[2]).decode('utf8'))
        except (ValueError, RecursionError) as e:
            out.append(('notjson', type(e).__name__))
            continue
        try:
            v = c.decode(m[1], w)
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            tree = [k.__name__ for k in type(e).__mro__]
            out.append(('err', type(e).__name__, scrub(str(e))[:300], 'ValueError' in tree or 'TypeError' in tree))
            continue
        try:
            out.append(('ok', to_j(v), canon_u(v)))
        except RecursionError:
            out.append(('deepvalue',))
    return out


def run(plan):
    res = run_forked(_receiver, (plan,), 40 * plan.get('patience', 1))
    if res[0] == 'exc':
        r2 = run_forked(_builds, (plan,), 40)
        if r2[0] == 'ok' and not r2[1]:
            return {'viol': [['receiver-failed', 'codec cannot be built for a valid schema: ' + res[1]]], 'stats': {}, 'log': 'x', 'cov': []}
    if res[0] == 'exit':
        return {'viol': [['receiver-crashed', f'receiver process ended with status {res[1]}']], 'stats': {}, 'log': str(res), 'cov': []}
    out = need(res)
    m = model.Model(plan['schema'])
    viol, st, shape = [], {}, []

    def bump(k, n=1):
        st[k] = st.get(k, 0) + n
    for k, (msg, o) in enumerate(zip(plan['msgs'], out)):
        kind, name = msg[0], msg[1]
        shape.append([kind, m.typ(name).base, plan['mode'], o[0] + (o[1] if o[0] == 'err' else '')])
        if kind == 'intact':
            bump('intact messages')
            want = canon_u(from_j(msg[3]))
            if o[0] != 'ok' or o[2] != want:
                viol.append(['intact-not-served', f'msg {k} {name} mode {plan["mode"]}: {bytes.fromhex(msg[2]).decode()[:400]} should give {want[:300]}, gave {o}'])
            continue
        bump('fault:' + kind.split('+')[0])
        if o[0] == 'notjson':
            bump('damaged: not JSON any more')
            continue
        st['nontrivial'] = 1
        text = bytes.fromhex(msg[2])[:500]
        if o[0] == 'err':
            bump('damaged: refused')
            if not o[3] and not (kind == 'deep' and o[1] == 'RecursionError'):
                viol.append(['undocumented-error', f'msg {k} {name} mode {plan["mode"]}: {text}: {o[1]}: {o[2]}'])
        elif o[0] == 'ok':
            bump('damaged: accepted')
            try:
                ver = m.verdict(m.typ(name), from_j(o[1]))
            except (RecursionError, model.NoOpinion):
                ver = None
            if ver is False:
                viol.append(['accepted-invalid', f'msg {k} {name} mode {plan["mode"]}: {text} decoded to {o[2][:400]}, which breaks the schema'])
            elif ver is None:
                bump('accepted without an opinion of the model')
            else:
                try:
                    e = json.loads(json.dumps(m.enc(m.typ(name), from_j(o[1]), *plan['mode'])))
                    w = json.loads(bytes.fromhex(msg[2]).decode('utf8'))
                except (RecursionError, model.NoOpinion, ValueError, TypeError):
                    continue
                if any(t[1] == 'Choice' and {'CA', 'CO', 'CX'} & set(t[2]) for t in plan['schema']['types']) and not whole(w, e):
                    bump('accepted messages of an untagged union not compared')      # Its value may encode by another alternative
                elif whole(w, e):
                    bump('accepted messages whose every part is in the value')
                else:
                    viol.append(['content-dropped', f'msg {k} {name} mode {plan["mode"]}: {text} decoded to {o[2][:400]}, which is {json.dumps(e)[:400]}'])
    return {'viol': viol, 'stats': st, 'log': digest(out), 'cov': [digest(shape)[:12]]}


def _builds(plan):
    try:
        new_codec(copy.deepcopy(plan['schema']), *plan['mode'])
        return True
    except Exception:
        return False


def lists(plan):
    yield ('msgs',)


def simpler(plan):
    from ..shrink import schema_simpler
    used = {m[1] for m in plan['msgs']}
    for s in schema_simpler(plan['schema'], used):
        m = model.Model(s)
        try:
            if all(m.verdict(m.typ(g[1]), from_j(g[3])) is True and json.dumps(m.enc(m.typ(g[1]), from_j(g[3]), *plan['mode'])) == bytes.fromhex(g[2]).decode()
                   for g in plan['msgs'] if g[0] == 'intact'):
                yield {**plan, 'schema': s}
        except Exception:
            pass
