"""C14: peers that hold one schema in different forms understand each other."""
import copy
import heapq
import json

from .. import gen, model
from ..base import canon, canon_u, digest, from_j, scrub, to_j
from ..node import Cluster, Session
from ..work import Book, MODES, safe
from .c03 import Peer as Plain, peer_env
from .common import Harness, Lost

PROP = 'C14'
RUNS = {'quick': 4500, 'thorough': 40000}
REAL = ['jadn.transform (unfold_extensions, strip_comments)', 'jadn.codec (all modules)', 'jadn.core and jadn.convert (saving and loading the form a peer holds)', 'json']
STUB = ['network (simulated delay, loss, duplication, reordering, damage)', 'peer restarts (rolling upgrade to another form of the schema)', 'clock', 'time zone and locale (set per simulated process)', 'process hash seed (chosen per peer)']
RULE = 'a run in which at least one message reached a peer that holds another form of the schema than its sender, or a damaged message reached all peers'
MEASURE = 'distinct histories of deliveries: (form of sender, form of receiver, mode, kind, outcome class) per run'
FORMS = ['', 'unfold', 'strip', 'cut', 'strip unfold', 'unfold strip', 'unfold unfold', 'unfold json', 'Link', 'Multiplicity', 'AnonymousType', 'DerivedEnum', 'MapOfEnum',
         'Multiplicity unfold', 'DerivedEnum unfold', 'MapOfEnum unfold', 'Link AnonymousType', 'AnonymousType DerivedEnum json MapOfEnum']
DOCS = ['jadn', 'jadn unfold', 'jidl', 'html', 'jidl unfold', 'html unfold', 'jidl html', 'strip jidl', 'html jadn unfold']
CL = None


def setup():
    global CL
    CL = Cluster(['jadn.codec', 'jadn.convert', 'dst.checks.c14'])


def teardown():
    CL.close()


def gen_plan(r, i, tier):
    docs = r.random() < .12       # saving and loading is slow
    s = gen.gen_schema(r, ntypes=r.choice([1, 2, 4, 6, 10]), **({'docs': True, 'hard': r.random() < .7} if docs else {}))
    b = Book(s, r)
    forms = FORMS + (DOCS if docs else [])
    peers = [{**peer_env(r), 'form': r.choice(forms)} for _ in range(r.choice([2, 3, 3]))]
    peers[r.randrange(len(peers))]['form'] = 'unfold' if r.random() < .6 else ''
    focus = r.choice(b.names) if r.random() < .3 else None
    ev = []
    last = None
    for k in range(r.choice([4, 8, 14])):
        t = r.randrange(0, 2000)
        src = r.randrange(len(peers))
        x = r.random()
        name = focus if focus and r.random() < .6 else r.choice(b.names)
        mode = list(r.choice(MODES))
        try:
            if x < .12:
                ev.append({'t': t, 'k': 'bad', 'p': src, 'type': name, 'v': to_j(b.vg.invalid(name)), 'm': mode})
            elif x < .22:
                ev.append({'t': t, 'k': 'upgrade', 'p': src, 'form': r.choice(forms), 'hs': peer_env(r)['hs']})
            elif x < .5:
                iv = r.random() < .4
                v = b.vg.invalid(name) if iv else b.vg.valid(name)
                text = json.dumps(b.m.enc(b.m.typ(name), v, *mode))
                if iv:
                    kind, w = 'forged', text.encode()
                else:
                    kind, w = gen.damage_text(text, r, last)
                    last = text
                ev.append({'t': t, 'k': 'junk', 'type': name, 'm': mode, 'w': w.hex(), 'kind': kind})
            else:
                copies = [{'d': r.choice([1, 5, 50, 700, 3000]), 'lost': r.random() < .25} for _ in range(r.choice([1, 1, 2]))]
                ev.append({'t': t, 'k': 'send', 'p': src, 'type': name, 'v': to_j(b.vg.valid(name)), 'copies': copies, 'm': mode})
        except Exception:       # the model encodes valid values only
            continue
    plan = {'schema': s, 'peers': peers, 'events': ev}
    return plan if safe(plan) else gen_plan(r, i, tier)


# ------------------------------------------------------------ inside a peer
def extensions(s):
    """Extensions left in a schema, told from the JADN specification."""
    from jadn.utils import ftopts_s2d, topts_s2d
    base = {t[0]: t[1] for t in s['types']}
    out = []
    for t in s['types']:
        to = topts_s2d(list(t[2]))
        if 'enum' in to or 'pointer' in to:
            out.append(f'{t[0]}: derived enumeration')
        if t[1] == 'MapOf' and base.get(to.get('ktype')) == 'Enumerated':
            out.append(f'{t[0]}: map with enumerated keys')
        if t[1] == 'Enumerated':
            continue
        for f in t[4]:
            fo, fto = ftopts_s2d(list(f[3]))
            if fto:
                out.append(f'{t[0]}/{f[1]}: anonymous type')
            if fo.get('maxc', 1) != 1:
                out.append(f'{t[0]}/{f[1]}: multiplicity')
            if 'link' in fo:
                out.append(f'{t[0]}/{f[1]}: link')
    return out


class Peer(Plain):
    def prepare(self, form):
        import jadn
        from jadn import convert, transform
        s = self.schema
        left = []
        try:
            for step in form.split():
                was = canon(s)
                given = s
                if step == 'unfold' or step[0].isupper():
                    s = transform.unfold_extensions(s, {step}) if step != 'unfold' else transform.unfold_extensions(s)
                    s['types'] = [list(t) for t in s['types']]
                    for t in s['types']:
                        t[4] = [list(f) for f in t[4]]
                    left = extensions(s) if step == 'unfold' else left
                elif step in ('strip', 'cut'):
                    s = transform.strip_comments(s, 0 if step == 'strip' else 12)
                elif step == 'json':
                    s = json.loads(json.dumps(s))
                elif step == 'jadn':
                    s = jadn.loads(jadn.dumps(s))
                else:
                    s = getattr(convert, step + '_loads')(getattr(convert, step + '_dumps')(s))
                if canon(given) != was:
                    return ('changed', step)
        except Exception as e:
            return ('err', type(e).__name__, scrub(str(e)))
        self.schema, self.was = s, canon(s)
        return ('ok', left)

    def hear(self, name, hexed):
        """A message that may be damaged."""
        try:
            w = json.loads(bytes.fromhex(hexed).decode('utf8'))
        except (ValueError, RecursionError):
            return ('notjson',)
        try:
            v = self.codec.decode(name, w)
        except Exception as e:
            return ('err', type(e).__name__, scrub(str(e)), isinstance(e, (ValueError, TypeError)))
        return ('ok', canon_u(v), to_j(v))


def peer(schema, env):
    return Peer(schema, env)


# ------------------------------------------------------------ the network
def run(plan):
    t_wall = 30 * plan.get('patience', 1)
    P, forms, modes = [], [], []
    viol, st, log, order = [], {}, [], []
    m = model.Model(plan['schema'])

    def bump(k, n=1):
        st[k] = st.get(k, 0) + n

    def ask(p, *cmd):
        r = P[p].ask(*cmd)
        if r[0] == 'timeout':
            raise Lost(f'peer {p} {cmd[0]}')
        if r[0] != 'ok':
            raise Harness(f'peer {p} {cmd[0]}: {r}')
        log.append([p, cmd[0], repr(r[1])])
        return r[1]

    def boot(p, form, mode):
        """The process of the peer has started: it prepares its form of the schema and builds its codec."""
        o = ask(p, 'prepare', form)
        if o[0] != 'ok':
            viol.append(['form-refused' if o[0] == 'err' else 'schema-changed', f'peer {p} form "{form}": {o[1:]}'])
            return False
        if o[1]:
            viol.append(['extension-left', f'form "{form}": {o[1][:5]}'])
        o = ask(p, 'start', mode)
        if o[0] != 'ok':
            viol.append(['peer-failed', f'peer {p} cannot build a codec from form "{form}": {o[1:]}'])
            return False
        return True

    def to_mode(p, mode):
        if modes[p] != list(mode):
            o = ask(p, 'mode', mode)
            if o[0] != 'ok':
                viol.append(['mode-refused', f'peer {p} form "{forms[p]}" {mode}: {o}'])
                return False
            modes[p] = list(mode)
        return True
    try:
        for p, e in enumerate(plan['peers']):
            P.append(Session(CL.node(e['hs']), 'dst.checks.c14:peer', plan['schema'], e, timeout=t_wall))
            forms.append(e['form'])
            modes.append(list(e['mode']))
            bump('form "' + e['form'] + '"')
            if not boot(p, e['form'], e['mode']):
                return {'viol': viol, 'stats': st, 'log': digest(log), 'cov': []}
        q, seq, now = [], 0, 0

        def at(t, *what):
            nonlocal seq
            seq += 1
            heapq.heappush(q, (t, seq, what))
        for k, e in enumerate(plan['events']):
            at(e['t'], 'ev', k)
        first, got = {}, set()
        steps = 0
        while q and not viol:
            now, _, what = heapq.heappop(q)
            steps += 1
            if steps > 2000:
                viol.append(['no-progress', 'exchange did not finish'])
                break
            k = what[1]
            e = plan['events'][k]
            if what[0] == 'deliver':
                text, src, n = what[2:]
                if k in got:
                    bump('fault:message duplicated')
                if order and k < order[-1][0]:
                    bump('fault:message reordered')
                for p in range(len(P)):
                    if p == e['p'] and n == 0:
                        continue
                    if not to_mode(p, e['m']):
                        break
                    o = ask(p, 'dec', e['type'], text)
                    bump('messages delivered')
                    if forms[p] != src:
                        st['nontrivial'] = 1
                        bump('messages delivered to another form')
                    order.append([k, src, forms[p], e['m'], o[0]])
                    if o[0] != 'ok':
                        viol.append(['valid-message-refused', f'event {k} {e["type"]} mode {e["m"]} from form "{src}" to form "{forms[p]}": {text[:500]}: {o[:3]}'])
                    elif o[1] != canon_u(from_j(e['v'])):
                        viol.append(['not-recovered', f'event {k} {e["type"]} mode {e["m"]} from form "{src}" to form "{forms[p]}": sent {canon_u(from_j(e["v"]))[:500]} as {text[:500]} received {o[1][:500]}'])
                    got.add(k)
            elif e['k'] == 'upgrade':
                p = e['p']
                P[p].close()
                env = {**plan['peers'][p], 'hs': e['hs']}
                P[p] = Session(CL.node(e['hs']), 'dst.checks.c14:peer', plan['schema'], env, timeout=t_wall)
                forms[p], modes[p] = e['form'], list(env['mode'])
                bump('fault:peer restarted with another form')
                bump('form "' + e['form'] + '"')
                boot(p, e['form'], env['mode'])
            elif e['k'] == 'bad':
                bump('invalid values offered')
                for p in range(len(P)):
                    if to_mode(p, e['m']):
                        o = ask(p, 'enc', e['type'], e['v'], True)
                        order.append([k, forms[p], 'bad', e['m'], o[0]])
                        if o[0] == 'ok':
                            viol.append(['invalid-sent', f'event {k}: form "{forms[p]}" encoded an invalid value of {e["type"]}: {json.dumps(e["v"])[:600]} as {o[1][:300]}'])
            elif e['k'] == 'junk':
                bump('fault:damage ' + e['kind'].split('+')[0])
                ans = []
                for p in range(len(P)):
                    if not to_mode(p, e['m']):
                        break
                    o = ask(p, 'hear', e['type'], e['w'])
                    ans.append(o)
                    order.append([k, forms[p], e['kind'], e['m'], o[0]])
                if viol or ans[0][0] == 'notjson':
                    continue
                st['nontrivial'] = 1
                what = f'event {k} {e["kind"]} message of {e["type"]} mode {e["m"]}: {bytes.fromhex(e["w"])[:500]}'
                for p, o in enumerate(ans):
                    if o[0] == 'err' and not o[3]:
                        viol.append(['undocumented-error', f'{what}: form "{forms[p]}": {o[1:3]}'])
                    elif o[:2] != ans[0][:2] and 'ok' in (o[0], ans[0][0]):
                        viol.append(['disagree', f'{what}: form "{forms[0]}" {ans[0][:3]}, form "{forms[p]}" {o[:3]}'])
                if ans[0][0] == 'ok' and not viol:
                    bump('damaged messages accepted by all')
                    try:
                        ok = m.verdict(m.typ(e['type']), from_j(ans[0][2]))
                    except (RecursionError, model.NoOpinion):
                        ok = None
                    if ok is False:
                        viol.append(['accepted-invalid', f'{what}: {ans[0][1][:400]}'])
            else:
                n = what[2] if what[0] == 'retry' else 0
                if n and k in got and n >= len(e['copies']):
                    continue
                p = e['p']
                if not to_mode(p, e['m']):
                    break
                o = ask(p, 'enc', e['type'], e['v'], True)
                if o[0] != 'ok':
                    viol.append(['valid-refused', f'event {k}: form "{forms[p]}" did not send a valid value of {e["type"]} in mode {e["m"]}: {o[:3]}: {json.dumps(e["v"])[:500]}'])
                    break
                key = (e['type'], json.dumps(e['v']), tuple(e['m']))
                if first.setdefault(key, (o[2], forms[p]))[0] != o[2]:
                    viol.append(['other-message', f'event {k}: form "{first[key][1]}" sent {first[key][0][:400]}, form "{forms[p]}" sends {o[2][:400]}'])
                if n == 0:      # every form puts the same message on the wire
                    for x in range(len(P)):
                        if x != p and forms[x] != forms[p] and to_mode(x, e['m']):
                            y = ask(x, 'enc', e['type'], e['v'], True)
                            if y[0] != 'ok' or y[2] != o[2]:
                                viol.append(['other-message', f'event {k} {e["type"]}: form "{forms[p]}" sends {o[2][:400]}, form "{forms[x]}" {y[:3]}'])
                c = e['copies'][n] if n < len(e['copies']) else {'d': 1, 'lost': False}
                if c['lost']:
                    bump('fault:message lost')
                else:
                    if c['d'] > 100:
                        bump('fault:message delayed')
                    at(now + c['d'], 'deliver', k, o[1], forms[p], n)
                if n + 1 < len(e['copies']) or c['lost']:
                    at(now + 100, 'retry', k, n + 1)
        if not viol:
            for k, e in enumerate(plan['events']):
                if e['k'] == 'send' and k not in got:
                    viol.append(['never-delivered', f'event {k}'])
            for p in range(len(P)):
                if not ask(p, 'schema_same'):
                    viol.append(['schema-changed', f'peer {p} form "{forms[p]}"'])
        st['sim_s'] = now / 1000
        return {'viol': viol, 'stats': st, 'log': digest(log), 'cov': [digest(order)[:12]]}
    finally:
        for p in P:
            p.close()


def lists(plan):
    yield ('events',)
    for k, e in enumerate(plan['events']):
        if e['k'] == 'send':
            yield ('events', k, 'copies')


def simpler(plan):
    from ..shrink import schema_simpler
    for p in range(len(plan['peers'])):
        f = plan['peers'][p]['form'].split()
        for k in range(len(f)):
            n = copy.deepcopy(plan)
            n['peers'][p]['form'] = ' '.join(f[:k] + f[k + 1:])
            yield n
    used = {e['type'] for e in plan['events'] if 'type' in e}
    for s in schema_simpler(plan['schema'], used):
        m = model.Model(s)
        try:
            if all(m.verdict(m.typ(e['type']), from_j(e['v'])) is (e['k'] == 'send') for e in plan['events'] if 'v' in e):
                yield {**plan, 'schema': s}
        except Exception:
            pass
