"""C03: peers exchanging JSON messages recover exactly the value that was sent."""
import copy
import heapq
import json

from .. import gen, model
from ..base import canon, canon_u, digest, from_j, scrub, to_j
from ..node import Cluster, Session
from ..seams import set_env
from ..work import Book, MODES, safe, scribble
from .common import Harness, Lost

PROP = 'C03'
RUNS = {'quick': 7000, 'thorough': 40000}
REAL = ['jadn.codec (all modules)', 'jadn.transform.unfold_extensions', 'jadn.core', 'json', 'datetime (real conversions, simulated now)']
STUB = ['network (simulated delay, loss, duplication, reordering, retransmission)', 'clock', 'time zone and locale (set per simulated process)', 'process hash seed (chosen per peer)']
RULE = 'a run in which at least one message was delivered and at least one network fault, mode change or environment difference occurred'
MEASURE = 'distinct delivery histories: order of (message, mode, receiver, duplicate) per run'
ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Auckland', 'Europe/Berlin', 'XYZ+11:30', 'ABC-13DEF']
SEEDS = [0, 1, 42]
CL = None


def setup():
    global CL
    CL = Cluster(['jadn.codec', 'dst.checks.c03'])


def teardown():
    CL.close()


def peer_env(r):
    return {'hs': r.choice(SEEDS), 'tz': r.choice(ZONES), 'clock': r.choice([0.0, 951782400.0, 1710059400.0, 1699164000.5, 4102444800.0]),
            'locale': r.choice(['utf-8', 'cp1252', 'ascii']), 'rseed': r.randrange(1000), 'mode': list(r.choice(MODES))}


def gen_plan(r, i, tier):
    s = gen.gen_schema(r, ntypes=r.choice([2, 4, 6, 10]))
    b = Book(s, r)
    peers = [peer_env(r) for _ in range(r.choice([2, 2, 3]))]
    lossy = r.random() < .7
    focus = r.choice(b.names) if r.random() < .3 else None
    ev = []
    for k in range(r.choice([4, 8, 14])):
        t = r.randrange(0, 2000)
        src = r.randrange(len(peers))
        dst = r.choice([p for p in range(len(peers)) if p != src])
        x = r.random()
        name = focus if focus and r.random() < .6 else r.choice(b.names)
        try:
            if x < .12:
                ev.append({'t': t, 'k': 'bad', 'p': src, 'type': name, 'v': to_j(b.vg.invalid(name))})
            elif x < .2:
                ev.append({'t': t, 'k': 'mode', 'p': src, 'm': list(r.choice(MODES))})
            elif x < .27:
                ev.append({'t': t, 'k': 'clock', 'p': src, 'to': r.choice([0.0, -3600.0, 86400.0 * 180, 1e9])})
            else:
                v = b.vg.valid(name)
                copies = []
                if lossy:
                    for _ in range(r.choice([1, 1, 2, 3])):
                        copies.append({'d': r.choice([1, 5, 50, 700, 3000]), 'lost': r.random() < .3, 'ack_lost': r.random() < .3})
                else:
                    copies.append({'d': 1, 'lost': False, 'ack_lost': False})
                ev.append({'t': t, 'k': 'send', 'p': src, 'to': dst, 'type': name, 'v': to_j(v), 'copies': copies, 'ascii': r.random() < .5,
                           'rto': r.choice([10, 100, 1000])})
        except gen.Unfit:
            continue
    plan = {'schema': s, 'peers': peers, 'events': ev}
    return plan if safe(plan) else gen_plan(r, i, tier)


# ------------------------------------------------------------ inside a peer
class Peer:
    def __init__(self, schema, env):
        self.env = env
        set_env(env['tz'], env['clock'], 4000 + env['rseed'], env['rseed'], None, env['locale'])
        self.schema = schema
        self.was = canon(schema)
        self.codec = None

    def __call__(self, what, *a):
        return getattr(self, what)(*a)

    def start(self, m):
        from jadn.codec import Codec
        try:
            # the mode both peers leave out is the same as the one both name
            self.codec = Codec(self.schema, bool(m[0]), bool(m[1])) if any(m) or len(self.was) % 2 else Codec(self.schema)
        except Exception as e:
            return ('err', type(e).__name__, scrub(str(e)))
        return ('ok',)

    def mode(self, m):
        try:
            self.codec.set_mode(bool(m[0]), bool(m[1]))
        except Exception as e:
            return ('err', type(e).__name__, scrub(str(e)))
        return ('ok',)

    def clock(self, to):
        from ..seams import W
        W.clock = to if to > 0 else max(W.clock + to, 0.0)

    def enc(self, name, jv, ascii_):
        v = from_j(jv)
        was = canon(v)
        try:
            w = self.codec.encode(name, v)
        except Exception as e:
            return ('err', type(e).__name__, scrub(str(e)), canon(v) == was)
        try:
            text = json.dumps(w, ensure_ascii=ascii_)
        except Exception as e:
            return ('unsendable', type(e).__name__, scrub(str(e)) + ' ' + canon(w)[:300], canon(v) == was)
        same = canon(v) == was
        scribble(w)
        return ('ok', text, json.dumps(json.loads(text)), same)

    def dec(self, name, text):
        w = json.loads(text)
        was = canon(w)
        try:
            v = self.codec.decode(name, w)
        except Exception as e:
            return ('err', type(e).__name__, scrub(str(e)), canon(w) == was)
        r = ('ok', canon_u(v), canon(v), canon(w) == was)
        scribble(v)
        return r

    def schema_same(self):
        return canon(self.schema) == self.was


def peer(schema, env):
    return Peer(schema, env)


# ------------------------------------------------------------ the network
def run(plan):
    if 'finding' in plan:
        return probe(plan['finding'])
    t_wall = 30 * plan.get('patience', 1)
    P = []
    viol, st, log, order = [], {}, [], []

    def bump(k, n=1):
        st[k] = st.get(k, 0) + n
    try:
        for e in plan['peers']:
            P.append(Session(CL.node(e['hs']), 'dst.checks.c03:peer', plan['schema'], e, timeout=t_wall))

        def ask(p, *cmd):
            r = P[p].ask(*cmd)
            if r[0] == 'timeout':
                raise Lost(f'peer {p} {cmd[0]}')
            if r[0] != 'ok':
                raise Harness(f'peer {p} {cmd[0]}: {r}')
            log.append([p, cmd[0], repr(r[1])])
            return r[1]
        modes = [list(e['mode']) for e in plan['peers']]      # mode each codec is in
        speak = [list(e['mode']) for e in plan['peers']]      # mode each peer sends in
        for p, e in enumerate(plan['peers']):
            o = ask(p, 'start', e['mode'])
            if o[0] != 'ok':
                return {'viol': [['peer-failed', f'peer {p} cannot build a codec for a valid schema: {o}']], 'stats': {}, 'log': digest(log), 'cov': []}
        if len({json.dumps([e[k] for k in ('hs', 'tz', 'locale', 'clock')]) for e in plan['peers']}) > 1:
            bump('fault:peer environments differ')

        def to_mode(p, m):
            if modes[p] != list(m):
                o = ask(p, 'mode', m)
                bump('mode switches')
                if o[0] != 'ok':
                    viol.append(['mode-refused', f'peer {p} {m}: {o}'])
                    return False
                modes[p] = list(m)
            return True
        q, seq, now = [], 0, 0

        def at(t, *what):
            nonlocal seq
            seq += 1
            heapq.heappush(q, (t, seq, what))
        for k, e in enumerate(plan['events']):
            at(e['t'], 'ev', k)
        first = {}                     # (type, value, mode) -> message
        got = {}                       # event -> deliveries that decoded right
        acked = set()

        def transmit(k, n, t):
            """One transmission of message k: the sender encodes (again), the network does what it does."""
            e = plan['events'][k]
            m = list(speak[e['p']])
            if not to_mode(e['p'], m):
                return
            o = ask(e['p'], 'enc', e['type'], e['v'], e['ascii'])
            if not o[3]:
                viol.append(['value-changed', f'event {k}: encoding changed the caller\'s value of {e["type"]}'])
            if o[0] != 'ok':
                viol.append(['valid-refused', f'event {k}: valid value of {e["type"]} not sent in mode {m}: {o[:3]}: {json.dumps(e["v"])[:500]}'])
                return
            key = (e['type'], json.dumps(e['v']), tuple(m))
            if first.setdefault(key, o[2]) != o[2]:
                viol.append(['not-repeatable', f'event {k}: message was {first[key]} now {o[2]}'])
            c = e['copies'][n] if n < len(e['copies']) else {'d': 1, 'lost': False, 'ack_lost': False}
            if n:
                bump('fault:retransmission')
            if c['lost']:
                bump('fault:message lost')
            else:
                if c['d'] > 100:
                    bump('fault:message delayed')
                at(t + c['d'], 'deliver', k, n, m, o[1], c['ack_lost'])
            if n + 1 < len(e['copies']) or c['lost']:
                at(t + e['rto'], 'retry', k, n + 1)
        steps = 0
        while q and not viol:
            now, _, what = heapq.heappop(q)
            steps += 1
            if steps > 2000:
                viol.append(['no-progress', 'exchange did not finish'])
                break
            if what[0] == 'ev':
                e = plan['events'][what[1]]
                if e['k'] == 'mode':
                    speak[e['p']] = list(e['m'])
                    bump('fault:mode changed with messages in flight')
                elif e['k'] == 'clock':
                    ask(e['p'], 'clock', e['to'])
                    bump('fault:clock jump')
                elif e['k'] == 'bad':
                    if to_mode(e['p'], speak[e['p']]):
                        o = ask(e['p'], 'enc', e['type'], e['v'], True)
                        bump('invalid values offered')
                        if o[0] == 'ok':
                            viol.append(['invalid-sent', f'event {what[1]}: invalid value of {e["type"]} was encoded: {json.dumps(e["v"])[:600]} as {o[1][:300]}'])
                else:
                    transmit(what[1], 0, now)
            elif what[0] == 'retry':
                k, n = what[1:]
                if k not in acked:
                    transmit(k, n, now)
            else:
                k, n, m, text, ack_lost = what[1:]
                e = plan['events'][k]
                order.append([k, n, m, e['to']])
                if k in got:
                    bump('fault:message duplicated')
                if order[:-1] and k < order[-2][0]:
                    bump('fault:message reordered')
                if not to_mode(e['to'], m):
                    break
                o = ask(e['to'], 'dec', e['type'], text)
                bump('messages delivered')
                if not o[3]:
                    viol.append(['message-changed', f'event {k}: decoding changed the message'])
                sent = canon_u(from_j(e['v']))
                if o[0] != 'ok':
                    viol.append(['valid-message-refused', f'event {k} {e["type"]} mode {m}: {text[:500]}: {o[:3]}'])
                elif o[1] != sent:
                    viol.append(['not-recovered', f'event {k} {e["type"]} mode {m}: sent {sent[:500]} as {text[:500]} received {o[1][:500]}'])
                else:
                    got[k] = got.get(k, 0) + 1
                if not ack_lost:
                    acked.add(k)
                else:
                    bump('fault:acknowledgement lost')
        if not viol:
            for k, e in enumerate(plan['events']):
                if e['k'] == 'send' and k not in got:
                    viol.append(['never-delivered', f'event {k}'])
            for p in range(len(P)):
                if not ask(p, 'schema_same'):
                    viol.append(['schema-changed', f'peer {p}'])
        st['sim_s'] = now / 1000
        if order and any(k.startswith('fault:') for k in st):
            st['nontrivial'] = 1
        return {'viol': viol, 'stats': st, 'log': digest(log), 'cov': [digest(order)[:12]]}
    finally:
        for p in P:
            p.close()


def probe(fid):
    """Known findings, tried directly."""
    if fid == 'bare-binary-field':
        s = {'types': [['R', 'Record', [], '', [[1, 'b', 'Binary', [], '']]]]}
        p = Session(CL.node(0), 'dst.checks.c03:peer', s, {'tz': 'UTC', 'clock': 0.0, 'rseed': 0, 'locale': 'utf-8'})
        try:
            p.ask('start', [1, 1])
            o = p.ask('enc', 'R', to_j({'b': b'\x00\x01'}), True)
            return {'viol': [], 'stats': {}, 'log': '', 'cov': [], 'finding': o[0] == 'ok' and o[1][0] == 'unsendable'}
        finally:
            p.close()
    return {'viol': [], 'stats': {}, 'log': '', 'cov': []}


def lists(plan):
    yield ('events',)
    for k, e in enumerate(plan['events']):
        if e['k'] == 'send':
            yield ('events', k, 'copies')


def simpler(plan):
    from ..shrink import schema_simpler
    used = {e['type'] for e in plan['events'] if 'type' in e}
    for s in schema_simpler(plan['schema'], used):
        m = model.Model(s)
        try:
            if all(m.verdict(m.typ(e['type']), from_j(e['v'])) is (e['k'] == 'send') for e in plan['events'] if 'type' in e):
                yield {**plan, 'schema': s}
        except Exception:
            pass
