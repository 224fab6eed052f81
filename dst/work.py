"""Workload pieces shared by the codec checks: schemas, calls, how a call is performed and what it is compared with."""
import copy
import json

from . import gen, model
from .base import canon, from_j, outcome, scrub, to_j
from .node import run_forked

MODES = ((0, 0), (0, 1), (1, 0), (1, 1))


def variant(schema, r):
    """A schema with the same type names but other limits, items, options: what a cache keyed too coarsely confuses."""
    for _ in range(10):
        s = copy.deepcopy(schema)
        for t in s['types']:
            if r.random() < .5:
                t[2] = [f'}}{int(o[1:]) + r.choice([-1, 1, 2])}' if o[0] == '}' and o[1:].isdigit() and r.random() < .7 else o for o in t[2]]
            if len(t[4]) > 1 and r.random() < .6:
                a, b = r.sample(range(len(t[4])), 2)
                if t[1] != 'Enumerated' and not any(o[0] in '&KL' for f in t[4] for o in f[3]):
                    t[4][a][1], t[4][b][1] = t[4][b][1], t[4][a][1]
                elif t[1] == 'Enumerated':
                    t[4][a][1], t[4][b][1] = t[4][b][1], t[4][a][1]
            if t[1] in ('Record', 'Map', 'Choice') and t[4] and r.random() < .3:
                f = r.choice(t[4])
                if f[2] in ('Integer', 'String', 'Number', 'Boolean') and not f[3]:
                    f[2] = r.choice(['Integer', 'String', 'Number', 'Boolean'])
        try:
            if not model.schema_errors(s):
                return s
        except Exception:
            pass
    return copy.deepcopy(schema)


class Book:
    """Values and messages of one schema (API side and wire side), valid and not."""

    def __init__(self, schema, r):
        self.s, self.r = schema, r
        self.m = model.Model(schema)
        self.vg = gen.ValueGen(self.m, r)
        self.names = [t[0] for t in schema['types']]
        self.recent = []

    def value(self, name, p_invalid=.25):
        r = self.r
        if self.recent and r.random() < .15:
            return r.choice(self.recent)
        try:
            v = self.vg.invalid(name) if r.random() < p_invalid else self.vg.valid(name)
        except gen.Unfit:
            v = r.choice(gen.JUNK)
        if len(self.recent) < 12:
            self.recent.append(v)
        return v

    def wire(self, name, mode, p_damage=.3):
        """A message as it would arrive (parsed JSON)."""
        r = self.r
        for _ in range(4):
            try:
                v = self.vg.valid(name)
                w = self.m.enc(self.m.typ(name), v, *mode)
                text = json.dumps(w)
            except (gen.Unfit, model.NoOpinion, TypeError, ValueError):
                continue
            if r.random() < p_damage:
                for _ in range(4):
                    try:
                        return json.loads(gen.damage_text(text, r)[1].decode('utf8'))
                    except (ValueError, RecursionError):
                        pass
            return json.loads(text)
        return r.choice([j for j in gen.JUNK if not isinstance(j, bytes)])

    def call(self, mode, p_bad=.3):
        """One codec call: ['e'|'d', type, value]."""
        r = self.r
        name = r.choice(self.names) if r.random() < .97 else 'No-Such'
        if name == 'No-Such':
            return [r.choice('ed'), name, 1]
        if r.random() < .5:
            return ['e', name, to_j(self.value(name, p_bad))]
        return ['d', name, to_j(self.wire(name, mode, p_bad))]


def safe(v):
    """Plan values must survive JSON: floats that JSON can carry, text without lone surrogates."""
    try:
        return json.loads(json.dumps(v)) == v
    except (TypeError, ValueError):
        return False


def perform(codec, call):
    """-> (outcome, result object or None)."""
    arg = from_j(call[2])
    fn = codec.encode if call[0] == 'e' else codec.decode
    try:
        res = fn(call[1], arg)
    except Exception as e:
        return ('err', type(e).__name__, scrub(str(e))), None, arg
    return ('ok', canon(res)), res, arg


def scribble(v, depth=0):
    """What a caller may do with what it was given: overwrite it."""
    if isinstance(v, dict):
        for x in list(v.values()):
            scribble(x, depth + 1)
        v['$scribble'] = '$'
    elif isinstance(v, list):
        for x in v:
            scribble(x, depth + 1)
        v.append('$scribble')


def new_codec(schema, vr, vs):
    from jadn.codec import Codec
    return Codec(schema, bool(vr), bool(vs))


def _solo_calls(schema, vr, vs, calls):
    """Each call alone: a codec built from a pristine process, one call per process."""
    try:
        c = new_codec(copy.deepcopy(schema), vr, vs)
    except Exception as e:
        o = ('err', type(e).__name__, scrub(str(e)))
        return o, [o for _ in calls]
    out = []
    for call in calls:
        r = run_forked(_solo_one, (c, call), 30)
        out.append(r[1] if r[0] == 'ok' else ('lost', *r))
    return ('ok',), out


def _solo_one(codec, call):
    return perform(codec, call)[0]


def solo(schema, vr, vs, calls, timeout=60):
    """-> (build outcome, outcomes)."""
    r = run_forked(_solo_calls, (schema, vr, vs, calls), timeout)
    return r[1] if r[0] == 'ok' else (('lost', *r), [('lost', *r)] * len(calls))


def _solo_many(schema, jobs):
    """jobs: {mode: [calls]} -> {mode: (build outcome, outcomes)}; counts: library call boundaries of each call."""
    return {mode: _solo_calls(schema, *mode, calls) for mode, calls in jobs.items()}


def solo_many(schema, jobs, timeout=60):
    r = run_forked(_solo_many, (schema, jobs), timeout)
    return r[1] if r[0] == 'ok' else {m: (('lost', *r), [('lost', *r)] * len(c)) for m, c in jobs.items()}


def _count(schema, what):
    """Library call boundaries passed by each action of `what` when it is not cut short."""
    from . import inject
    out = []
    for w in what:
        def one(w=w):
            if w[0] == 'build':
                return inject.cut(new_codec, 'count', 0, copy.deepcopy(schema), *w[1])[0].count
            c = new_codec(copy.deepcopy(schema), *w[1])
            if w[0] == 'mode':
                return inject.cut(c.set_mode, 'count', 0, *map(bool, w[2]))[0].count
            call = w[2]
            return inject.cut(c.encode if call[0] == 'e' else c.decode, 'count', 0, call[1], from_j(call[2]))[0].count
        r = run_forked(one, (), 30)
        out.append(r[1] if r[0] == 'ok' else 0)
    return out


def count_events(schema, what):
    r = run_forked(_count, (schema, what), 60)
    return r[1] if r[0] == 'ok' else [0] * len(what)
