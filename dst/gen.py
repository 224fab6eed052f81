"""Seeded generators: schemas, API values (valid and invalid), wire damage.  Plain JSON-able data; no library code."""
import json

from .model import Model, NoOpinion, STRFMT, FIELDED, PRIM

TNAMES = ['Alpha', 'Bravo', 'Charlie', 'Delta', 'Echo', 'Fox-Trot', 'Golf', 'Hotel9', 'India', 'Juliet', 'Kilo', 'Lima',
          'Mike', 'Nov-ember', 'Oscar', 'Papa', 'Quebec', 'Romeo', 'Sierra', 'Tango', 'Uniform', 'Victor', 'Whiskey', 'X-Ray',
          'Yankee', 'Zulu', 'B', 'Nested-Configuration-Parameter-List', 'R2D2']
FNAMES = ['alpha', 'beta_1', 'gamma', 'deltaX', 'eps', 'zeta', 'eta', 'theta', 'iota', 'kappa', 'lam_bda', 'mu', 'nu', 'xi', 'omi',
          'pi2', 'rho', 'sigma', 'tau', 'ups', 'phi', 'chi', 'psi', 'omega', 'q', 'a_name_longer_than_any_column', 'type', 'id']
ITEMS = ['red', 'green', 'blue', 'dark-red', 'x', 'yes', 'no', 'Upper', 'a_b', 'n1', 'left', 'right', 'up', 'down']
DESCS = ['', '', 'Simple text', 'Gr\u00f6\u00dfe \u2013 na\u00efve \u2713', '\u65e5\u672c\u8a9e', 'x < y & z > w', "it's 'quoted'",
         'a; b, c (d) [e] {f}', 'see RFC 1234 \u00a73', 'party \U0001f389', 'a = b', 'http://example.com/a?b=c', '100% #1',
         'one // two', 'semi: colon', 'a "q" // b', 'say "no" {x}', 'a | b', '[0..1] optional', '1 alpha String', 'A = Record', 'info: 3', '# h', '`t`', '/* c */', '{', '}',
         'a\\b', '<b>bold</b> &lt;', '"', "$1 %s {0}", 'unique /x', 'null',
         'two\tcolumns', 'a  b   c', 'a\u00a0b', 'caf\u00e9 \u200b zero', 'e\u0301',
         'A rather long description that goes on past the usual width of a column, for wrapping']
PATTERNS = [('$TypeName', ['Alpha', 'X-Ray', '$Sys1'], ['alpha', '9a', '']), ('$FieldName', ['alpha', 'a_b'], ['Alpha', 'a-b']), ('^a+$', ['a', 'aaa'], ['b', 'ba']), ('^[A-Z]{2,4}$', ['AB', 'WXYZ'], ['a', 'A1']),
            (r'^\d{3}-\d{4}$', ['123-4567'], ['1234567', 'x']), ('^(yes|no)$', ['yes', 'no'], ['maybe', '']),
            (r'^[^/ ]+$', ['abc', 'x.y'], ['', '/a']), (r'^a /x$', ['a /x'], ['a', 'b']), (r'^"q"\w* unique$', ['"q" unique', '"q"z unique'], ['q']),
            (r'^a}{b// c$', ['a}{b// c'], ['a']), (r'^\w+ (optional|\[0\.\.1\])$', ['x optional', 'x [0..1]'], ['x']), ('^\u00e9\\d?$', ['\u00e9', '\u00e91'], ['e'])]
STRS = ['', 'a', 'hello', 'two words', '\u00e9t\u00e9', '\u4e2d\u6587', 'q"uo\\te', '<tag>&amp;', 'x' * 30, 'nul\x00in', '\U0001f600', '0', 'null',
        'line\nbreak', ' pad ', 'true']


# ------------------------------------------------------------------ schemas
class SchemaGen:
    """One schema.  Profile switches say which features may appear."""

    def __init__(self, rng, ntypes=None, docs=False, recurse=True, formats=True, info=True, small=False, hard=True):
        self.r = rng
        self.docs, self.recurse, self.formats, self.hard = docs, recurse, formats, hard
        self.n = ntypes or rng.choice([3, 5, 8, 12])
        self.types = []
        self.meta = {}
        self.info_on = info
        self.twin = None
        self.wide = docs and rng.random() < .3      # Large numbers

    def desc(self):
        if not self.docs:
            return ''
        if self.r.random() < .01:       # longer than any line, page or buffer somebody may think enough
            return ' '.join(x for x in (self.r.choice(DESCS).strip() for _ in range(self.r.choice([5, 20, 60, 200]))) if x)[:self.r.choice([256, 600, 2048])].strip().lstrip('/').strip() or 'x' * 600
        return self.r.choice(DESCS)

    def names(self, pool, k):
        return self.r.sample(pool, k)

    def size(self, o, hi=6):
        r = self.r
        x = r.random()
        if self.wide and x < .3:
            lo = r.choice([0, 0, 1, 10, 99])
            o += (['{%d' % lo] if lo else []) + (['}%d' % r.choice([100, 255, 65535, 10 ** 10])] if x < .25 or not lo else [])
        elif x < .25:
            lo = r.randrange(0, 3)
            if lo:
                o.append('{%d' % lo)
            o.append('}%d' % r.randrange(max(lo, 1), hi + 1))
        elif x < .35:
            o.append('}%d' % r.randrange(1, hi + 1))

    def prim(self, named=True):
        """(base, options) of a primitive type; options are never empty for Binary unless named."""
        r = self.r
        b = r.choice(['Binary', 'Boolean', 'Integer', 'Integer', 'Number', 'String', 'String', 'String'])
        o = []
        if b == 'Binary':
            f = r.choice([None, 'b', 'x', 'X', 'eui', 'uuid', 'ipv4-addr', 'ipv6-addr']) if self.formats else None
            if f:
                o.append('/' + f)
            if f in (None, 'b', 'x', 'X'):
                self.size(o, 20)
            if not o and not named:
                o = ['/x']
        elif b == 'Integer':
            f = r.choice([None, None, 'i8', 'i16', 'i32', 'i64', 'datetime-ms']) if self.formats else None
            if f:
                o.append('/' + f)
            elif r.random() < .5:
                a = r.choice([-100, -1, 0, 1, 5] if not self.wide else [-2 ** 63, -100000, 0, 10 ** 12, 2 ** 64])
                o += ['{%d' % a] if r.random() < .7 else []
                o += ['}%d' % (a + r.choice([0, 1, 10, 1000]))] if r.random() < .7 else []
        elif b == 'Number':
            if r.random() < .5:
                a = r.choice([-2.5, 0.0, 1.25] if not self.wide else [-1e20, 1e-7, 123456.789, 1e16])
                o += ['y%s' % a] if r.random() < .7 else []
                o += ['z%s' % (a + r.choice([0.5, 10.0]))] if r.random() < .7 else []
            elif self.formats and r.random() < .2:
                o.append('/' + r.choice(['f16', 'f32', 'f64']))
        elif b == 'String':
            x = r.random()
            if x < .25 and self.formats:
                o.append('/' + r.choice(sorted(STRFMT)))
            elif x < .45:
                o.append('%' + r.choice(PATTERNS)[0])
            else:
                self.size(o, 12)
        return b, o

    def refs(self, pred=None):
        return [t for t in self.types if pred is None or pred(t)]

    def ref(self, rec=None):
        """Name of a type to use as field or value type."""
        r = self.r
        c = [t[0] for t in self.types]
        if c and r.random() < .75:
            return r.choice(c[-6:])
        return r.choice(['Boolean', 'Integer', 'Number', 'String', 'String'])

    def scalar_ref(self):
        c = [t[0] for t in self.types if t[1] in ('Integer', 'String', 'Enumerated') and not (t[1] == 'Enumerated' and False)]
        return self.r.choice(c + ['Integer', 'String'])

    def hashable_ref(self):
        c = [t[0] for t in self.types if t[1] in ('Integer', 'String', 'Binary', 'Enumerated', 'Record')]
        return self.r.choice(c + ['Integer', 'String'])

    def fields(self, base, name, opts):
        r = self.r
        k = r.choice([1, 2, 2, 3, 4, 6]) if r.random() > .02 else r.choice([11, 20, 28])
        names = self.names(FNAMES, k)
        ids = list(range(1, k + 1)) if base in ('Array', 'Record') else sorted(r.sample(range(0, 60 if not self.wide else 10 ** 6), k))
        out = []
        for i in range(k):
            ft, fo = self.ref(), []
            x = r.random()
            tdef = next((t for t in self.types if t[0] == ft), None)
            if base == 'Choice':
                if x < .2 and self.hard:
                    ft, fo = self.anon()
            elif x < .18 and self.hard:
                ft, fo = self.anon()
                if r.random() < .4:
                    fo.append('[0')
            elif x < .36 and self.hard and base != 'Choice':
                lo = r.choice([0, 0, 1, 2])
                hi = r.choice([0, 2, 3, 5])
                if self.wide:
                    lo, hi = r.choice([0, 1, 9, 10, 12, 100]), r.choice([0, 10, 15, 100, 1000])
                if hi and hi < lo:
                    hi = lo
                u = r.random() < .15 and (ft in ('Integer', 'String') or tdef and tdef[1] in ('Integer', 'String', 'Enumerated', 'Record'))
                fo = (['q'] if u and ft not in PRIM else []) + (['[%d' % lo] if lo != 1 else []) + (['%s%d' % (']', hi)])
            elif x < .6:
                fo = ['[0']
            if self.hard and tdef and tdef[1] in FIELDED and ft == tdef[0] and not any(o[0] in ']q' for o in fo) and r.random() < .3:
                fo.append('<')      # a pointer enumeration walks into it
            out.append([ids[i], names[i], ft, fo, self.desc()])
        # a field whose type is chosen by another field
        if base in ('Array', 'Record', 'Map') and k >= 2 and r.random() < .3 and '=' not in opts:
            ch = [t for t in self.types if t[1] == 'Choice' and '=' not in t[2] and not any(o[0] == 'C' for o in t[2])]
            if ch:
                c = r.choice(ch)
                en = f'{c[0]}-Tag'
                if not any(t[0] == en for t in self.types):
                    self.types.append([en, 'Enumerated', ['#' + c[0]], '', []])
                a, b = sorted(r.sample(range(k), 2))
                if r.random() < .3:
                    a, b = b, a
                out[a] = [out[a][0], out[a][1], en, [], out[a][4]]
                out[b] = [out[b][0], out[b][1], c[0], (['[0'] if r.random() < .5 else []) + ['&%d' % out[a][0]], out[b][4]]
        # recursion through an optional field
        elif self.recurse and base in ('Record', 'Map') and r.random() < .15:
            j = r.randrange(k)
            out[j] = [out[j][0], out[j][1], name, ['[0'], out[j][4]]
        elif self.hard and base in ('Record', 'Map') and r.random() < .15:
            j = r.randrange(k)
            out[j] = [out[j][0], out[j][1], 'String', r.choice([['}12', 'K'], ['{2', '}12', 'K'], ['K', '/uri', '{4', '}90'], ['K']]), out[j][4]]
            self.meta.setdefault('keyed', []).append(name)
        elif self.hard and base in ('Record', 'Map') and self.meta.get('keyed') and r.random() < .4:
            j = r.randrange(k)
            out[j] = [out[j][0], out[j][1], r.choice(self.meta['keyed']), ['L'], out[j][4]]
        return out

    def derived(self, opt=True):
        """Options of an enumeration derived from a type: ['#T'], ['>T'], or with the id option on either side; or None."""
        r = self.r
        src = [t for t in self.types if t[1] in FIELDED and t[4] or t[1] == 'Enumerated' and t[4]]
        if not src:
            return None
        s = r.choice(src)
        deep = [t for t in src if t[1] != 'Enumerated' and any('<' in f[3] for f in t[4])]
        if deep and r.random() < .4:
            s = r.choice(deep)
        o = [('#' if s[1] == 'Enumerated' or r.random() < (.2 if s in deep else .7) else '>') + s[0]]
        if opt and r.random() < .3:
            o.insert(r.randrange(2), '=')
        return o

    def vtype(self):
        """A type for values of an ArrayOf or MapOf."""
        if self.hard and self.r.random() < .12 and (o := self.derived(False)):
            return o[0]
        return self.ref()

    def anon(self):
        r = self.r
        x = r.random()
        if x < .6:
            if self.twin and r.random() < .2:       # The options of another field on another type
                b, o = self.twin
                return r.choice([t for t in ('String', 'Binary', 'Integer') if t != b]), list(o)
            for _ in range(20):
                b, o = self.prim(named=False)
                if o:
                    if b in ('String', 'Binary', 'Integer') and all(x[0] in '{}' for x in o) and all(0 < int(x[1:]) <= 60 for x in o):
                        self.twin = (b, list(o))
                    return b, o
            return 'String', ['}9']
        if x < .72 and (o := self.derived()):
            return 'Enumerated', o
        if x < .8:
            vt = self.vtype()
            o = ['*' + vt]
            self.size(o)
            return 'ArrayOf', o
        kt = r.choice(['String', 'Integer'])
        o = ['*' + self.vtype(), '+' + kt]
        self.size(o)
        return 'MapOf', o

    def one(self, name):
        r = self.r
        x = r.random()
        d = self.desc()
        T = [name, None, [], d, []]
        if x < .24 or not self.types and x < .4:
            T[1], T[2] = self.prim()
        elif x < .36:
            T[1] = 'Enumerated'
            src = [t for t in self.types if t[1] in FIELDED and t[4] or t[1] == 'Enumerated' and t[4]]
            if src and self.hard and r.random() < .3:
                s = r.choice(src)
                deep = [t for t in src if t[1] != 'Enumerated' and any('<' in f[3] for f in t[4])]
                if deep and r.random() < .7:
                    s = r.choice(deep)
                T[2] = [('#' if s[1] == 'Enumerated' or r.random() < (.1 if s in deep else .6) else '>') + s[0]]
                if r.random() < .2:
                    T[2].insert(r.randrange(2), '=')
            else:
                k = r.choice([1, 2, 3, 5])
                T[2] = ['='] if r.random() < .25 else []
                T[4] = [[i, s, self.desc()] for i, s in zip(sorted(r.sample(range(0, 90 if not self.wide else 10 ** 6), k)), self.names(ITEMS, k))]
        elif x < .48:
            T[1] = 'Choice'
            if self.hard and r.random() < .3:
                T[2] = ['C' + r.choice('OAX')]
                self.combine(T)
            else:
                T[2] = ['='] if r.random() < .25 else []
                T[4] = self.fields('Choice', name, T[2])
        elif x < .56:
            if self.formats and r.random() < .3:
                f = r.choice(['ipv4-net', 'ipv6-net', 'tag-uuid'])
                T[1], T[2] = 'Array', ['/' + f]
                if f == 'tag-uuid':
                    if not any(t[0] == 'UUID' for t in self.types):
                        self.types.append(['UUID', 'Binary', ['/uuid'], '', []])
                    T[4] = [[1, 'tag', 'String', [], self.desc()], [2, 'uuid', 'UUID', [], '']]
                else:
                    T[4] = [[1, 'addr', 'Binary', ['/ipv4-addr' if f == 'ipv4-net' else '/ipv6-addr'], self.desc()], [2, 'prefix', 'Integer', [], '']]
            else:
                T[1] = 'Array'
                T[4] = self.fields('Array', name, [])
        elif x < .68:
            T[1] = 'ArrayOf'
            u = r.random()
            if u < .3:
                T[2] = ['*' + self.hashable_ref()]
                self.size(T[2])
                T[2].append(r.choice(['q', 's']))
            else:
                T[2] = ['*' + self.vtype()]
                self.size(T[2])
                if u < .4:
                    T[2].append('b')
        elif x < .76:
            T[1] = 'MapOf'
            en = [t[0] for t in self.types if t[1] == 'Enumerated' and '=' not in t[2] and (t[4] or t[2])]
            if en and self.hard and r.random() < .3:
                T[2] = ['*' + self.vtype(), '+' + r.choice(en)]
            elif self.hard and r.random() < .1 and (k := self.derived(False)):
                T[2] = ['*' + self.vtype(), '+' + k[0]]
            else:
                kts = [t[0] for t in self.types if t[1] == 'String' or t[1] == 'Integer' and not any(o[0] == '/' for o in t[2])
                       or t[1] == 'Binary']
                T[2] = ['*' + self.ref(), '+' + r.choice(kts + ['String', 'Integer'])]
                self.size(T[2])
                if r.random() < .1:
                    T[2].append('o')
        elif x < .86:
            T[1] = 'Map'
            T[2] = ['='] if r.random() < .3 else []
            T[4] = self.fields('Map', name, T[2])
            if r.random() < .1:
                T[2].append('o')
        else:
            T[1] = 'Record'
            T[4] = self.fields('Record', name, [])
        if T[4] and not any(o[0] == '/' for o in T[2]) and T[1] in ('Array', 'Map', 'Record') and r.random() < .3:
            req = len([f for f in T[4] if '[0' not in f[3]])        # Number of members that are present
            lo = r.choice([0, r.randrange(0, len(T[4]) + 1), req + 1])
            lo = min(lo, len(T[4]))
            T[2] += ['{%d' % lo] if lo else []
            T[2] += ['}%d' % r.randrange(max(lo, req, 1), len(T[4]) + 3)] if r.random() < .6 else []
        if T[1] in ('Map', 'Record') and 'o' not in T[2] and r.random() < .05:
            T[2].append('o')
        if T[1] == 'ArrayOf' and r.random() < .1:
            k = r.choice(['b', 'q', 's'] if {'q', 's'} & set(T[2]) else ['b'])
            if k not in T[2]:
                T[2].append(k)
        if T[1] in ('Enumerated', 'Choice', 'Array', 'Map', 'Record') and r.random() < (.1 if not T[2] else .04):
            T[2].append('X')
        self.types.append(T)

    def combine(self, T):
        """Untagged unions whose alternatives overlap or not, but never so that a message means two values."""
        r = self.r
        how = T[2][0][1]
        base = r.choice(['Integer', 'String', 'mix', 'enum', 'enum', 'map'] + (['bin', 'bin'] if self.formats and how == 'O' else []))
        k = r.choice([2, 2, 3])
        fs = []
        if base in ('enum', 'map', 'bin'):
            it = self.names(ITEMS if base == 'enum' else FNAMES, 6)
            nt = base != 'enum' and [r.choice(['Integer', 'String', 'Boolean']) for _ in it]
            b2 = base == 'bin' and r.choice([('X', 'b'), ('x', 'X'), ('ipv4-addr', 'ipv6-addr'), ('ipv6-addr', 'uuid'), ('ipv4-addr', 'b'), ('x', 'b', 'X')])
            k = len(b2) if b2 else k
            for i in range(k):
                nm = f'{T[0]}-{"ABC"[i]}'
                d = 'Enumerated' if base == 'enum' else 'Map' if base == 'map' else 'Binary'
                if base == 'bin':
                    self.types.append([nm, d, [] if b2[i] == 'b' and r.random() < .5 else ['/' + b2[i]], '', []])
                    fs.append([i + 1, FNAMES[i], nm, [], self.desc()])
                    continue
                if how == 'A':              # Every alternative takes the same messages
                    mem = [[j + 1, j] for j in range(3)]
                elif how == 'X' or base == 'map':
                    mem = [[2 * i + 1, 2 * i], [2 * i + 2, 2 * i + 1]] + ([[9, 0]] if base == 'enum' and how == 'O' and i else [])
                else:                       # The same items under other ids, or other items under ids of their own
                    perm = [1, 2, 3]
                    r.shuffle(perm)
                    mem = [[perm[j], j] for j in range(3)] if i == 0 or r.random() < .6 else [[11 * i + 1, 2 + i]] + [[11 * i + 2, 0]]
                mem.sort()
                self.types.append([nm, d, [], '', [[j, it[x], self.desc()] if base == 'enum' else
                                                  [j, it[x], nt[x], ['[0'] if how == 'A' or j % 2 == 0 and r.random() < .5 else [], ''] for j, x in mem]])
                fs.append([i + 1, FNAMES[i], nm, [], self.desc()])
            T[4] = fs
            return
        for i in range(k):
            b = base if base != 'mix' else r.choice(['Integer', 'String', 'Boolean'])
            nm = f'{T[0]}-{"ABC"[i]}'
            if b == 'Integer':
                a = r.choice([-5, 0, 3, 10])
                o = ['{%d' % a, '}%d' % (a + r.choice([2, 8, 20]))]
            elif b == 'String':
                a = r.choice([0, 2, 4])
                o = (['{%d' % a] if a else []) + ['}%d' % (a + r.choice([1, 4, 9]))]
            else:
                o = []
            self.types.append([nm, b, o, '', []])
            fs.append([i + 1, FNAMES[i], nm, [], self.desc()])
        T[4] = fs

    def build(self):
        r = self.r
        names = self.names(TNAMES, min(self.n, len(TNAMES)))
        for nm in names:
            self.one(nm)
        types = self.types
        if r.random() < .5:
            types = list(types)
            r.shuffle(types)
        s = {}
        if self.info_on and r.random() < .9:
            info = {'package': f'http://example.com/p{r.randrange(100)}/v1.{r.randrange(10)}'}
            x = {'version': '1.%d' % r.randrange(9), 'title': 'Test \u2014 schema', 'description': self.desc()[:100].strip() or 'plain',
                 'comment': 'no comment', 'copyright': '\u00a9 2024', 'license': 'CC0-1.0'}
            for k in r.sample(sorted(x), r.randrange(0, 5)):
                info[k] = x[k]
            if r.random() < .5:
                info['exports'] = sorted(r.sample([t[0] for t in types], min(2, len(types))))
            if r.random() < .3:
                info['config'] = {r.choice(['$MaxString', '$MaxElements', '$MaxBinary']): r.choice([100, 150, 300])}
            if r.random() < .4:
                ks = list(info)
                r.shuffle(ks)
                info = {k: info[k] for k in ks}
            s['info'] = info
        s['types'] = types
        return s


def gen_schema(rng, **k):
    return SchemaGen(rng, **k).build()


# ------------------------------------------------------------------ values
class Unfit(Exception):
    """No value of this type could be made."""


class ValueGen:
    def __init__(self, model, rng):
        self.m, self.r = model, rng

    def valid(self, tname, tries=8):
        n = self.m.typ(tname)
        for _ in range(tries):
            try:
                v = self.val(n, 0)
            except (Unfit, NoOpinion, RecursionError):
                continue
            if self.m.verdict(n, v) is True:
                return v
        raise Unfit(tname)

    def length(self, n, hi=5):
        a, b = self.m.lim(n)
        r = self.r
        x = r.random()
        if x < .15:
            return a
        if x < .3 and b <= 40:
            return b
        if x < .36 and b <= 1000 and n.base in ('Binary', 'String'):
            return b - r.choice([0, 0, 1, 100]) if b - 100 >= a else b
        if x < .33 and b <= 300 and n.base == 'ArrayOf' and self.m.typ(n.o['vtype']).base in PRIM:
            return b
        return min(b, a + r.randrange(0, hi))

    def text(self, k):
        r = self.r
        s = r.choice(STRS)
        s = s[:k]
        while len(s) < k:
            s += r.choice('abcXYZ 09_-\u00e9\u4e2d"\\/<')
        return s

    def val(self, n, depth):
        r, m = self.r, self.m
        b, o = n.base, n.o
        if depth > 12:
            raise Unfit
        if b == 'Boolean':
            return r.random() < .5
        if b == 'Integer':
            f = o.get('format')
            if f == 'datetime-ms':
                return r.choice([0, 1, 999, 1000, 1577836800000, 1614834367123, r.randrange(0, 4102444799999)])
            if f:
                from .model import INTFMT
                k = INTFMT[f]
                return r.choice([-2 ** k, 2 ** k - 1, 0, 1, r.randrange(-2 ** k, 2 ** k)])
            lo, hi = o.get('minv', o.get('maxv', 10) - 20), o.get('maxv', o.get('minv', -10) + 10 ** r.choice([1, 3, 9]))
            return r.choice([lo, hi, r.randint(lo, hi)])
        if b == 'Number':
            lo, hi = o.get('minf', o.get('maxf', 10.) - 20), o.get('maxf', o.get('minf', -10.) + 1000.)
            return r.choice([lo, hi, r.uniform(lo, hi), round(r.uniform(lo, hi), 2), int(hi) if lo <= int(hi) <= hi else hi])
        if b == 'Binary':
            f = o.get('format')
            k = {'eui': r.choice([6, 8]), 'ipv4-addr': 4, 'ipv6-addr': 16, 'uuid': 16}.get(f) or self.length(n, 12)
            v = bytes(r.randrange(256) for _ in range(k))
            if f == 'uuid':
                v = v[:6] + bytes([0x40 | v[6] & 15]) + v[7:8] + bytes([0x80 | v[8] & 63]) + v[9:]
            return v
        if b == 'String':
            if 'pattern' in o:
                for p, good, bad in PATTERNS:
                    if p == o['pattern']:
                        return r.choice(good)
                raise Unfit
            if 'format' in o:
                return r.choice(STRFMT[o['format']][0])
            return self.text(self.length(n, 12))
        if b == 'Enumerated':
            if not n.fields:
                raise Unfit
            return r.choice(n.fields)[0 if 'id' in o else 1]
        if b == 'Choice':
            if not n.fields:
                raise Unfit
            f = r.choice(n.fields)
            if o.get('combine'):
                return self.val(f.node, depth + 1)
            return {(f.id if 'id' in o else f.name): self.val(f.node, depth + 1)}
        if b == 'ArrayOf':
            vt = m.typ(o['vtype'])
            k = self.length(n, 4 if depth < 3 else 1)
            out = []
            uniq = 'unique' in o or 'set' in o
            for _ in range(k * 4 if uniq else k):
                if len(out) >= k:
                    break
                v = self.val(vt, depth + 1)
                if not uniq or v not in out:
                    out.append(v)
            return out
        if b == 'MapOf':
            kt, vt = m.typ(o['ktype']), m.typ(o['vtype'])
            k = self.length(n, 4 if depth < 3 else 1)
            out = {}
            for _ in range(k * 4):
                if len(out) >= k:
                    break
                out[self.val(kt, depth + 1)] = self.val(vt, depth + 1)
            return out
        if b == 'Array':
            if o.get('format') == 'ipv4-net':
                return [bytes(r.randrange(256) for _ in range(4)), r.randrange(33)]
            if o.get('format') == 'ipv6-net':
                return [bytes(r.randrange(256) for _ in range(16)), r.randrange(129)]
            if o.get('format') == 'tag-uuid':
                return [r.choice(['action', 'id', 'x1']), self.val(n.fields[1].node, depth + 1)]
            d = self.fvals(n, depth)
            out = [d.get(f.id) for f in n.fields]
            while out and out[-1] is None:
                out.pop()
            return out
        if b in ('Map', 'Record'):
            d = self.fvals(n, depth)
            fs = list(n.fields)
            if r.random() < .3:
                r.shuffle(fs)
            return {f.name: d[f.id] for f in fs if f.id in d}
        raise Unfit(b)

    def fvals(self, n, depth):
        r = self.r
        p = .6 if depth < 4 else .15 if depth < 6 else 0
        d = {}
        for f in n.fields:
            if f.opt and r.random() > p:
                continue
            if f.tagid is not None:
                continue
            try:
                d[f.id] = self.val(f.node, depth + 1)
            except Unfit:
                if not f.opt:
                    raise
        for f in n.fields:
            if f.tagid is not None and not (f.opt and r.random() > p):
                cf = r.choice(f.node.fields)
                d[f.tagid] = cf.name
                d[f.id] = self.val(cf.node, depth + 1)
                # several fields may share one tag: keep them consistent
        for f in n.fields:
            if f.tagid is not None and f.id in d:
                cf = self.m.choice_field(f.node, d[f.tagid])
                d[f.id] = self.val(cf.node, depth + 1)
        return d

    # -------------------------------------------------- certainly invalid API values
    def invalid(self, tname, tries=12):
        n = self.m.typ(tname)
        for _ in range(tries):
            try:
                v = damage_value(self.valid(tname), self.r)
            except Unfit:
                v = self.r.choice(JUNK)
            try:
                if self.m.verdict(n, v) is False:
                    return v
            except (TypeError, ValueError, RecursionError):
                continue
        raise Unfit(tname)


ODD = [x for good, bad in STRFMT.values() for x in good + bad + bad]
JUNK = [None, True, False, 0, -1, 1, 2 ** 31, 2 ** 63, -2 ** 70, 1.5, -0.5, 1e300, '', 'x', 'zzzzzzzzzz', '1', '-', '/', 'a/b', '\u00e9' * 3, [], [None],
        [1], ['a', 'b'], {}, {'a': 1}, {'x': None}, {'1': 2}, [[]], {'alpha': {}}, [{}, {}], '1.2.3.4', '1.2.3.4/33', '::1/200', '=', 'AB=', 'AAAA====',
        '2020-01-01', '99999999999', '12345678-1234-1234-1234-123456789abc', 'a-b', 'true', 'nul\x00', 'x' * 400]


def paths(v, p=()):
    yield p
    if isinstance(v, dict):
        for k in v:
            yield from paths(v[k], p + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from paths(x, p + (i,))


def edit(v, p, f):
    """Copy of v with f applied to the node at path p (f returns the replacement)."""
    if not p:
        return f(v)
    if isinstance(v, dict):
        return {k: (edit(x, p[1:], f) if k == p[0] else x) for k, x in v.items()}
    return [(edit(x, p[1:], f) if i == p[0] else x) for i, x in enumerate(v)]


def at(v, p):
    for k in p:
        v = v[k]
    return v


def damage_value(v, r, json_only=False):
    """One structural fault somewhere in a value: retype, drop, add, duplicate, resize, push out of range, rename."""
    ps = list(paths(v))
    if r.random() < .3:         # prefer the containers: a field or element too many, too few or misnamed
        ps = [q for q in ps if isinstance(at(v, q), (dict, list))] or ps
    p = r.choice(ps)

    def f(x):
        c = ['junk', 'junk']
        if isinstance(x, dict):
            c += ['drop', 'add', 'rename', 'nullify', 'merge', 'empty', 'grow']
        elif isinstance(x, list):
            c += ['drop', 'append', 'dup', 'empty', 'nullify', 'long', 'swap', 'cut']
        elif isinstance(x, bool):
            c += ['flip', 'toint', 'tostr']
        elif isinstance(x, (int, float)):
            c += ['add', 'neg', 'big', 'frac', 'tostr', 'tobool', 'step']
        elif isinstance(x, str):
            c += ['append', 'cut', 'case', 'long', 'empty', 'char', 'numeric', 'prefix', 'odd', 'odd']
        elif isinstance(x, bytes):
            c += ['append', 'cut', 'tostr']
        k = r.choice(c)
        if k == 'junk':
            return r.choice(JUNK)
        if isinstance(x, dict):
            ks = list(x)
            if k == 'drop' and ks:
                d = r.choice(ks)
                return {a: b for a, b in x.items() if a != d}
            if k == 'add':
                return {**x, r.choice(['zz', 'alpha', '1', '99', '-1', 'x1', '', '1.0', ' 1']): r.choice(JUNK)}
            if k == 'rename' and ks:
                d = r.choice(ks)
                return {(r.choice(['zz', str(a) + '0', str(a).upper(), '0' + str(a), '77']) if a == d else a): b for a, b in x.items()}
            if k == 'nullify' and ks:
                d = r.choice(ks)
                return {a: (None if a == d else b) for a, b in x.items()}
            if k == 'grow' and ks:
                s = x[r.choice(ks)]
                return {**x, **{f'k{i}': s for i in range(r.choice([1, 5, 130]))}}
            return {}
        if isinstance(x, list):
            if k == 'drop' and x:
                i = r.randrange(len(x))
                return x[:i] + x[i + 1:]
            if k == 'append':
                return x + [r.choice(JUNK)]
            if k == 'dup' and x:
                return x + [r.choice(x)]
            if k == 'nullify' and x:
                i = r.randrange(len(x))
                return x[:i] + [None] + x[i + 1:]
            if k == 'long' and x:
                return (x * 140)[:r.choice([len(x) + 1, 21, 100, 101, 121, 301])]
            if k == 'swap' and len(x) > 1:
                y = list(x)
                r.shuffle(y)
                return y
            if k == 'cut' and x:
                return x[:-1]
            return []
        if isinstance(x, bool):
            return {'flip': not x, 'toint': int(x), 'tostr': str(x).lower()}[k]
        if isinstance(x, (int, float)):
            return {'add': x + r.choice([1000, 10 ** 6]), 'neg': -x - 1, 'big': r.choice([2 ** 40, 2 ** 64, -2 ** 64, 1e18, float('nan'), float('inf'), float('-inf')]), 'frac': x + .5,
                    'tostr': str(x), 'tobool': bool(x), 'step': x + r.choice([-1, 1])}[k]
        if isinstance(x, str):
            i = r.randrange(len(x) + 1)
            return {'append': x + r.choice(['x', '=', ' ', '/1', '0', '.', '@x.y', '\n', '\u00e9']), 'cut': x[:i], 'case': x.swapcase(), 'long': x + 'y' * r.choice([5, 40, 400, max(0, 255 - len(x)), max(0, 256 - len(x)), max(0, 101 - len(x))]),
                    'empty': '', 'char': x[:i] + r.choice('aZ0-_=/.: \u00ff') + x[i + 1:], 'numeric': r.choice([0, 7, 1.5]), 'prefix': r.choice([' ', '-', '+', '0']) + x, 'odd': r.choice(ODD)}[k]
        if isinstance(x, bytes):
            return {'append': x + bytes([r.randrange(256)]) * r.choice([1, 3, 300, max(0, 255 - len(x)), max(0, 256 - len(x))]), 'cut': x[:-1], 'tostr': x.hex()}[k]
        return r.choice(JUNK)
    return edit(v, p, f)


# ------------------------------------------------------------------ transport damage on message text
def damage_text(text, r, other=None):
    """One transport fault on the bytes of a JSON message -> (kind, bytes)."""
    b = text.encode('utf8')
    k = r.choice(['flip', 'flip', 'truncate', 'splice', 'drop', 'insert', 'dupspan', 'struct', 'struct', 'struct', 'struct2'])
    if k in ('struct', 'struct2'):
        v = damage_value(json.loads(text), r)
        if k == 'struct2':
            v = damage_value(v, r)
        try:
            return k, json.dumps(v, ensure_ascii=r.random() < .5).encode('utf8', 'surrogatepass')
        except (TypeError, ValueError):
            k = 'flip'
    if not b:
        return 'insert', b'0'
    i = r.randrange(len(b))
    j = min(len(b), i + r.choice([1, 1, 2, 3, 8]))
    if k == 'flip':
        return k, b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]
    if k == 'truncate':
        return k, b[:i]
    if k == 'splice' and other:
        o = other.encode('utf8')
        return k, b[:i] + o[r.randrange(len(o)):]
    if k == 'drop':
        return k, b[:i] + b[j:]
    if k == 'dupspan':
        return k, b[:j] + b[i:]
    return 'insert', b[:i] + r.choice([b'"', b',', b'1', b'}', b'null', b'-', b'\xff', b'9', b'e5', b' ', b'NaN']) + b[i:]
