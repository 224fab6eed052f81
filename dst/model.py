"""Reference model of a JADN schema's values and JSON messages, written from the JADN rules, independent of the library.

verdict(node, v)   True: v is a valid API value; False: certainly not; None: the model does not say
enc(node, v, ...)  the wire value of a valid API value, or raises NoOpinion
dec(node, w, ...)  (True, value) | (False,) | (None,)  for a wire value parsed from JSON text
"""
import base64
import datetime
import ipaddress
import math
import re

TOPT = {'=': 'id', '*': 'vtype', '+': 'ktype', '#': 'enum', '>': 'pointer', '/': 'format', '%': 'pattern', 'y': 'minf',
        'z': 'maxf', '{': 'minv', '}': 'maxv', 'q': 'unique', 's': 'set', 'b': 'unordered', 'o': 'sequence', 'C': 'combine',
        'X': 'extend', '!': 'default'}
FOPT = {'[': 'minc', ']': 'maxc', '&': 'tagid', '<': 'dir', 'K': 'key', 'L': 'link'}
INT = ('minv', 'maxv', 'minc', 'maxc', 'tagid')
FLAG = ('id', 'unique', 'set', 'unordered', 'sequence', 'extend', 'dir', 'key', 'link')
PRIM = ('Binary', 'Boolean', 'Integer', 'Number', 'String')
BASES = PRIM + ('Enumerated', 'Choice', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record')
FIELDED = ('Choice', 'Array', 'Map', 'Record')
UUID_RE = r'^[0-9a-f]{8}-[0-9a-f]{4}-[1-5][0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$'
INTFMT = {'i8': 7, 'i16': 15, 'i32': 31, 'i64': 63}

# String formats: certainly valid and certainly invalid samples
STRFMT = {
    'email': (['joe@example.com', 'a.b+c@mail.example.org', 'x_y@host.net', 'Joe.Doe@Example.COM'], ['joe@example.com x', 'joe@example.com\n', 'joe@example.com,ann@example.com', 'joe@@example.com', 'joe@example..com', 'joe', '@example.com', 'a b@example.com', 'joe@']),
    'hostname': (['example.com', 'a-b.example.org', 'localhost', 'x1.y2.z3', 'EXAMPLE.Com', 'example.com.', '9' * 63 + '.org'],
                 ['-bad.com', 'a..b', 'ex ample.com', 'bad-.org', 'example.com\n', 'ex\u0661.com', '\u212aelvin.com', '.com', 'example.com..', 'a.' * 126 + 'aa']),
    'date-time': (['2021-03-04T05:06:07Z', '1999-12-31T23:59:59.5+01:00'], []),
    'date': (['2021-03-04', '1999-12-31'], ['2021-02-30', '03/04/2021', 'today']),
    'time': (['05:06:07Z', '23:59:58+01:00'], []),
    'ipv4': (['192.168.0.1', '8.8.8.8'], ['256.1.1.1', '1.2.3', '::1']),
    'ipv6': (['::1', '2001:db8::ff00:42:8329'], ['192.168.0.1', '1::2::3', 'g::1']),
    'uri': (['https://example.com/a?b=c', 'urn:isbn:0451450523'], []),
    'uri-reference': (['/a/b?c', 'https://example.com/'], []),
    'iri': (['https://example.com/\u00e9'], []),
    'json-pointer': (['/a/b', '', '/a~1b'], []),
    'regex': (['^a+$', '[0-9]*'], ['(', '[a']),
}
BINFMT = ('b', 'x', 'X', 'eui', 'uuid', 'ipv4-addr', 'ipv6-addr')
ARRFMT = ('ipv4-net', 'ipv6-net', 'tag-uuid')


def text_format(f, v):
    """Whether a text is of a format: True, False, or None where the rules leave room."""
    if f == 'hostname':
        if not re.fullmatch(r'(?!-)[A-Za-z0-9-]{1,63}(?<!-)(\.(?!-)[A-Za-z0-9-]{1,63}(?<!-))*\.?', v):
            return False
        return True if len(v) <= 253 else False if len(v) > 254 else None
    if f == 'email' and '"' not in v and '[' not in v:
        if not re.fullmatch(r'[^\s@]+@[^\s@]+', v):
            return False
        if re.fullmatch(r'[a-z0-9_-]+(\.[a-z0-9_-]+)*@([a-z0-9]+(-[a-z0-9]+)*\.)+[a-z]{2,6}', v, re.I | re.A) and len(v) < 64:
            return True
        return None
    if f in ('ipv4', 'ipv6'):
        try:
            return True if str((ipaddress.IPv4Address if f == 'ipv4' else ipaddress.IPv6Address)(v)) == v else None
        except ValueError:
            return False
    if f == 'date':
        try:
            return bool(re.fullmatch(r'\d{4}-\d\d-\d\d', v, re.A) and datetime.date.fromisoformat(v))
        except ValueError:
            return False
    return None


class NoOpinion(Exception):
    pass


def opts(olist):
    d = {}
    for o in olist:
        k = TOPT.get(o[0]) or FOPT.get(o[0])
        v = o[1:]
        d[k] = int(v) if k in INT else float(v) if k in ('minf', 'maxf') else True if k in FLAG else v
    return d


def split_opts(olist):
    return {k: v for k, v in opts([o for o in olist if o[0] in FOPT]).items()}, [o for o in olist if o[0] in TOPT]


class Node:
    __slots__ = ('base', 'o', 'fields', 'named', 'name')

    def __init__(self, base, o, fields, named, name=''):
        self.base, self.o, self.fields, self.named, self.name = base, o, fields, named, name

    def __repr__(self):
        return f'<{self.name}:{self.base} {self.o}>'


class Field:
    __slots__ = ('id', 'name', 'node', 'opt', 'tagid')

    def __init__(self, id, name, node, opt, tagid):
        self.id, self.name, self.node, self.opt, self.tagid = id, name, node, opt, tagid


class Model:
    def __init__(self, schema):
        self.schema = schema
        self.types = {t[0]: t for t in schema['types']}
        cfg = {'$MaxBinary': 255, '$MaxString': 255, '$MaxElements': 100, '$TypeName': '^[$A-Z][-$A-Za-z0-9]{0,63}$', '$FieldName': '^[$a-z][_$A-Za-z0-9]{0,63}$'}
        cfg.update(schema.get('info', {}).get('config', {}))
        self.cfg = cfg
        self.cache = {}
        self.keys = {}
        for t in schema['types']:
            if t[1] in FIELDED:
                for f in (t[4] if len(t) > 4 else []):
                    if 'K' in [o[0] for o in f[3]]:
                        self.keys[t[0]] = (t[0], f[0])

    # -------------------------------------------------------- types
    def typ(self, name):
        if name in self.cache:
            return self.cache[name]
        if name in self.types:
            t = self.types[name]
            o = opts(t[2] if len(t) > 2 else [])
            n = Node(t[1], o, [], True, name)
            self.cache[name] = n
            fl = t[4] if len(t) > 4 else []
            n.fields = self._items(o, fl) if t[1] == 'Enumerated' else [self._field(t, f) for f in fl] if t[1] in FIELDED else []
            if n.base == 'MapOf' and (o['ktype'][:1] in '#>' or o['ktype'] in self.types and self.types[o['ktype']][1] == 'Enumerated'):
                k = self.typ(o['ktype'])
                if 'id' in k.o:
                    n.base = '?'
                else:       # enumerated keys: an explicit Map with one required field per item
                    n.base, n.o = 'Map', {}
                    n.fields = [Field(i, s, self.typ(o['vtype']), False, None) for i, s in k.fields]
            return n
        if name in PRIM:
            n = self.cache[name] = Node(name, {}, [], False, name)
            return n
        if name[:1] in '#>':
            n = Node('Enumerated', {('enum' if name[0] == '#' else 'pointer'): name[1:]}, [], True, name)
            n.fields = self._items(n.o, [])
            self.cache[name] = n
            return n
        raise NoOpinion(name)

    def _items(self, o, fl):
        if 'enum' in o:
            t = self.types[o['enum']]
            return [(f[0], f[1]) for f in (t[4] if len(t) > 4 else [])]
        if 'pointer' in o:
            out = []

            def walk(tn, base=''):
                t = self.types[tn]
                if t[1] in FIELDED:
                    for f in t[4]:
                        if '<' in f[3]:
                            if f[2] in self.types:
                                walk(f[2], f'{base}{f[1]}/')
                        else:
                            out.append(base + f[1])
            walk(o['pointer'])
            return [(i + 1, s) for i, s in enumerate(out)]
        return [(f[0], f[1]) for f in fl]

    def _field(self, t, f):
        fo, to = split_opts(f[3])
        ft = f[2]
        if fo.get('link'):
            tt, fid = self.keys[ft]
            kf = [x for x in self.types[tt][4] if x[0] == fid][0]
            kfo, kto = split_opts(kf[3])
            n = self._anon(kf[2], kto) if kf[2] in BASES else self.typ(kf[2])
            if kf[2] in PRIM and not kto:
                n = Node(n.base, {}, [], True, n.name)      # an explicit key type has the default size limits
        elif fo.get('key') and ft in PRIM:
            n = self._anon(ft, to)
            n = Node(n.base, n.o, n.fields, True, n.name)
        else:
            minc, maxc = fo.get('minc', 1), fo.get('maxc', 1)
            if maxc != 1:
                o = {'vtype': ft, 'minv': max(minc, 1)}
                if maxc > 1:
                    o['maxv'] = maxc
                if 'q' in to:
                    o['unique'] = True
                n = Node('ArrayOf', o, [], True, f'{t[0]}${f[1]}')
            else:
                n = self._anon(ft, to) if to else self.typ(ft)
        return Field(f[0], f[1], n, fo.get('minc', 1) == 0, fo.get('tagid'))

    def _anon(self, ft, to):
        o = opts(to)
        if not to:
            return self.typ(ft)
        n = Node(ft, o, [], True, ft)
        if ft == 'Enumerated':
            n.fields = self._items(o, [])
        return n

    def lim(self, n):
        lo, hi = n.o.get('minv', 0), n.o.get('maxv', 0)
        if hi == 0:
            hi = self.cfg['$Max' + n.base] if n.base in ('Binary', 'String') else self.cfg['$MaxElements']
        return lo, hi

    # -------------------------------------------------------- validity of API values
    def verdict(self, n, v, depth=0):
        if depth > 60:
            return None
        b, o = n.base, n.o
        if b == '?':
            return None
        if b == 'Boolean':
            return isinstance(v, bool)
        if b == 'Integer':
            if isinstance(v, bool) or not isinstance(v, int):
                return False
            if not (o.get('minv', v) <= v <= o.get('maxv', v)):
                return False
            f = o.get('format')
            if f in INTFMT:
                return -2 ** INTFMT[f] <= v < 2 ** INTFMT[f]
            if f == 'datetime-ms':
                return True if 0 <= v < 4102444800000 else None
            return True
        if b == 'Number':
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                return False
            if isinstance(v, float) and not math.isfinite(v):      # Within the bounds that there are, or not
                return None if ('minf' not in o or v >= o['minf']) and ('maxf' not in o or v <= o['maxf']) else False
            return o.get('minf', v) <= v <= o.get('maxf', v)
        if b == 'Binary':
            if not isinstance(v, bytes):
                return False
            if n.named:
                lo, hi = self.lim(n)
                if not lo <= len(v) <= hi:
                    return False
            f = o.get('format')
            if f == 'eui':
                return len(v) in (6, 8)
            if f == 'ipv4-addr':
                return len(v) == 4
            if f == 'ipv6-addr':
                return len(v) == 16
            if f == 'uuid':
                return len(v) == 16 and bool(re.match(UUID_RE, self._uuid(v)))
            return True
        if b == 'String':
            if not isinstance(v, str):
                return False
            if n.named:
                lo, hi = self.lim(n)
                if not lo <= len(v) <= hi:
                    return False
            if 'pattern' in o and not re.match(self.cfg.get(o['pattern'], o['pattern']), v):     # a pattern may be the name of a configured one
                return False
            f = o.get('format')
            if f:
                good, bad = STRFMT.get(f, ((), ()))
                return True if v in good else False if v in bad else text_format(f, v)
            return True
        if b == 'Enumerated':
            k = 0 if 'id' in o else 1
            if k == 0 and type(v) is not int or k == 1 and not isinstance(v, str):
                return False if not isinstance(v, bool) else None
            return v in [i[k] for i in n.fields]
        if b == 'Choice':
            c = o.get('combine')
            if c:
                r = [self.verdict(f.node, v, depth + 1) for f in n.fields]
                if c == 'O':
                    return True if True in r else None if None in r else False
                if c == 'A':
                    return False if False in r else None if None in r else True
                t = r.count(True)
                if t > 1:
                    return False
                return None if None in r else t == 1
            if not isinstance(v, dict) or len(v) != 1:
                return False
            (k, x), = v.items()
            f = self.choice_field(n, k)
            return False if f is None else self.verdict(f.node, x, depth + 1)
        if b == 'ArrayOf':
            if not isinstance(v, list):
                return False
            lo, hi = self.lim(n)
            if not lo <= len(v) <= hi:
                return False
            u = True
            if 'unique' in o or 'set' in o:
                u = self._distinct(v)
                if u is False:
                    return False
            vt = self.typ(o['vtype'])
            return self._all([u] + [self.verdict(vt, x, depth + 1) for x in v])
        if b == 'MapOf':
            if not isinstance(v, dict):
                return False
            lo, hi = self.lim(n)
            if not lo <= len(v) <= hi:
                return False
            kt, vt = self.typ(o['ktype']), self.typ(o['vtype'])
            return self._all([self.verdict(kt, k, depth + 1) for k in v] + [self.verdict(vt, x, depth + 1) for x in v.values()])
        if b == 'Array':
            if not isinstance(v, list):
                return False
            f = o.get('format')
            r = []
            if f in ('ipv4-net', 'ipv6-net'):
                ln, mx = (4, 32) if f == 'ipv4-net' else (16, 128)
                if len(v) != 2 or not isinstance(v[0], bytes) or len(v[0]) != ln or type(v[1]) is bool:
                    return False if len(v) != 2 or not isinstance(v[0], bytes) or len(v[0]) != ln else None
                if not isinstance(v[1], int) or not 0 <= v[1] <= mx:
                    return False
            elif f == 'tag-uuid':
                if len(v) != 2 or not isinstance(v[0], str) or not isinstance(v[1], bytes) or len(v[1]) != 16:
                    return False
                if '-' in v[0]:
                    r.append(None)
            lo, hi = self.lim(n)
            if not lo <= len([x for x in v if x is not None]) <= hi:
                return False
            if len(v) > len(n.fields):
                return False
            if v and v[-1] is None:
                r.append(None)
            for f in n.fields:
                x = v[f.id - 1] if len(v) >= f.id else None
                if x is None:
                    if not f.opt:
                        return False
                elif f.tagid is not None:
                    tag = v[f.tagid - 1] if len(v) >= f.tagid else None
                    r.append(self._tagged(f, tag, x, depth))
                else:
                    r.append(self.verdict(f.node, x, depth + 1))
            return self._all(r)
        if b in ('Map', 'Record'):
            if not isinstance(v, dict):
                return False
            lo, hi = self.lim(n)
            if not lo <= len(v) <= hi:
                return False
            names = {f.name for f in n.fields}
            if any(k not in names for k in v):
                return False
            r = []
            byid = {f.id: f.name for f in n.fields}
            for f in n.fields:
                if f.name not in v:
                    if not f.opt:
                        return False
                elif f.tagid is not None:
                    if byid[f.tagid] not in v:
                        return False
                    r.append(self._tagged(f, v[byid[f.tagid]], v[f.name], depth))
                else:
                    r.append(self.verdict(f.node, v[f.name], depth + 1))
            return self._all(r)
        return None

    def _tagged(self, f, tag, x, depth):
        if isinstance(tag, (dict, list)):
            return False
        return self.verdict(f.node, {tag: x}, depth + 1)

    def choice_field(self, n, k):
        if isinstance(k, bool):
            return None
        for f in n.fields:
            if ('id' in n.o and type(k) is int and k == f.id) or ('id' not in n.o and k == f.name):
                return f
        return None

    @staticmethod
    def _all(r):
        return False if False in r else None if None in r else True

    @staticmethod
    def _distinct(v):
        from .base import canon_u
        c = [canon_u(x) for x in v]
        if len(set(c)) != len(c):
            return False
        for i in range(len(v)):
            for j in range(i):
                try:
                    if v[i] == v[j]:
                        return None
                except Exception:
                    return None
        return True

    @staticmethod
    def _uuid(v):
        h = v.hex()
        return f'{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:]}'

    # -------------------------------------------------------- wire
    def enc(self, n, v, vr, vs):
        b, o = n.base, n.o
        if b in ('Boolean', 'Number'):
            return v
        if b == 'Integer':
            return self._datems(v) if o.get('format') == 'datetime-ms' else v
        if b == 'String':
            return v
        if b == 'Binary':
            return self._binenc(o.get('format'), v)
        if b == 'Enumerated':
            if 'id' in o:
                return v
            return v if vs else [i for i, s in n.fields if s == v][0]
        if b == 'Choice':
            c = o.get('combine')
            if c:
                r = [f for f in n.fields if self.verdict(f.node, v) is True]
                if not r or (c != 'A' and any(self.verdict(f.node, v) is None for f in n.fields)):
                    raise NoOpinion
                return self.enc((r[-1] if c == 'A' else r[0]).node, v, vr, vs)
            (k, x), = v.items()
            f = self.choice_field(n, k)
            return {(f.name if vs and 'id' not in o else f.id): self.enc(f.node, x, vr, vs)}
        if b == 'ArrayOf':
            vt = self.typ(o['vtype'])
            return [self.enc(vt, x, vr, vs) for x in v]
        if b == 'MapOf':
            kt, vt = self.typ(o['ktype']), self.typ(o['vtype'])
            return {self.enc(kt, k, vr, vs): self.enc(vt, x, vr, vs) for k, x in v.items()}
        if b == 'Array':
            f = o.get('format')
            if f in ('ipv4-net', 'ipv6-net'):
                a = str(ipaddress.ip_address(v[0]))
                return a if v[1] == (32 if f == 'ipv4-net' else 128) else f'{a}/{v[1]}'
            out = [self._fenc(n, fl, v[fl.id - 1], v[fl.tagid - 1] if fl.tagid is not None else None, vr, vs)
                   if len(v) >= fl.id and v[fl.id - 1] is not None else None for fl in n.fields]
            while out and out[-1] is None:
                out.pop()
            return '-'.join(out) if f == 'tag-uuid' else out
        if b in ('Map', 'Record'):
            byid = {f.id: f.name for f in n.fields}
            ev = {f.id: self._fenc(n, f, v[f.name], v[byid[f.tagid]] if f.tagid is not None else None, vr, vs) for f in n.fields if f.name in v}
            if b == 'Record' and not vr:
                out = [ev.get(f.id) for f in n.fields]
                while out and out[-1] is None:
                    out.pop()
                return out
            names = vs and 'id' not in o
            return {(f.name if names else f.id): ev[f.id] for f in n.fields if f.id in ev}
        raise NoOpinion

    def _fenc(self, n, f, x, tag, vr, vs):
        if f.tagid is not None:
            e = self.enc(f.node, {tag: x}, vr, vs)
            return next(iter(e.values()))
        return self.enc(f.node, x, vr, vs)

    @staticmethod
    def _datems(v):
        t = datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=v)
        return t.strftime('%Y-%m-%dT%H:%M:%S') + (f'.{v % 1000:03}' if v % 1000 else '') + '+00:00'

    def _binenc(self, f, v):
        if f in (None, 'b'):
            return base64.urlsafe_b64encode(v).decode().rstrip('=')
        if f == 'x':
            return v.hex()
        if f in ('X', 'eui'):
            return v.hex().upper()
        if f == 'uuid':
            return self._uuid(v)
        return str(ipaddress.ip_address(v))

    def dec(self, n, w, vr, vs):
        """Wire value -> (True, value) only where the meaning is beyond doubt; (False,) only where it has none."""
        b, o = n.base, n.o
        U = (None,)
        if b in ('Boolean', 'Number'):
            v = w
        elif b == 'Integer':
            if o.get('format') == 'datetime-ms':
                if not isinstance(w, str):
                    return (False,)
                m = re.match(r'^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{3}))?\+00:00\Z', w)
                if not m:
                    return U
                try:
                    t = datetime.datetime(*[int(x) for x in m.groups()[:6]])
                except ValueError:
                    return U
                v = (t - datetime.datetime(1970, 1, 1)) // datetime.timedelta(milliseconds=1) + int(m.group(7) or 0)
            else:
                v = w
        elif b == 'String':
            v = w
        elif b == 'Binary':
            if not isinstance(w, str):
                return (False,)
            try:
                f = o.get('format')
                v = (base64.urlsafe_b64decode(w + '=' * (-len(w) % 4)) if f in (None, 'b') else
                     bytes.fromhex(w.replace('-', '')) if f in ('x', 'X', 'eui', 'uuid') else ipaddress.ip_address(w).packed)
                if self._binenc(f, v) != w:
                    return U
            except Exception:
                return U
        elif b == 'Enumerated':
            if isinstance(w, bool) or not isinstance(w, (int, str)):
                return (False,) if not isinstance(w, (bool, float)) else U
            m = [(i, s) for i, s in n.fields if (s if vs and 'id' not in o else i) == w]
            if not m:
                return (False,)
            v = m[0][0] if 'id' in o else m[0][1]
        elif b == 'Choice':
            if c := o.get('combine'):
                rs = [self.dec(f.node, w, vr, vs) for f in n.fields]
                if any(x[0] is None for x in rs):
                    return U
                ok = [x for x in rs if x[0]]
                if not ok or c == 'A' and len(ok) < len(rs) or c == 'X' and len(ok) > 1:
                    return (False,)
                v = ok[-1 if c == 'A' else 0][1]
            else:
                if not isinstance(w, dict) or len(w) != 1:
                    return (False,)
                (k, x), = w.items()
                f = self._wkey(n, k, vs)
                if f is None or f == '?':
                    return (False,) if f is None else U
                r = self.dec(f.node, x, vr, vs)
                if r[0] is not True:
                    return r
                v = {(f.id if 'id' in o else f.name): r[1]}
        elif b == 'ArrayOf':
            if not isinstance(w, list):
                return (False,)
            vt = self.typ(o['vtype'])
            rs = [self.dec(vt, x, vr, vs) for x in w]
            if any(r[0] is not True for r in rs):
                return (self._all([r[0] for r in rs]),)
            v = [r[1] for r in rs]
        elif b == 'MapOf':
            if not isinstance(w, dict):
                return (False,)
            kt, vt = self.typ(o['ktype']), self.typ(o['vtype'])
            v, bad = {}, []
            for k, x in w.items():
                if kt.base == 'Integer' and 'format' not in kt.o and isinstance(k, str):
                    if not re.match(r'^-?[1-9]\d{0,15}$|^0$', k):
                        bad.append(None)
                        continue
                    k = int(k)
                elif kt.base not in ('String', 'Integer', 'Binary'):
                    return U
                rk, rv = self.dec(kt, k, vr, vs), self.dec(vt, x, vr, vs)
                bad += [rk[0], rv[0]]
                if rk[0] and rv[0]:
                    v[rk[1]] = rv[1]
            if any(x is not True for x in bad):
                return (self._all(bad),)
            if len(v) != len(w):
                return U
        elif b == 'Array':
            f = o.get('format')
            if f:
                if f == 'tag-uuid' or not isinstance(w, str):
                    return U if isinstance(w, str) else (False,)
                m = re.match(r'^([0-9a-f.:]+)(?:/([1-9]\d*|0))?\Z', w)
                mx = 32 if f == 'ipv4-net' else 128
                try:
                    v = [ipaddress.ip_address(m.group(1)).packed, int(m.group(2)) if m.group(2) else mx]
                    if self.verdict(n, v) is not True or self.enc(n, v, vr, vs) != w:
                        return U
                except Exception:
                    return U
            else:
                if not isinstance(w, list):
                    return (False,)
                if len(w) > len(n.fields):
                    return (False,)
                if w and w[-1] is None:
                    return U
                r = self._dfields(n, {f.id: w[f.id - 1] for f in n.fields if len(w) >= f.id and w[f.id - 1] is not None}, vr, vs)
                if r[0] is not True:
                    return r
                v = [r[1].get(f.id) for f in n.fields]
                while v and v[-1] is None:
                    v.pop()
        elif b in ('Map', 'Record'):
            if b == 'Record' and not vr:
                if not isinstance(w, list) or len(w) > len(n.fields):
                    return (False,)
                if w and w[-1] is None:
                    return U
                wd = {f.id: x for f, x in zip(n.fields, w) if x is not None}
            else:
                if not isinstance(w, dict):
                    return (False,)
                wd = {}
                for k, x in w.items():
                    f = self._wkey(n, k, vs)
                    if f is None or f == '?':
                        return (False,) if f is None else U
                    if x is None:
                        return U
                    wd[f.id] = x
            r = self._dfields(n, wd, vr, vs)
            if r[0] is not True:
                return r
            v = {f.name: r[1][f.id] for f in n.fields if f.id in r[1]}
        else:
            return U
        ok = self.verdict(n, v)
        return (True, v) if ok else (ok,)

    def _dfields(self, n, wd, vr, vs):
        out, bad = {}, []
        for f in n.fields:
            if f.id not in wd:
                if not f.opt:
                    return (False,)
                continue
            x = wd[f.id]
            if f.tagid is not None:
                if f.tagid not in wd:
                    return (False,)
                tag = wd[f.tagid]
                if isinstance(tag, (dict, list)):
                    return (False,)
                r = self.dec(f.node, {tag: x}, vr, vs)
                r = (r[0], next(iter(r[1].values()))) if r[0] else r
            else:
                r = self.dec(f.node, x, vr, vs)
            bad.append(r[0])
            if r[0]:
                out[f.id] = r[1]
        a = self._all(bad)
        return (True, out) if a else (a,)

    def _wkey(self, n, k, vs):
        for f in n.fields:
            if vs and 'id' not in n.o:
                if k == f.name:
                    return f
            elif type(k) is int and k == f.id or isinstance(k, str) and k == str(f.id):
                return f
        if not (vs and 'id' not in n.o):
            try:
                return '?' if not isinstance(k, str) or int(k) in [f.id for f in n.fields] else None
            except ValueError:
                return None
        return None


# ------------------------------------------------------------------ rules a schema must obey (certain violations only)
ALLOWED = {
    'Binary': 'format minv maxv', 'Boolean': '', 'Integer': 'format minv maxv', 'Number': 'format minf maxf',
    'String': 'format pattern minv maxv', 'Enumerated': 'id enum pointer extend', 'Choice': 'id extend combine',
    'Array': 'extend format minv maxv', 'ArrayOf': 'vtype minv maxv unique set unordered',
    'Map': 'id extend minv maxv sequence', 'MapOf': 'ktype vtype minv maxv sequence', 'Record': 'extend minv maxv sequence'}
NFMT = {'f16', 'f32', 'f64'}
ALLFMT = {**{k: 'String' for k in STRFMT}, **{k: 'Binary' for k in BINFMT}, **{k: 'Array' for k in ARRFMT},
          **{k: 'Integer' for k in INTFMT}, **{k: 'Number' for k in NFMT}, 'datetime-ms': 'Integer',
          **{k: 'String' for k in ('duration', 'idn-email', 'idn-hostname', 'iri-reference', 'uri-template', 'relative-json-pointer')}}


def schema_errors(s):
    """Rule violations a checked schema must not contain.  Empty list: none found."""
    E = []

    def topts(where, base, olist):
        for o in olist:
            if not isinstance(o, str) or not o:
                return E.append(f'{where}: bad option {o!r}')
            if o[0] not in TOPT:
                return E.append(f'{where}: unknown option {o!r}')
        try:
            d = opts(olist)
        except ValueError:
            return E.append(f'{where}: bad option value')
        for k in d:
            if k not in ALLOWED[base].split():
                E.append(f'{where}: option {k} not allowed')
        if base == 'ArrayOf' and 'vtype' not in d or base == 'MapOf' and ('vtype' not in d or 'ktype' not in d):
            E.append(f'{where}: required option missing')
        if 'minv' in d and 'maxv' in d and d['maxv'] < d['minv'] or 'minf' in d and 'maxf' in d and d['maxf'] < d['minf']:
            E.append(f'{where}: bad range')
        if 'format' in d and ALLFMT.get(d['format']) != base:
            E.append(f'{where}: bad format')
        if 'pattern' in d and ('minv' in d or 'maxv' in d):
            E.append(f'{where}: pattern and size')
        if 'enum' in d and 'pointer' in d:
            E.append(f'{where}: enum and pointer')

    if not isinstance(s, dict) or not isinstance(s.get('types'), list):
        return ['no types']
    for k in s:
        if k not in ('info', 'types'):
            E.append(f'unexpected top-level key {k!r}')
    info = s.get('info', {})
    cfg = {'$TypeName': '^[$A-Z][-$A-Za-z0-9]{0,63}$', '$FieldName': '^[$a-z][_$A-Za-z0-9]{0,63}$'}
    if 'info' in s:
        if not isinstance(info, dict) or not isinstance(info.get('package'), str):
            E.append('info without package')
        else:
            for k in info:
                if k not in ('package', 'version', 'title', 'description', 'comment', 'copyright', 'license', 'namespaces', 'exports', 'config', 'roots'):
                    E.append(f'unexpected info {k!r}')
            if isinstance(info.get('config'), dict):
                cfg.update(info['config'])
    names = set()
    for t in s['types']:
        if not isinstance(t, list) or not 2 <= len(t) <= 5:
            E.append('bad type definition')
            continue
        t = list(t) + [[], '', []][len(t) - 2:]
        name, base, to, desc, fields = t
        if not isinstance(name, str) or not re.match(cfg['$TypeName'], name):
            E.append(f'bad type name {name!r}')
            continue
        if name in names:
            E.append(f'duplicate type {name}')
        names.add(name)
        if name in BASES:
            E.append(f'reserved name {name}')
        if base not in BASES:
            E.append(f'{name}: bad base type {base!r}')
            continue
        if not isinstance(desc, str) or not isinstance(to, list) or not isinstance(fields, list):
            E.append(f'{name}: bad definition')
            continue
        topts(name, base, to)
        if base not in FIELDED + ('Enumerated',):
            if fields:
                E.append(f'{name}: fields on {base}')
            continue
        if fields and base == 'Enumerated' and any(o[:1] in ('#', '>') for o in to if isinstance(o, str)):
            E.append(f'{name}: fields on derived enumeration')
        n = 3 if base == 'Enumerated' else 5
        ids, fn = [], []
        for i, f in enumerate(fields, 1):
            if not isinstance(f, list) or len(f) != n or type(f[0]) is not int or f[0] < 0 or not isinstance(f[1], str) or not isinstance(f[-1], str):
                E.append(f'{name}: bad field {f!r}')
                continue
            if base in ('Array', 'Record') and f[0] != i:
                E.append(f'{name}: field id {f[0]} should be {i}')
            ids.append(f[0])
            fn.append(f[1])
            if n == 5:
                if not re.match(cfg['$FieldName'], f[1]):
                    E.append(f'{name}: bad field name {f[1]!r}')
                if not isinstance(f[2], str) or not isinstance(f[3], list) or any(not isinstance(o, str) or not o for o in f[3]):
                    E.append(f'{name}.{f[1]}: bad field')
                    continue
                if f[2] in FIELDED:
                    E.append(f'{name}.{f[1]}: anonymous {f[2]}')
                try:
                    fo, fto = split_opts(f[3])
                except ValueError:
                    E.append(f'{name}.{f[1]}: bad option value')
                    continue
                if any(o[0] not in TOPT and o[0] not in FOPT for o in f[3]):
                    E.append(f'{name}.{f[1]}: unknown option')
                    continue
                lo, hi = fo.get('minc', 1), fo.get('maxc', 1)
                if lo < 0 or hi < 0 or 0 < hi < lo:
                    E.append(f'{name}.{f[1]}: bad multiplicity')
                if f[2] in BASES:
                    topts(f'{name}.{f[1]}', f[2], fto)
                elif any(o[0] != 'q' or hi == 1 for o in fto):
                    E.append(f'{name}.{f[1]}: type option on a reference')
                if 'tagid' in fo and fo['tagid'] not in [x[0] for x in fields if isinstance(x, list) and x]:
                    E.append(f'{name}.{f[1]}: bad tagid')
        if len(set(ids)) != len(ids):
            E.append(f'{name}: duplicate ids')
        if len(set(fn)) != len(fn):
            E.append(f'{name}: duplicate names')
    return E
