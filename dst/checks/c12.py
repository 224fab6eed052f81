"""C12: loading a damaged or unreadable schema never yields an unchecked schema."""
import copy
import io
import json
import os
import re
import shutil
import tempfile

from .. import gen, model, tools
from ..base import PKG, canon, digest, mkrng, scrub
from ..node import run_forked
from ..seams import W, real, set_env
from ..work import safe, variant
from .c05 import norm
from .common import Harness, Lost, need

PROP = 'C12'
RUNS = {'quick': 4500, 'thorough': 60000}
REAL = ['jadn.core (load, loads, load_any, check)', 'jadn.convert.jidl, html loaders', 'jadn.codec (meta-schema check)', 'jsonschema', 'lxml', 'io buffering and text layers']
STUB = ['raw file layer (simulated read errors, torn and short reads, failing opens, on schema files and on the validator\'s own files)', 'storage damage (torn, lost and mixed blocks, flipped bits, lost and doubled lines)', 'clock']
RULE = 'a run in which at least one damaged file was loaded or one read fault fired'
MEASURE = 'distinct histories of loads: (format, loader, damage kinds, fault fired where, outcome class)'
CLOCK = 1.7e9
KINDS = ['truncate', 'truncate', 'trunc_line', 'flip', 'flip', 'alnum', 'alnum', 'alnum', 'punct', 'punct', 'del', 'dup', 'zero', 'block', 'insert', 'delline', 'delline', 'dupline', 'swapline', 'mix', 'mix', 'bom', 'crlf',
         'latin', 'utf16', 'rename', 'moveline', 'delword', 'json', 'json', 'json', 'json top']


def gen_damage(r):
    k = r.choice(KINDS)
    return [k, int(r.random() * 1e4) / 1e4, r.choice([1, 1, 2, 5, 20, 100, 512]) if k in ('del', 'dup', 'zero') else int(r.random() * 1e4) / 1e4, r.choice('abzAZ019_-"{}[](),:=/. \n#&*') if k == 'insert' else r.randrange(1 << 16)]


def gen_plan(r, i, tier):
    s = gen.gen_schema(r, ntypes=r.choice([1, 2, 3, 5, 9]), docs=True, hard=r.random() < .6)
    schemas = [s, variant(s, r) if r.random() < .6 else gen.gen_schema(r, ntypes=2, docs=True, hard=True)]
    loads = []
    only = r.choice(['jadn', 'jidl', 'html', None])
    for _ in range(r.choice([2, 4, 7])):
        f = only or r.choice(['jadn', 'jidl', 'html'])
        x = r.random()
        dmg = [gen_damage(r) for _ in range(r.choice([1, 1, 1, 2]))] if x < .75 else []
        faults = []
        if x > .6:
            for _ in range(r.choice([1, 1, 2])):
                where = r.choice(['schema', 'schema', 'data json', 'data jadn'])
                op = r.choice(['read', 'read', 'open-r'])
                faults.append({'op': op, 'n': r.choice([0, 0, 1, 2, 3, 5, 9, 30]), 'kind': r.choice(['EIO', 'ESTALE', 'TORN', 'SHORT', 'EIO'] if op == 'read' else ['EMFILE', 'EIO', 'ENOENT', 'EACCES']), 'part': r.choice([1, 50]),
                               'on': where})
        loads.append({'fmt': f, 's': 0 if r.random() < .8 else 1, 'how': r.choice(['load', 'load_any', 'load_any', 'loads', 'path' if f == 'html' else 'load']), 'damage': dmg, 'faults': faults, 'src': r.choice(['', '', 'model.jadn']),
                      'semantic': r.randrange(1 << 30) if r.random() < .25 else None, 'strip': r.random() < .3,
                      'chunk': r.choice([0, 0, 0, 64, 1000]), 'bufsize': r.choice([None, None, 100, 1000]), 'eintr': 0})
    loads.append({**loads[0], 'damage': [], 'faults': [], 'semantic': None})
    plan = {'schemas': schemas, 'loads': loads}
    return plan if safe(plan) else gen_plan(r, i, tier)


def spoil(b, other, dm):
    """Apply one damage to the bytes."""
    k, x, y, z = dm
    n = len(b)
    if not n:
        return b
    at = int(x * n)
    lines = b.split(b'\n')
    ln = int(x * len(lines))
    if k == 'truncate':
        return b[:at]
    if k == 'trunc_line':
        return b'\n'.join(lines[:ln])
    if k == 'flip':
        return b[:at] + bytes([b[at] ^ (1 << z % 8)]) + b[at + 1:]
    if k in ('alnum', 'punct', 'rename'):
        want = (lambda c: chr(c).isalnum()) if k != 'punct' else (lambda c: 32 < c < 127 and not chr(c).isalnum())
        pos = [j for j, c in enumerate(b) if c < 128 and want(c)]
        if not pos:
            return b
        j = pos[int(x * len(pos))]
        new = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789' if k != 'punct' else '!"#$%&\'()*+,-./:;<=>?@[]^_`{|}~'
        c = new[z % len(new)].encode()
        if k == 'rename':       # the same change everywhere
            return b.replace(b[j:j + 2], c + b[j + 1:j + 2])
        return b[:j] + c + b[j + 1:]
    if k == 'del':
        return b[:at] + b[at + int(y):]
    if k == 'dup':
        return b[:at + int(y)] + b[at:]
    if k == 'zero':
        return b[:at] + bytes(len(b[at:at + int(y)])) + b[at + int(y):]
    if k == 'block':
        at -= at % 512
        return b[:at] + (bytes(len(b[at:at + 512])) if z % 2 else b'') + b[at + 512:]
    if k == 'insert':
        return b[:at] + z.encode() + b[at:]
    if k == 'delline':
        return b'\n'.join(lines[:ln] + lines[ln + 1:])
    if k == 'dupline':
        return b'\n'.join(lines[:ln + 1] + lines[ln:])
    if k == 'swapline':
        l2 = int(y * len(lines))
        lines[ln], lines[l2] = lines[l2], lines[ln]
        return b'\n'.join(lines)
    if k == 'moveline':
        l = lines.pop(ln)
        lines.insert(int(y * len(lines)), l)
        return b'\n'.join(lines)
    if k == 'delword':
        ws = re.split(rb'(\s+)', b)
        j = int(x * len(ws))
        return b''.join(ws[:j] + ws[j + 1:])
    if k in ('json', 'json top'):       # one place of the document retyped, dropped, added or doubled
        m = re.match(rb'"Generated from [^\n]*"\n\n', b)
        head = m[0] if m else b''
        try:
            v = json.loads(b[len(head):])
            list(v.items())
        except (ValueError, AttributeError):
            return b
        r = mkrng('json', x, y, z)
        if k == 'json top':
            g = r.choice(list(v))
            if r.random() < .5:
                v[g] = r.choice(gen.JUNK)
            elif isinstance(v[g], dict) and v[g]:
                v[g][r.choice(list(v[g]))] = r.choice(gen.JUNK)
            else:
                v[r.choice(['zz', 'Types', 'info', 'meta'])] = v.pop(g)
        else:
            v = gen.damage_value(v, r, True)
        return head + json.dumps(v, ensure_ascii=False).encode()
    if k == 'mix':
        return b[:at] + other[at:]
    if k == 'bom':
        return b'\xef\xbb\xbf' + b
    if k == 'crlf':
        return b.replace(b'\n', b'\r\n')
    if k == 'latin':
        return b.decode('utf8', 'replace').encode('latin-1', 'replace')
    if k == 'utf16':
        return b.decode('utf8', 'replace').encode('utf-16')
    return b


def _save(fmt, schema, path, src, strip):
    import jadn
    from jadn import convert
    if fmt == 'jadn':
        jadn.dump(schema, path, src, strip=strip)
    else:
        getattr(convert, fmt + '_dump')(schema, path, src)


def _files(plan, d):
    """Make the files; runs in a pristine process."""
    import random
    set_env('UTC', CLOCK, 4242, 0)
    cache = {}

    def text(fmt, s, src, strip):
        k = repr((fmt, s, src, strip))
        if k not in cache:
            p = os.path.join(d, 'x')
            try:
                _save(fmt, copy.deepcopy(s), p, src, strip)
                with real['open'](p, 'rb') as f:
                    cache[k] = f.read()
            except Exception:
                cache[k] = b''
        return cache[k]
    out = []
    for l in plan['loads']:
        s = plan['schemas'][l['s']]
        b = text(l['fmt'], s, l['src'], l['strip'])
        if l['semantic'] is not None:       # well-formed text of a schema that breaks a rule
            r = random.Random(l['semantic'])
            try:
                b = text(l['fmt'], tools.semantic(copy.deepcopy(s), r), l['src'], l['strip']) or b
            except Exception:
                pass
        o = text(l['fmt'], plan['schemas'][1 - l['s']], l['src'], l['strip'])
        for dm in l['damage']:
            try:
                b = spoil(b, o, dm)
            except Exception:
                pass
        out.append(b)
    return out


def _load(l, path):
    import jadn
    from jadn import convert
    m = jadn if l['fmt'] == 'jadn' else convert
    p = '' if l['fmt'] == 'jadn' else l['fmt'] + '_'
    if l['how'] == 'path':
        return convert.html_load(path)
    with open(path, encoding='utf8') as f:
        return jadn.load_any(f) if l['how'] == 'load_any' else getattr(m, p + 'load')(f) if l['how'] == 'load' else getattr(m, p + 'loads')(f.read())


def _process(plan, d):
    from .. import vfs
    set_env('UTC', CLOCK, 4242, 0, cwd=d)
    out = []
    for k, l in enumerate(plan['loads']):
        path = os.path.join(d, f'in{k}.{l["fmt"]}')
        fl = [{**f, 'path': {'schema': f'in{k}.{l["fmt"]}', 'data json': '_schema.json', 'data jadn': '_schema.jadn'}[f['on']]} for f in l['faults']]
        fs = PerPath(d, fl, l['chunk'], k, l['eintr'], extra_roots=[os.path.join(PKG, 'data')])
        fs.bufsize = l['bufsize']
        W.fs = fs
        try:
            o = ('ok', copy.deepcopy(_load(l, path)))
        except Exception as e:
            o = ('err', type(e).__name__, scrub(str(e))[:200])
        h = fs.open_handles()
        W.fs = None
        out.append({'o': o, 'fired': [f for f in fs.fired if f[2] >= 0], 'short': sum(1 for f in fs.fired if f[2] < 0), 'got': bytes(fs.got.get(path, b'')), 'handles': [os.path.basename(x) for x in h],
                    'where': [f['on'] for f in fl if f.get('hit')], 'lost': sorted(os.path.basename(x) for x in fs.lost), 'trace': fs.trace[:40]})
    return out


def PerPath(*a, **k):
    """Faults counted per file rather than over all files."""
    from .. import vfs

    class P(vfs.FS):
        def hit(self, op, path):
            out = None
            self.trace.append((op, os.path.basename(path)))
            for f in self.faults:
                if f['op'] != op or not path.endswith(f['path']):
                    continue
                c = f.setdefault('seen', 0)
                f['seen'] = c + 1
                if c == f['n'] and out is None:
                    out = f
                    for g in a[1]:
                        if all(g[x] == f[x] for x in ('op', 'n', 'kind', 'on')):
                            g['hit'] = True
                    self.fired.append((f['kind'], op, c))
            return out
    return P(*a, **k)


# ---------------------------------------------------------------- what the bytes say
def jidl_tokens(text):
    """Significant lines, with the freedom of the syntax taken out.  Info lines come first, as name: value."""
    info, rest = {}, []
    for line in text.splitlines():
        if line.startswith('/*') and line.endswith('*/') or not line.split('//', 1)[0].strip():
            continue
        if m := re.match(r'^\s*([-\w]+):\s*(.+?)\s*$', line):
            try:
                info[m[1]] = canon(json.loads(m[2]))
            except ValueError:
                info[m[1]] = '?' + m[2]
            continue
        q = re.search(r'"(?:[^"\\]|\\.)+"', line)
        c = line.find(' //')
        at = line.find(' //', q.end()) if q and (c < 0 or q.start() < c) else c
        head, desc = (line, '') if at < 0 else (line[:at], re.sub(r'^(//\s*)+', '', line[at + 3:].strip()))
        if re.match(r'\s*\S+\s*=', head):      # an older style of the language has a brace after a type
            head = re.sub(r'\s*\{?\s*$', '', head)
        rest.append(bare(head + desc))
    return [sorted(info.items()), rest]


def bare(s):
    """The visible text, without blanks and marks that only separate, and with spellings of the same number made equal."""
    s = re.sub(r'\s+|::|//|=', '', re.sub(r'\[0\.\.1\]', 'optional', s))
    s = re.sub(r'(?i)(enum|pointer|tagid)\[', lambda m: m[0].lower(), s)
    s = re.sub(r'(unique|set|unordered|sequence|extend)\1+', r'\1', s)
    s = re.sub(r'\d[\d_]*\.(?!\.)\d*|\d[\d_]*|(?<![\d.])\.\d+', number, s)
    s = re.sub(r'(?<!Integer)(?<!Number)\{([-\d*]+)\.\.(-\d+|\*|[-\d]+)\}', size, s)
    return re.sub(r'\b(\d+)\.\.\1\b', r'\1', s)


def size(m):
    """A length: 0 says nothing from below, and anything negative nothing from above."""
    lo, hi = m[1] if m[1].strip('0-*') else '0', '*' if m[2].startswith('-') else m[2]
    return '' if (lo, hi) == ('0', '*') else f'{{{lo}..{hi}}}'


def number(m):
    try:
        x = float(m[0]) if '.' in m[0] else int(m[0])
        return str(int(x) if x == int(x) else x)
    except ValueError:
        return m[0]


CELLS = ('jKey', 'jVal', 'jTname', 'jTstr', 'jTdesc', 'jFid', 'jFname', 'jFstr', 'jFmult', 'jFdesc')


def html_tokens(text):
    """Rows of the tables' cells.  Broken markup says what lxml makes of it, and markup in a cell says something too."""
    from lxml import html
    t = []
    for e in html.fromstring(text).iter():
        cl = [c for c in (e.get('class') or '').split() if c in CELLS]
        if cl:
            t.append([cl[0], ''.join(x for x in e.itertext())])
    info, rest = {}, []
    for k, (c, v) in enumerate(t):
        if c == 'jKey':
            val = t[k + 1][1] if k + 1 < len(t) and t[k + 1][0] == 'jVal' else None
            try:
                info[v.rstrip(':')] = canon(json.loads(val))
            except (ValueError, TypeError):
                info[v.rstrip(':')] = f'?{val}'
        elif c != 'jVal':
            if c in ('jTname', 'jFid') or not rest:
                rest.append({})
            rest[-1][c] = rest[-1].get(c, '') + bare(v)
    for x in rest:
        x['label'] = x.pop('jFname', '') + x.pop('jFdesc', '')
        if x.get('jFmult') == '1':
            del x['jFmult']
    return [sorted(info.items()), [sorted([k, v] for k, v in x.items() if v) for x in rest]]


def _again(fmt, v, text):
    """In a pristine process: the schema of the same text, loaded without any fault; and the loaded schema written out again."""
    import jadn
    from jadn import convert
    m = jadn if fmt == 'jadn' else convert
    p = '' if fmt == 'jadn' else fmt + '_'
    try:
        a = ('ok', canon(getattr(m, p + 'loads')(text)))
    except Exception as e:
        a = ('err', type(e).__name__, str(e)[:200])
    try:
        b = getattr(m, p + 'dumps')(v)
    except Exception as e:
        b = None
    return a, b


def padded(s):
    if isinstance(s, dict) and isinstance(s.get('types'), list):
        s['types'] = [list(t) + [[], '', []][len(t) - 2:] if isinstance(t, list) and 2 <= len(t) <= 4 else t for t in s['types']]
    return s


def judge(l, o):
    """Violations of one load that returned a schema."""
    v = o['o'][1]
    try:
        text = io.TextIOWrapper(io.BytesIO(o['got']), 'utf8').read()
    except UnicodeDecodeError:
        return ['not-what-it-says', 'the bytes read are not UTF-8']
    try:
        errs = model.schema_errors(v)
    except Exception as e:
        errs = [f'not a schema: {type(e).__name__}']
    if errs:
        return ['invalid-accepted', f'{errs[:3]}']
    if l['fmt'] == 'jadn':
        if m := re.match(r'"Generated from [^\n]*"\n\n', text):
            text = text[m.end():]
        try:
            w = padded(json.loads(text))
        except ValueError as e:
            return ['not-what-it-says', f'the text read is not JSON: {e}']
        if canon(w) != canon(v):
            return ['not-what-it-says', diff(canon(w), canon(v))]
        return None
    a, b = need(run_forked(_again, (l['fmt'], v, text), 30))
    if a[0] != 'ok' or a[1] != canon(v):
        return ['not-what-it-says', f'without the fault: {diff(a[1], canon(v))}']
    if b is None:       # holds text that the format cannot express, such as a control character in HTML
        return None
    t = jidl_tokens if l['fmt'] == 'jidl' else html_tokens
    x, y = t(text), t(b)
    if x != y:
        return ['not-what-it-says', f'the bytes say | the schema says: {diff(json.dumps(x, ensure_ascii=False), json.dumps(y, ensure_ascii=False))}']
    return None


def diff(x, y):
    k = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
    k = max(0, k - 60)
    return f'...{x[k:k + 200]} | ...{y[k:k + 200]}'


def run(plan):
    d = os.path.realpath(tempfile.mkdtemp(prefix='dst-c12-'))
    viol, st, shape = [], {}, []

    def bump(k, n=1):
        st[k] = st.get(k, 0) + n
    try:
        files = need(run_forked(_files, (plan, d), 60))
        for k, (l, b) in enumerate(zip(plan['loads'], files)):
            with real['open'](os.path.join(d, f'in{k}.{l["fmt"]}'), 'wb') as f:
                f.write(b)
        r = run_forked(_process, (plan, d), 60 * plan.get('patience', 1))
        if r[0] == 'exit':
            return {'viol': [['process-died', f'status {r[1]}']], 'stats': st, 'log': str(r), 'cov': []}
        out = need(r)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for k, (l, o, b) in enumerate(zip(plan['loads'], out, files)):
        bump('loads ' + l['fmt'])
        for dm in l['damage']:
            bump('fault:' + dm[0])
        for f in o['fired']:
            bump(f'fault:{f[0]} at {f[1]}')
        if o['short']:
            bump('fault:short or interrupted reads', o['short'])
        if l['damage'] or o['fired']:
            st['nontrivial'] = 1
        hard = [f for f in o['fired'] if f[0] not in ('SHORT', 'TORN')]
        torn_data = [x for x in o['lost'] if not x.startswith('in')]      # part of a reference file was lost
        what = f'load {k} {l["fmt"]} {l["how"]}, damage {l["damage"]}, faults fired {o["fired"]} on {o["where"]}'
        shape.append([l['fmt'], l['how'], [x[0] for x in l['damage']], o['fired'], o['where'], o['o'][0] + (o['o'][1] if o['o'][0] == 'err' else '')])
        if o['handles']:
            viol.append(['handle-open', f'{what}: {o["handles"]} still open afterwards'])
        if o['o'][0] == 'ok':
            bump('accepted')
            if hard or torn_data:
                viol.append(['fault-swallowed', f'{what}: returned a schema'])
            if l['damage'] or o['fired'] or l['semantic'] is not None:
                bump('accepted after damage')
            j = judge(l, o)
            if j:
                viol.append([j[0], f'{what}: {j[1]}; bytes read {o["got"][:3000]!r}'])
            if not l['damage'] and l['semantic'] is None and not o['fired'] and norm(o['o'][1]) != norm(plan['schemas'][l['s']]):
                viol.append(['not-what-it-says', f'{what}: intact file loads differently'])
        else:
            bump('refused')
            if not l['damage'] and l['semantic'] is None and not [f for f in o['fired'] if f[0] != 'SHORT']:
                viol.append(['intact-refused', f'{what}: {o["o"]}'])
    return {'viol': viol, 'stats': st, 'log': digest([shape, viol, [(o['o'][0], canon(o['o'][1]), o['trace']) for o in out]]), 'cov': [digest(shape)[:12]]}


def lists(plan):
    yield ('loads',)
    for k in range(len(plan['loads'])):
        yield ('loads', k, 'damage')
        yield ('loads', k, 'faults')


def simpler(plan):
    from ..shrink import schema_simpler
    for k, l in enumerate(plan['loads']):
        for x, v in (('chunk', 0), ('bufsize', None), ('how', 'load'), ('src', ''), ('strip', False), ('semantic', None)):
            if l[x] != v:
                n = copy.deepcopy(plan)
                n['loads'][k][x] = v
                yield n
    for k in range(len(plan['schemas'])):
        for s in schema_simpler(plan['schemas'][k]):
            yield {**plan, 'schemas': [s if j == k else x for j, x in enumerate(plan['schemas'])]}


def valid(plan):
    return bool(plan['loads'])
