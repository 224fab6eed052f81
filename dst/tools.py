"""The schema tools as operations: [name, JSON arguments...] applied to a schema (or to a text)."""
import copy
import io

STYLES_D = [{}, {'format': 'graphviz', 'detail': 'information', 'attributes': True, 'links': True},
            {'format': 'plantuml', 'detail': 'information', 'attributes': False, 'links': False},
            {'format': 'graphviz', 'detail': 'conceptual'}, {'format': 'plantuml', 'detail': 'logical', 'attributes': True, 'edge_labels': False},
            {'format': 'graphviz', 'detail': 'logical', 'links': False, 'edge_labels': True}]
STYLES_P = [{'info': 12}, {'info': 12}, {'info': 20, 'comment_pre': False}, None]
STYLES_J = [None, {'desc': 50}, {'page': 60, 'desc': 0}, {'comment_pre': '//', 'id': 6, 'name': 30}, {'desc': 30, 'name': 20}]
EXT = ['AnonymousType', 'Multiplicity', 'DerivedEnum', 'MapOfEnum', 'Link']


class Mem(io.BytesIO):
    name = ''


def gen_op(r):
    x = r.choice(['check', 'dumps', 'canon', 'analyze', 'deps', 'unfold', 'unfold', 'strip', 'jidl', 'jidl', 'html', 'md', 'diagram', 'diagram',
                  'jsonschema', 'jsonschema', 'codec', 'roundtrip', 'topo', 'core', 'proto'])
    if x == 'dumps':
        return [x, r.random() < .5]
    if x == 'unfold':
        return [x, sorted(r.sample(EXT, r.randrange(1, 5))) if r.random() < .4 else None]
    if x == 'strip':
        return [x, r.choice([0, 0, 5, 20])]
    if x in ('jidl', 'md'):
        return [x, r.choice(STYLES_J) if x == 'jidl' else None]
    if x == 'proto':
        return [x, r.choice(STYLES_P)]
    if x == 'diagram':
        return [x, r.choice(STYLES_D)]
    if x == 'jsonschema':
        return [x, r.random() < .7, r.choice(['enum', 'const', 'regex']), r.choice(['any', 'ref'])]
    if x == 'codec':
        return [x, r.random() < .5, r.random() < .5]
    if x == 'roundtrip':
        return [x, r.choice(['jadn', 'jidl', 'html'])]
    return [x]


def run_op(op, schema):
    import jadn
    from jadn import convert, transform, translate
    from jadn.codec import Codec
    k = op[0]
    if k == 'check':
        return jadn.check(schema)
    if k == 'dumps':
        return jadn.dumps(schema, strip=op[1])
    if k == 'canon':
        return jadn.canonicalize(schema)
    if k == 'analyze':
        return jadn.analyze(schema)
    if k == 'deps':
        return jadn.build_deps(schema)
    if k == 'topo':
        info = schema.get('info', {})
        return jadn.topo_sort(jadn.build_deps(schema), info.get('roots', info.get('exports', [])))
    if k == 'unfold':
        return transform.unfold_extensions(schema, set(op[1])) if op[1] else transform.unfold_extensions(schema)
    if k == 'core':
        return transform.unfold_extensions(transform.strip_comments(schema))
    if k == 'strip':
        return transform.strip_comments(schema, op[1])
    if k == 'jidl':
        return convert.jidl_dumps(schema, op[1]) if op[1] is not None else convert.jidl_dumps(schema)
    if k == 'html':
        return convert.html_dumps(schema)
    if k == 'proto':
        return convert.proto_dumps(schema, op[1])
    if k == 'md':
        return convert.markdown_dumps(schema)
    if k == 'diagram':
        return convert.diagram_dumps(schema, op[1]) if op[1] else convert.diagram_dumps(schema)
    if k == 'jsonschema':
        return translate.json_schema_dumps(schema, verbose=op[1], enum_style=op[2], import_style=op[3])
    if k == 'codec':
        c = Codec(schema, op[1], op[2])
        return {t: [s.TypeOpts, s.eMap, s.dMap] for t, s in c.symtab.items()} if hasattr(c, 'symtab') else None
    if k == 'roundtrip':
        if op[1] == 'jadn':
            return jadn.loads(jadn.dumps(schema))
        if op[1] == 'jidl':
            return convert.jidl_loads(convert.jidl_dumps(schema))
        return convert.html_loads(convert.html_dumps(schema))
    if k == 'loads':        # of a text given in the operation
        return {'jadn': jadn.loads, 'jidl': convert.jidl_loads, 'html': convert.html_loads}[op[1]](op[2])
    if k == 'load_any':
        f = Mem(op[2].encode('utf8', 'surrogatepass'))
        f.name = 'mem.' + op[1]
        return jadn.load_any(io.TextIOWrapper(f, 'utf8', 'surrogatepass'))
    raise ValueError(k)


# results that share no structure with the schema they were made from: a caller may do with them what it likes
FRESH = {'canon', 'analyze', 'deps', 'unfold', 'core', 'strip', 'roundtrip', 'topo'}


def intern(op, pool):
    """A style used twice is the same dictionary object both times."""
    from .base import canon
    if isinstance(op, dict):
        return pool.setdefault(canon(op), copy.deepcopy(op))
    if isinstance(op, list) and not (op and op[0] == 'value'):
        return [intern(x, pool) for x in op]
    return op


# ---------------------------------------------------------------- files
FORMATS = ['jadn', 'jadn', 'jidl', 'html', 'md', 'diagram', 'jsonschema', 'core', 'proto']
EXTN = {'jadn': 'jadn', 'jidl': 'jidl', 'html': 'html', 'md': 'md', 'diagram': 'dot', 'jsonschema': 'json', 'core': 'jadn', 'proto': 'proto', 'jas': 'jas'}


def gen_dump(r):
    """[format, source, arguments] of one save to a file."""
    f = r.choice(FORMATS)
    src = r.choice(['', '', 'model.jadn', 'Käse "x".jadn'])
    if f == 'jidl':
        return [f, src, r.choice(STYLES_J)]
    if f == 'proto':
        return [f, src, r.choice(STYLES_P)]
    if f == 'diagram':
        return [f, src, r.choice(STYLES_D)]
    if f == 'jsonschema':
        return [f, src, [r.random() < .7, r.choice(['enum', 'enum', 'const', 'regex']), r.choice(['any', 'ref'])]]
    if f in ('jadn', 'core'):
        return [f, src, r.random() < .4]
    return [f, src, None]


def run_dump(d, schema, path):
    import jadn
    from jadn import convert, transform, translate
    f, src, a = d
    if f == 'jadn':
        jadn.dump(schema, path, src, strip=a)
    elif f == 'core':
        jadn.dump(transform.unfold_extensions(transform.strip_comments(schema)), path, src, strip=a)
    elif f == 'jidl':
        convert.jidl_dump(schema, path, src, a) if a else convert.jidl_dump(schema, path, src)
    elif f == 'html':
        convert.html_dump(schema, path, src)
    elif f == 'md':
        convert.markdown_dump(schema, path, src)
    elif f == 'proto':
        convert.proto_dump(schema, path, src, a)
    elif f == 'jas':
        convert.jas_dump(schema, path, src)
    elif f == 'diagram':
        convert.diagram_dump(schema, path, src, a) if a else convert.diagram_dump(schema, path, src)
    elif f == 'jsonschema':
        translate.json_schema_dump(schema, path, src, *a)
    else:
        raise ValueError(f)


def outcome_of(op, schema, scratch=None):
    """-> (outcome, result or None).  A 'file' operation's result is what the file then holds."""
    from .base import canon, scrub
    try:
        if op[0] == 'file':
            path = f'{scratch}/{op[2]}.{EXTN[op[1][0]]}'
            run_dump(op[1], schema, path)
            from .seams import real
            with real['open'](path, 'rb') as f:
                return ('ok', repr(f.read())), None
        if op[0] == 'value':
            from .work import new_codec, perform
            return perform(new_codec(schema, *op[1]), op[2])[0], None
        v = run_op(op, schema)
    except Exception as e:
        m = scrub(str(e))
        return ('err', type(e).__name__, m if len(m) < 400 else m[:200] + m[-200:]), None
    return ('ok', canon(v)), v


def _solo(jobs, clock, scratch):
    from .node import run_forked
    from .seams import set_env
    set_env('UTC', clock, 4242, 0)
    out = []
    for op, schema in jobs:
        r = run_forked(_solo1, (op, schema, scratch), 60)
        out.append(r[1] if r[0] == 'ok' else ('lost', *r))
    return out


def _solo1(op, schema, scratch):
    s = copy.deepcopy(schema)
    return outcome_of(op, s, scratch)[0]


def solo(jobs, clock, scratch, timeout=120):
    """Each operation alone, in a pristine process of its own."""
    from .checks.common import Lost
    from .node import run_forked
    seen, uniq = {}, []
    for op, schema in jobs:
        k = repr(op) + repr(schema)
        if k not in seen:
            seen[k] = len(uniq)
            uniq.append((op, schema))
    r = run_forked(_solo, (uniq, clock, scratch), timeout)
    if r[0] != 'ok' or any(o[0] == 'lost' for o in r[1]):
        raise Lost(f'solo operation did not finish: {str(r)[:300]}')
    return [tuple(r[1][seen[repr(op) + repr(schema)]]) for op, schema in jobs]


# ---------------------------------------------------------------- schemas to run tools on
def broken(schema, r):
    """A schema that was damaged in one or two places (often invalid, sometimes still valid)."""
    from . import gen
    for _ in range(20):
        s = gen.damage_value(schema, r, True)
        x = r.random()
        if x < .2:
            s = gen.damage_value(s, r, True)
        elif x < .5:
            s = semantic(schema, r)
        if isinstance(s, dict) and _plain(s):
            return s
    return copy.deepcopy(schema)


def _plain(v):
    if isinstance(v, dict):
        return all(isinstance(k, str) and not k.startswith('$') or k in ('$MaxString', '$MaxElements', '$MaxBinary', '$TypeName', '$FieldName', '$NSID', '$Sys') for k in v) and all(map(_plain, v.values()))
    if isinstance(v, list):
        return all(map(_plain, v))
    return not isinstance(v, (bytes, tuple)) and v == v


def semantic(schema, r):
    """Well-formed but breaking one of JADN's rules."""
    s = copy.deepcopy(schema)
    t = r.choice(s['types'])
    k = r.choice(['dup', 'base', 'opt', 'range', 'fid', 'fname', 'ref', 'name', 'multi', 'format', 'short', 'tag', 'regex'])
    if k == 'dup':
        s['types'].append(copy.deepcopy(t))
    elif k == 'base':
        t[1] = r.choice(['Nothing', 'Record', 'Integer', 'string', 'MapOf', 'ArrayOf'])
    elif k == 'opt':
        t[2] = t[2] + [r.choice(['}3', '{1', '/e-mail', '%^a$', '*String', '+String', '=', 'q', '#Nope', 'X', 'z1.5', 'CX', '~', 'bad'])]
    elif k == 'range':
        t[2] = [o for o in t[2] if o[0] not in '{}'] + ['{9', '}3']
    elif k == 'format':
        t[2] = [o for o in t[2] if o[0] != '/'] + [r.choice(['/nope', '/ipv4', '/x', '/i8'])]
    elif k == 'short':
        t[:] = t[:r.choice([2, 3, 4])]
    elif k == 'name':
        t[0] = r.choice(['lower', 'String', 'A' * 70, '9x', 'Ok', 'Has space'])
    elif k == 'regex':
        s.setdefault('info', {'package': 'http://example.com/x'})['config'] = {r.choice(['$TypeName', '$FieldName', '$NSID']): r.choice(['^[a-z]$', '^[A-Za-z][-A-Za-z0-9_$]*$', '(', '^.{1,3}$'])}
    elif len(t) > 4 and t[4]:
        f = r.choice(t[4])
        if k == 'fid':
            f[0] = r.choice([0, 1, 2, 99])
        elif k == 'fname':
            f[1] = r.choice(['alpha', 'Upper', '', 'a b', t[4][0][1]])
        elif k == 'ref' and len(f) > 3:
            f[2] = r.choice(['NoSuch', 'x:Far', 'Record', 'Map', t[0]])
        elif k == 'multi' and len(f) > 3:
            f[3] = f[3] + [r.choice(['[3', ']0', '[-1', ']1', '&9', '<', 'K', '!x'])]
    return s


def reconfig(schema, r):
    s = copy.deepcopy(schema)
    i = s.setdefault('info', {'package': 'http://example.com/x'})
    i['config'] = {**i.get('config', {}), r.choice(['$TypeName', '$FieldName', '$NSID', '$Sys', '$MaxElements', '$MaxString', '$MaxBinary']): None}
    for k in i['config']:
        if i['config'][k] is None:
            i['config'][k] = {'$TypeName': r.choice(['^[A-Z][-$A-Za-z0-9]{0,63}$', '^[A-Z][a-z]*$', '^X']), '$FieldName': r.choice(['^[a-z_]*$', '^[A-Z]']), '$NSID': '^[a-z]{1,8}$',
                              '$Sys': r.choice('.$_'), '$MaxElements': r.choice([2, 5, 300]), '$MaxString': r.choice([3, 20, 999]), '$MaxBinary': r.choice([2, 40])}[k]
    return s
