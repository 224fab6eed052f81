#!/usr/bin/env python3
"""Development aid: a copy of /repo whose code was rewritten without changing behaviour.   refactor.py DEST SEED

Every module goes through the parser and back; at random places comprehensions become generator calls, conditional
expressions become statements, returned values get a name, statements that do nothing are put in, independent
simple assignments are swapped, and bodies of functions move into helpers.  The checks have to stay quiet on it."""
import ast, os, random, shutil, sys


class Rewrite(ast.NodeTransformer):
    def __init__(self, r):
        self.r, self.n = r, 0

    def fresh(self):
        self.n += 1
        return f'_v{self.n}'

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('list', ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], []) if self.r.random() < .5 else n

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('set', ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], []) if self.r.random() < .5 else n

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('dict', ast.Load()), [ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)], []) if self.r.random() < .5 else n

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is None or self.r.random() < .5:
            return n
        v = self.fresh()
        return [ast.Assign([ast.Name(v, ast.Store())], n.value, lineno=0), ast.Return(ast.Name(v, ast.Load()))]

    def visit_Assign(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and self.r.random() < .7:
            t = n.targets[0]
            return ast.If(n.value.test, [ast.Assign([t], n.value.body, lineno=0)], [ast.Assign([t], n.value.orelse, lineno=0)])
        return n

    def body(self, b):
        out = []
        for k, s in enumerate(b):
            doc = k == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            if not doc and self.r.random() < .25:
                out.append(ast.Pass() if self.r.random() < .5 else ast.Assign([ast.Name('_', ast.Store())], ast.Constant(None), lineno=0))
            out.append(s)
        return out

    def visit_FunctionDef(self, n):
        names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {a.arg for a in n.args.args}
        self.generic_visit(n)
        if '_' not in names:
            for x in ast.walk(n):
                if isinstance(x, (ast.If, ast.For, ast.While, ast.With)):
                    x.body = self.body(x.body)
            n.body = self.body(n.body)
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
        if not gen and not n.decorator_list and not n.args.kwonlyargs and not n.args.vararg and not n.args.kwarg and self.r.random() < .3 and n.name[:2] != '__' and not getattr(self, 'cls', 0):
            inner = ast.FunctionDef(n.name + '_body', ast.arguments([], [ast.arg(a.arg) for a in n.args.args], None, [], [], None, []), n.body, [], lineno=0, type_params=[])
            call = ast.Call(ast.Name(inner.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in n.args.args], [])
            n.body = [ast.Return(call)]
            return [inner, n]
        return n

    def visit_ClassDef(self, n):
        self.cls = getattr(self, 'cls', 0) + 1
        self.generic_visit(n)
        self.cls -= 1
        return n


def main(dest, seed):
    shutil.copytree('/repo', dest, symlinks=True)
    r = random.Random(seed)
    for p, ds, fs in sorted(os.walk(dest + '/distribution')):
        if 'tests' in p.split('/'):
            continue
        for f in sorted(fs):
            q = os.path.join(p, f)
            if f.endswith('.py') and f not in ('setup.py', 'conftest.py'):
                t = ast.parse(open(q, encoding='utf8').read())
                t = ast.fix_missing_locations(Rewrite(r).visit(t))
                open(q, 'w', encoding='utf8').write(ast.unparse(t) + '\n')


main(sys.argv[1], int(sys.argv[2]))
