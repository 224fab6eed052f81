#!/usr/bin/env python3
"""Development aid: try planted bugs in scratch copies of /repo.   try_seeded.py [-j N] [--no-tests] [--runs N] ID...

For each: patch applies, tests pass, demo quiet without and loud with it, the property's check catches it."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def one(i, tests, extra):
    d = f'{V}/seeded/{i}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='seed')
    out = []
    try:
        sh(f'cp -a /repo {t}/repo')
        r = f'{t}/repo'
        dd = f'{t}/demo'
        shutil.copytree(d, dd)

        def demo():
            # the demo runs with cwd at the tree and imports from it
            p = sh(f'bash {dd}/demo.sh', cwd=r, env={**os.environ, 'PYTHONDONTWRITEBYTECODE': '1'}, timeout=300)
            return p.returncode, (p.stdout + p.stderr)[-300:]
        a = demo()
        if a[0]:
            out.append(f'DEMO FAILS UNPATCHED {a}')
        p = sh(f'git apply {d}/patch.diff', cwd=r)
        if p.returncode:
            return i, prop, 'PATCH DOES NOT APPLY ' + p.stderr[:200]
        b = demo()
        if not b[0]:
            out.append(f'DEMO QUIET WITH PATCH {b}')
        if tests:
            env = {**os.environ, 'PYTHONPATH': f'{r}/distribution/src'}
            p = sh(f'/opt/venv/bin/python -m pytest -q -x --no-header -p no:cacheprovider tests 2>&1 | tail -3', cwd=f'{r}/distribution', env=env)
            out.append('tests: ' + p.stdout.strip().splitlines()[-1] if p.stdout.strip() else 'tests: ?')
        p = sh(f'/opt/venv/bin/python {V}/run.py check {prop} {extra}', cwd=V, env={**os.environ, 'DST_REPO': r})
        res = 'CAUGHT' if p.returncode == 1 and f'VIOLATION property={prop}' in p.stdout else f'MISSED rc={p.returncode}'
        first = [l for l in p.stdout.splitlines() if l.startswith('run ') or 'ERROR' in l]
        out.append(res + ' ' + (first[0][:160] if first else p.stdout[-200:]))
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return i, prop, ' | '.join(out)


def main():
    a = sys.argv[1:]
    j, tests, extra, ids = 1, True, '', []
    while a:
        x = a.pop(0)
        if x == '-j':
            j = int(a.pop(0))
        elif x == '--no-tests':
            tests = False
        elif x == '--args':
            extra = a.pop(0)
        else:
            ids.append(x)
    ids = ids or sorted(os.listdir(f'{V}/seeded'))
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda i: one(i, tests, extra), ids):
            print(*r, flush=True)


main()
