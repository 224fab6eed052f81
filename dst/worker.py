"""A worker: generates and runs plans of one check; the library itself only ever runs in forks of it."""
import importlib
import os
import sys
import traceback
from collections import Counter

from . import node
from .base import mkrng
from .checks.common import Lost


def load(prop):
    return importlib.import_module(f'dst.checks.{prop.lower()}')


def plan_for(mod, seed, i, tier):
    return mod.gen_plan(mkrng(seed, mod.PROP, i), i, tier)


def run_plan(mod, plan):
    """-> result dict, always with 'viol'."""
    try:
        return mod.run(plan)
    except Lost as e:
        return {'viol': [], 'lost': str(e)[:500], 'stats': {}, 'log': 'lost', 'cov': []}
    except Exception as e:
        return {'viol': [], 'harness': f'{type(e).__name__}: {e}', 'tb': traceback.format_exc()[-3000:], 'stats': {}, 'log': 'harness', 'cov': []}


def do_chunk(mod, seed, idx, tier, want_logs):
    st, cov, pairs, logs, bad, samples = Counter(), set(), set(), {}, None, []
    lost, harness, n, nontriv = [], [], 0, 0
    for i in idx:
        try:
            plan = plan_for(mod, seed, i, tier)
        except Exception as e:
            harness.append((i, f'gen: {type(e).__name__}: {e}', traceback.format_exc()[-3000:]))
            continue
        r = run_plan(mod, plan)
        if 'lost' in r:
            lost.append(i)
            if len(lost) > 1:       # no use in waiting for more of them
                break
            continue
        if 'harness' in r:
            harness.append((i, r['harness'], r['tb']))
            continue
        n += 1
        st.update(r['stats'])
        cov.update(r['cov'])
        pairs.update(r.get('pairs', ()))
        if want_logs:
            logs[i] = r['log']
        if r['viol']:
            bad = (i, plan, r)
            break
    return {'n': n, 'stats': dict(st), 'cov': cov, 'pairs': pairs, 'logs': logs, 'bad': bad, 'lost': lost, 'harness': harness}


def main():
    inp, out = os.fdopen(os.dup(0), 'rb'), os.fdopen(os.dup(1), 'wb')
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(2, 1)
    from . import seams
    seams.install()
    from .driver import meta
    mod = meta(sys.argv[1])
    seams.import_jadn(getattr(mod, 'POINTS', False))
    import jadn.codec, jadn.convert, jadn.transform, jadn.translate     # noqa
    if hasattr(mod, 'setup'):
        mod.setup()
    import gc
    gc.collect()
    gc.freeze()
    node._send(out, 'ready')
    while True:
        try:
            req = node._recv(inp)
        except EOFError:
            break
        if req[0] == 'chunk':
            node._send(out, do_chunk(mod, *req[1:]))
        else:
            node._send(out, run_plan(mod, req[1]))
    if hasattr(mod, 'teardown'):
        mod.teardown()


if __name__ == '__main__':
    main()
