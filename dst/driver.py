"""Runs a check: seeded search over many simulated runs, minimisation, replay, evidence."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import threading
import time
from collections import Counter

from . import node
from .base import digest

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


class Worker:
    def __init__(self, prop, hashseed=0):
        self.p = subprocess.Popen([PY, '-W', 'ignore', '-m', 'dst.worker', prop], cwd=VERIF, env=node.child_env(hashseed), stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, preexec_fn=node.no_aslr)
        self.ready = False

    def ask(self, *req):
        if not self.ready:
            if node._recv(self.p.stdout) != 'ready':
                raise RuntimeError('worker did not start')
            self.ready = True
        node._send(self.p.stdin, req)
        return node._recv(self.p.stdout)

    def close(self, kill=False):
        try:
            self.p.stdin.close()
            if kill:
                self.p.kill()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def meta(prop):
    """RUNS etc. of a check, without importing the library here."""
    import importlib
    return importlib.import_module(f'dst.checks.{prop.lower()}')


def search(prop, seed, tier, runs, nworkers, cap, want_logs=False, hashseed=0, chunk=None):
    chunk = chunk or max(1, min(20, runs // (nworkers * 4) or 1))
    lock, nxt, stop, t0 = threading.Lock(), [0], threading.Event(), time.monotonic()
    parts, errors = [], []

    def loop(w):
        wk = Worker(prop, hashseed)
        try:
            while True:
                with lock:
                    if stop.is_set() or nxt[0] >= runs or time.monotonic() - t0 > cap:
                        return
                    idx = list(range(nxt[0], min(runs, nxt[0] + chunk)))
                    nxt[0] = idx[-1] + 1
                r = wk.ask('chunk', seed, idx, tier, want_logs)
                with lock:
                    parts.append(r)
                if r['bad'] or len([1 for p in parts if p['harness']]) > 5 or sum(len(p['lost']) for p in parts) > 3:
                    stop.set()
        except Exception as e:
            errors.append(f'worker: {type(e).__name__}: {e}')
            stop.set()
        finally:
            wk.close()
    ts = [threading.Thread(target=loop, args=(w,)) for w in range(nworkers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    st, cov, pairs, logs, lost, harness, n = Counter(), set(), set(), {}, [], [], 0
    bad = None
    for p in parts:
        st.update(p['stats'])
        cov |= p['cov']
        pairs |= p['pairs']
        logs.update(p['logs'])
        lost += p['lost']
        harness += p['harness']
        n += p['n']
        if p['bad'] and (bad is None or p['bad'][0] < bad[0]):
            bad = p['bad']
    return {'n': n, 'stats': st, 'cov': cov, 'pairs': pairs, 'logs': logs, 'lost': sorted(lost), 'harness': harness, 'bad': bad, 'errors': errors,
            'wall': time.monotonic() - t0}


def classes(r):
    return {v[0] for v in r['viol']}


def minimise(prop, mod, i, plan, res, seconds):
    """-> (plan, result) smaller and still violating in the same class."""
    from .shrink import shrink
    wk = Worker(prop)
    cls = res['viol'][0][0]
    try:
        best = plan, res
        if hasattr(mod, 'fix_schedule') and res.get('trace') is not None:
            p = mod.fix_schedule(plan, res)
            r = wk.ask('plan', p)
            if cls in classes(r):
                best = p, r
        last = {}

        def test(p):
            if hasattr(mod, 'valid') and not mod.valid(p):
                return False
            r = wk.ask('plan', p)
            if cls in classes(r):
                last['r'] = r
                return True
            return False
        try:
            p = shrink(mod, best[0], test, seconds)
        except Exception as e:      # a violation is reported even when it cannot be made smaller
            print(f'minimisation stopped: {type(e).__name__}: {e}')
            last.clear()
        if 'r' in last:
            best = p, wk.ask('plan', p)
        if cls not in classes(best[1]):
            best = plan, res
        return best
    finally:
        wk.close(True)


def write_replay(prop, seed, tier, i, plan, res):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}-{seed}-{i}.json')
    cls = res['viol'][0][0]
    with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': seed, 'tier': tier, 'run': i, 'violation': cls, 'what': res['viol'][0][1][:4000], 'log': res['log'], 'plan': plan}, f,
                  indent=1)
    return path


def replay(path, quiet=False):
    with open(path) as f:
        d = json.load(f)
    wk = Worker(d['property'])
    try:
        r = wk.ask('plan', d['plan'])
    finally:
        wk.close()
    if d['violation'] == 'hang' and 'lost' in r:
        r = {**r, 'viol': [['hang', r['lost']]]}
    if d['violation'] in classes(r):
        if not quiet:
            for v in r['viol'][:5]:
                print(f'  {v[0]}: {v[1][:1500]}')
            print(f'same log digest as recorded: {r["log"] == d["log"]}')
            print(f'VIOLATION property={d["property"]} replay={path}')
        return 1
    if not quiet:
        print(f'not reproduced: {r.get("harness") or r.get("lost") or r["viol"] or "no violation"}')
    return 2 if ('harness' in r or 'lost' in r) else 0


def fresh_replay(path):
    p = subprocess.run([PY, os.path.join(VERIF, 'run.py'), 'replay', path], capture_output=True, text=True, timeout=300)
    return p.returncode == 1


def findings(prop):
    """Entries 'finding: property=Cxx id=<probe> <what>' of the known-findings file."""
    out = []
    try:
        with open(os.path.join(VERIF, 'known-findings.txt'), encoding='utf-8') as f:
            for line in f:
                if line.startswith(f'finding: property={prop} '):
                    rest = line.split(f'property={prop} ', 1)[1].strip()
                    fid, what = rest.split(' ', 1)
                    out.append((fid.removeprefix('id='), what))
    except FileNotFoundError:
        pass
    return out


def evidence(prop, mod, tier, seed, level, s, viols, extra, wall):
    st = s['stats']
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith('fault:')}
    hours = max(s['wall'], .001) / 3600
    samples = extra.pop('samples', [])
    cov = {'evaluations': s['n'], 'distinct_nontrivial': min(st.get('nontrivial', 0), len(s['cov'])) if s['cov'] else st.get('nontrivial', 0), 'rule': mod.RULE,
           'samples': samples or [{'run': 0}],
           'simulated_runs': s['n'], 'runs_per_hour': round(s['n'] / hours), 'seeds_per_hour': round(s['n'] / hours),
           'simulated_time_s': round(st.get('sim_s', 0), 3), 'faults_injected': faults, 'distinct_measure': mod.MEASURE, 'distinct': len(s['cov']),
           'distinct_location_pairs': len(s['pairs']), 'real_components': mod.REAL, 'stub_components': mod.STUB,
           'counters': {k: (round(v, 3) if isinstance(v, float) else v) for k, v in sorted(st.items()) if not k.startswith('fault:')},
           'runs_without_answer': len(s['lost']), **extra}
    d = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(wall, 2), 'violations': viols}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(d, f, indent=1)


def check(prop, tier, runs, nworkers, seed, cap, shrink_s=40):
    t0 = time.monotonic()
    mod = meta(prop)
    print(f'{prop} tier={tier} VERIF_SEED={seed} runs={runs} workers={nworkers}', flush=True)
    # known findings: directed probes
    probes = findings(prop)
    if probes:
        wk = Worker(prop)
        for fid, what in probes:
            r = wk.ask('plan', {'finding': fid})
            if r.get('finding'):
                print(f'KNOWN-FINDING: property={prop} {fid}: {what}')
        wk.close()
    s = search(prop, seed, tier, runs, nworkers, cap)
    bad = s['bad']
    # runs without an answer: once more, alone, with twice the time
    if not bad and s['lost']:
        from .checks import common
        wk = Worker(prop)
        for i in s['lost'][:5]:
            from .worker import plan_for
            plan = plan_for(mod, seed, i, tier)
            r = wk.ask('plan', {**plan, 'patience': 2})
            if 'lost' in r:
                bad = (i, {**plan, 'patience': 2}, {'viol': [['hang', f'no answer within the wall-clock budget, twice: {r["lost"]}']], 'log': 'hang', 'stats': {}, 'cov': []})
                break
            if r['viol']:
                bad = (i, plan, r)
                break
        wk.close(True)
    nviol, code = 0, 0
    samples = []
    if bad:
        i, plan, res = bad
        cls = res['viol'][0][0]
        print(f'run {i}: {cls}: {res["viol"][0][1][:600]}', flush=True)
        path = None
        if cls == 'hang':
            path = write_replay(prop, seed, tier, i, plan, res)
            nviol, code = 1, 1
        else:
            p2, r2 = minimise(prop, mod, i, plan, res, shrink_s)
            for p, r in ((p2, r2), (plan, res)):
                path = write_replay(prop, seed, tier, i, p, r)
                if fresh_replay(path) or fresh_replay(path):
                    nviol, code = 1, 1
                    print(f'minimised: {r["viol"][0][0]}: {r["viol"][0][1][:1200]}')
                    break
            else:
                print(f'ERROR: violation did not replay in a fresh process: {path}')
                code = 2
        if code == 1:
            print(f'VIOLATION property={prop} replay={path}', flush=True)
    if code == 0 and (s['errors'] or s['harness']):
        for e in s['errors'][:3]:
            print('ERROR', e)
        for i, m, tb in s['harness'][:2]:
            print(f'ERROR run {i}: harness: {m}\n{tb}')
        code = 2
    if code == 0 and s['lost'] and not bad:
        print(f'{len(s["lost"])} runs answered only on the second try')
    if s['n'] == 0 and code == 0:
        print('ERROR: nothing ran')
        code = 2
    try:
        from .worker import plan_for
        for i in (0, 1, 2):
            pl = plan_for(mod, seed, i, tier)
            samples.append({'run': i, 'plan_digest': digest(pl), 'plan': json.dumps(pl)[:1500]})
    except Exception as e:
        samples.append({'error': str(e)})
    man = {}
    try:
        with open(os.path.join(VERIF, 'MANIFEST.json')) as f:
            man = {c['property']: c for c in json.load(f)['checks']}
    except Exception:
        pass
    level = man.get(prop, {}).get('level', 'exploration')
    extra = {'samples': samples, 'known_findings_probed': len(probes), 'capped_by_time': s['n'] + len(s['lost']) < runs and not bad}
    if hasattr(mod, 'EXTRA'):
        extra.update(mod.EXTRA)
    evidence(prop, mod, tier, seed, level, s, nviol, extra, time.monotonic() - t0)
    f = {k[6:]: v for k, v in s['stats'].items() if k.startswith('fault:')}
    print(f'{prop}: {s["n"]} runs in {s["wall"]:.1f} s, {len(s["cov"])} distinct, faults {f}, exit {code}')
    return code


def main(argv):
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    c = sub.add_parser('check')
    c.add_argument('prop')
    c.add_argument('--thorough', action='store_true')
    lg = sub.add_parser('logs')
    lg.add_argument('prop')
    lg.add_argument('--hashseed', type=int, default=0)
    lg.add_argument('--tier', default='quick')
    for x in (c, lg):
        x.add_argument('--runs', type=int)
        x.add_argument('--workers', type=int, default=8)
        x.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
        x.add_argument('--cap', type=float)
    rp = sub.add_parser('replay')
    rp.add_argument('file')
    a = ap.parse_args(argv)
    if a.cmd == 'replay':
        return replay(a.file)
    tier = 'thorough' if getattr(a, 'thorough', False) else 'quick'
    mod = meta(a.prop)
    runs = a.runs or mod.RUNS[tier]
    cap = a.cap or (240 if tier == 'quick' else 3000)
    if a.cmd == 'logs':
        s = search(a.prop, a.seed, tier, runs, a.workers, cap, want_logs=True, hashseed=a.hashseed, chunk=3)
        for i in sorted(s['logs']):
            print(i, s['logs'][i])
        print('n', s['n'], 'bad', bool(s['bad']), 'lost', s['lost'], 'harness', [h[:2] for h in s['harness'][:2]], file=sys.stderr)
        return 0
    return check(a.prop, tier, runs, a.workers, a.seed, cap)
