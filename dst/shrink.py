"""Minimisation: delete list elements (schedule switches, calls, faults, threads) while the same violation class stays."""
import copy
import time


def at(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def ddmin(plan, path, test, t_end):
    n = 2
    try:
        lst = at(plan, path)
    except (IndexError, KeyError, TypeError):
        return plan, False
    if not isinstance(lst, list):
        return plan, False
    done = False
    while len(lst) and time.monotonic() < t_end:
        size = max(1, len(lst) // n)
        for k in range(0, len(lst), size):
            if time.monotonic() > t_end:
                break
            p = copy.deepcopy(plan)
            sub = lst[:k] + lst[k + size:]
            at(p, path)[:] = sub
            if test(p):
                plan, done = p, True
                lst = at(plan, path)
                n = max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n = min(len(lst), n * 2)
    return plan, done


def shrink(mod, plan, test, seconds=40):
    """test(plan) -> bool.  Returns the smallest plan found within the time limit."""
    t_end = time.monotonic() + seconds
    changed, rounds = True, 0
    while changed and rounds < 4 and time.monotonic() < t_end:
        changed, rounds = False, rounds + 1
        idx = 0
        while idx < len(paths := list(mod.lists(plan))):       # Paths move as the plan shrinks
            plan, c = ddmin(plan, paths[idx], test, t_end)
            changed |= c
            idx += 1
        if hasattr(mod, 'simpler'):
            again = True
            while again and time.monotonic() < t_end:
                again = False
                for p in mod.simpler(plan):
                    if time.monotonic() > t_end:
                        break
                    if test(p):
                        plan, again, changed = p, True, True
                        break
    return plan


def schema_simpler(schema, keep=()):
    """Smaller valid schemas: without a type, a field or the options."""
    from . import model

    def ok(s):
        try:
            return not model.schema_errors(s)
        except Exception:
            return False
    for i in range(len(schema['types']) - 1, -1, -1):
        if schema['types'][i][0] in keep:
            continue
        s = copy.deepcopy(schema)
        del s['types'][i]
        if ok(s):
            yield s
    if schema.get('info'):
        for k in list(schema['info']):
            s = copy.deepcopy(schema)
            del s['info'][k]
            if not s['info']:
                del s['info']
            if ok(s):
                yield s
    for i, t in enumerate(schema['types']):
        for j in range(len(t[4]) - 1, -1, -1):
            s = copy.deepcopy(schema)
            del s['types'][i][4][j]
            if t[1] in ('Array', 'Record'):
                for n, f in enumerate(s['types'][i][4]):
                    f[0] = n + 1
            if ok(s):
                yield s
