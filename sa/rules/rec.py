"""Recursion whose depth follows the nesting of a value."""
from .. import mir


def strings(x, acc):
    if isinstance(x, str):
        acc.add(x)
    elif isinstance(x, dict):
        for v in x.values():
            strings(v, acc)
    elif isinstance(x, (list, tuple)):
        for v in x:
            strings(v, acc)
    return acc


def calls(P, f):
    """functions of the workspace that the body of f mentions"""
    return [P.fns[k] for k in strings(f.blocks, set()) if k in P.fns and P.fns[k].crate not in ('prelude', 'spec')]


def cycles(P, roots):
    """functions reachable from the roots that can reach themselves"""
    succ, todo = {}, [f for f in roots]
    while todo:
        f = todo.pop()
        if f.key in succ:
            continue
        succ[f.key] = [g.key for g in calls(P, f)]
        todo += [P.fns[k] for k in succ[f.key]]
    bad = []
    for k in succ:
        seen, todo = set(), list(succ[k])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += succ.get(x, ())
        if k in seen:
            bad.append(P.fns[k])
    return bad, len(succ)


def owned(ty, acc):
    """the types of the workspace a value of type ty owns (and drops)"""
    if not isinstance(ty, (list, tuple)) or not ty:
        return acc
    if ty[0] in ('ref', 'ptr', 'fndef'):
        return acc
    if ty[0] == 'adt':
        acc.add(ty[1])
        for a in ty[2] if len(ty) > 2 else ():
            owned(a, acc)
        return acc
    for x in ty[1:]:
        if isinstance(x, (list, tuple)):
            owned(x, acc)
            for y in x:
                if isinstance(y, (list, tuple)):
                    owned(y, acc)
    return acc


def drops_itself(key):
    seen, todo = set(), [key]
    while todo:
        k = todo.pop()
        for v in mir.ADTS[k]['variants'] if k in mir.ADTS and mir.ADTS[k]['local'] else ():
            for fd in v['f']:
                for t in owned(fd[1], set()):
                    if t == key:
                        return True
                    if t not in seen:
                        seen.add(t)
                        todo.append(t)
    return False


def has_drop(P, key):
    """the type drops its parts itself"""
    return any(f.selfty and f.selfty[0] == 'adt' and f.selfty[1] == key for f in P.impls.get(('Drop', 'drop'), ()))
