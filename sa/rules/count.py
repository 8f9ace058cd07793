"""A counting argument.  One loop counts the elements of a list that satisfy a condition; a later
loop walks over the same list and takes one off the count at each element that satisfies the same
condition.  Where the walk has reached the end of the list, nothing is left of the count."""
from ..terms import *
from ..follow import trace_loops


def walk(I, L, step):
    """(counter, position, list length) of a loop that moves one position per iteration"""
    ints = [t for t in L.phis if L.kind[t] == 'int']
    out = []
    for i in ints:
        i0, ib = L.phis[i]
        if not ib or i0 is not ZERO or any(v is not atom(i) + 1 for v in ib):
            continue
        for k in ints:
            k0, kb = L.phis[k]
            if k is not i and all(v is atom(k) or v is atom(k) + step for v in kb):
                out.append((k, k0, kb, i))
    return out


def conds(I, L, b, i, j):
    """what an iteration found out about the element at its position, restated for position j"""
    F, H = b.facts, L.head.facts
    m = {i: atom(j)}

    def lasting(x):
        return all(t is i or t.op != 'fresh' and t not in I.phis for t in within(x))
    cs = ([('b', t, v) for t, v in F.b.items() if t not in H.b] + [('le', l) for l in F.le if l not in H.le]
            + [('eq', l) for l in F.eq if l not in H.eq] + [('disc', t, v) for t, v in F.disc.items() if t not in H.disc and isinstance(v, int)])
    return [(c[0], deep(c[1], m)) + c[2:] for c in cs if lasting(c[1])]


def within(x):
    if x.__class__ is Lin:
        for t, _ in x.t:
            yield from within(t)
    elif x.__class__ is Term:
        yield x
        for a in x.args:
            yield from within(a)
    elif x.__class__ is tuple:
        for a in x:
            yield from within(a)


def clash(F, cs):
    """F and cs exclude each other"""
    G = F.copy()
    G._cache = {}
    for c in cs:
        if c[0] == 'b':
            G.assume(c[1] if c[2] else bnot(c[1]))
        elif c[0] == 'le':
            G.add_le(c[1])
        elif c[0] == 'eq':
            G.add_eq(c[1])
        else:
            G.set_disc(c[1], c[2])
        if G.dead:
            return True
    return G.dead


def none_left(I, st):
    """numbers that are 0 here although st.facts does not know it"""
    Ls = trace_loops(st.trace)
    r = []
    for n, L2 in enumerate(Ls):
        for c, c0, cb, j in walk(I, L2, -1):
            for L1 in Ls[:n]:
                for k, k0, kb, i in walk(I, L1, 1):
                    if k0 is not ZERO or c0 is not atom(k):
                        continue
                    ok = all(clash(b2.facts, conds(I, L1, b1, i, j))
                             for v2, b2 in zip(cb, L2.backs) for v1, b1 in zip(kb, L1.backs) if (v1 is atom(k)) != (v2 is atom(c)))
                    # where the counting ended is where the walk is now
                    if ok and st.facts.decide(eq(atom(i), atom(j))) is True:
                        r.append(atom(c))
    return r


def at_the_end(I, o):
    """in every state in which the obligation failed, something is left of the count: none of them exists"""
    return all(any(b[2].facts.prove_le(ONE - l) for l in none_left(I, b[2])) for b in o.bad)
