"""Safe code cannot reach undefined behaviour through the libraries."""
from .lib import *
from .raw import Raw
from ..check import clean

RAW = True
TECH = 'enumeration of unsafe operations in the MIR and abstract interpretation'
RULE = ('every operation of every body that safe Rust forbids (calls of unsafe functions, dereferences of raw pointers, fields of unions, mutable statics, '
        'transmutes, assembly, foreign items, implementations of unsafe traits) is enumerated from the MIR; one that is not written by a macro of the standard '
        'library or of a dependency must be discharged: every public function that reaches it is interpreted for arbitrary arguments and every memory '
        'obligation of the operation holds on every path')
LEVEL = 'proof'
ASSUMES = ['the unsafe code inside the standard library, its macros and derives and the dependencies is sound when used through their safe interface']

def operations(R):
    for b in sorted(R.bodies.values(), key=lambda b: b.path):
        for x in b.callees:
            if x.unsafe:
                yield b, clean(x.path), x.mac, x.span, x.block, x.key in R.bodies
        for o, sp, mac, n in b.ops:
            if not o.startswith('static ') and not o.startswith('address of'):
                yield b, o, mac, sp, n, False


def splits(f):
    """arguments to try one by one: the distance of a shift"""
    for i, t in enumerate(f.ltys[1:f.argc + 1]):
        if t == ('int', 'usize') or t and t[0] == 'int' and t[-1] == 'usize':
            return i
    return None


def bad_obligations(c, r, f, block):
    """memory obligations of the operation that do not hold"""
    bad = []
    n = 0
    for key, o in r.I.obls.items():
        if key[0] != f.path or key[1] != block:
            continue
        n += 1
        if o.bad and not all(b[2].facts.quant_clash() for b in o.bad):
            bad.append(why(o))
    return n, bad


def discharge(c, R, b, block):
    if c.P is None:
        c.load(spec=False)
    roots = R.roots(b.key)
    if not roots:
        return 0, ['no public function reaches it']
    total = 0
    for q in roots:
        f = c.P.fns[q.key]
        i = splits(f)
        runs = [({}, None)]
        if i is not None and f.selfty is not None:
            runs = [({i: const(k)}, None) for k in range(160)] + [({}, i)]
        for args, big in runs:
            def setup(I, st, vals, big=big):
                if big is not None:
                    st.facts.add_le(const(160) - vals[big])
            r = c.run(f, args=args, setup=setup)
            if r is None:
                return total, ['the analysis cannot represent %s' % q.path]
            n, bad = bad_obligations(c, r, c.P.fns[b.key], block)
            total += n
            if bad:
                return total, bad
    return total, []


def sound(c):
    R = Raw()
    n = m = 0
    done = {}
    for b in R.bodies.values():
        c.functions.add(b.path)
    for b, op, mac, sp, block, ours in operations(R):
        n += 1
        if mac and mac not in ('bencode', 'common', 'dht', 'torrent_rs'):
            c.ok('library macro', True)
            continue
        m += 1
        if ours:
            # what the function does is listed itself, and analysed from its callers
            c.ok('unsafe:%s:%s' % (b.path, op), True)
            continue
        k = (b.key, block)
        if k not in done:
            done[k] = discharge(c, R, b, block)
        t, bad = done[k]
        c.ok('unsafe:%s:%s' % (b.path, op), t > 0 and not bad, b.path, sp,
             '%s in %s is not shown to be sound: %s' % (op, b.path, '; '.join(bad)[:300] or 'no rule for it'))
        c.sample('%s in %s: %d obligations' % (op, b.path, t))
    c.floor('bodies of the libraries', len(R.bodies), 300)
    c.callsites = n
    for i in R.impls:
        if i['unsafe'] and not i['derived']:
            t = i['T'][i['self']]
            c.ok('unsafe impl:%s' % clean(t.get('p', '?')), False, clean(t.get('p', '?')), None, 'unsafe implementation of %s' % clean(i['trait']))
    for s in R.statics:
        c.ok('static mut:%s' % clean(s['path']), not s['mut'], s['path'], s['span'], 'mutable static %s' % clean(s['path']))
    c.ok('foreign', not R.foreign, '', R.foreign[0] if R.foreign else None, 'the libraries declare foreign code')
    c.sample('%d operations, %d of them written here' % (n, m))


RULES = [sound]
