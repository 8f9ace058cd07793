"""Loads the MIR dumps of the workspace crates (and of the prelude of library summaries),
and answers structural questions: types, callees, CFG, natural loops, liveness."""
import json
import os
import re

ADTS = {}      # key -> info
ADT_BY_PATH = {}


def short(path):
    p = re.sub(r'::<[^>]*>', '', path)
    return p.rsplit('::', 1)[-1]


class SpecError(Exception):
    pass


def untyped(path):
    """a path without generic arguments and lifetimes"""
    # an inherent method written in another module than its type
    path = re.sub(r"(spec::)?[a-z_0-9:]*::<impl ((?:(?! for )[^<>]|<[^<>]*>)*)>::", r"\1\2::", path)
    if path.startswith('spec::spec::'):
        path = path[6:]
    p = re.sub(r"::<[^<>]*>(?=::|$)", '', path)
    p = re.sub(r"<'_>", '', p)
    return re.sub(r"'[a-z_]+(, | )?", '', p).replace('<>', '')


def permute(o, amap, fperm):
    """rewrite type keys and field numbers of mirror types to those of the real types"""
    def place(p):
        t = o.ltys[p[0]]
        var = 0
        for e in p[1]:
            k = e[0]
            if k == 'deref':
                t = t[2] if t and t[0] in ('ref', 'ptr') else t[2][0] if t and t[0] == 'adt' else None
            elif k == 'dc':
                var = e[1]
                continue
            elif k == 'f':
                if t and t[0] == 'adt' and t[1] in fperm and e[1] < len(fperm[t[1]][var][1]):
                    e[1] = fperm[t[1]][var][1][e[1]]
                t = e[2]
            elif t and t[0] in ('slice', 'array'):
                t = t[1]
            var = 0

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'agg' or ('a' in x and x.get('a') == 'adt' and 'ops' in x):
                rk = amap.get(x.get('key'))
                if rk:
                    x['key'] = rk
                    x['path'] = ADTS[rk]['path']
                    vp = fperm.get(rk)
                    if vp:
                        j, fp, n = vp[x['var']]
                        if n != len(x['ops']):
                            raise SpecError('%s has fields the specification does not know' % x['path'])
                        ops = list(x['ops'])
                        for i, q in enumerate(fp):
                            ops[q] = x['ops'][i]
                        x['ops'] = ops
            for k, v in x.items():
                if k in ('p', 'dst') and isinstance(v, list) and len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], list):
                    place(v)
                else:
                    walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(o.blocks)


class Fn:
    __slots__ = ('key', 'path', 'crate', 'kind', 'argc', 'ltys', 'lnames', 'blocks', 'gen', 'selfty', 'trait', 'targs', 'promoted',
                 'span', 'vis', 'derived', 'root', 'unsafe', '_an', 'name', 'impl')

    def __repr__(self):
        return 'Fn(%s)' % self.path


class Program:
    def __init__(self):
        self.fns = {}
        self.by_path = {}
        self.impls = {}      # (trait path short, method) -> [Fn]
        self.inherent = {}   # (adt key, method) -> Fn
        self.crates = {}
        self.prelude = {}
        self.prelude_adts = {}
        self.local_adts = {}
        self.adt_by_clean = {}
        self.fn_by_clean = {}
        self.specs = {}
        self.redirect = {}

    def load(self, path, prelude=False, spec=False):
        d = json.load(open(path))
        crate = d['crate']
        raw = d['types']
        conv = [None] * len(raw)
        amap, fperm = {}, {}
        if spec:
            # the mirror types of the specification stand for the types of the analysed crates
            for a in d['adts']:
                if not a['local']:
                    continue
                p = untyped(a['path'])
                p = p[6:] if p.startswith('spec::') else p
                if p.startswith('ext::'):
                    # stands for a type of a library
                    real = ADT_BY_PATH.get(p[5:])
                    if real is not None:
                        amap[a['key']] = real['key']
                    continue
                real = self.adt_by_clean.get(p)
                if real is None:
                    continue
                amap[a['key']] = real['key']
                names = [v['n'] for v in real['variants']]
                vp = {}
                for i, v in enumerate(a['variants']):
                    if a['kind'] == 'enum':
                        if v['n'] not in names:
                            raise SpecError('%s has no variant %s' % (p, v['n']))
                        j = names.index(v['n'])
                    else:
                        j = 0
                    rf = [f[0] for f in real['variants'][j]['f']]
                    fp = []
                    for f in v['f']:
                        if f['n'] not in rf and len(rf) == len(v['f']) == 1:
                            fp.append(0)
                            continue
                        if f['n'] not in rf:
                            raise SpecError('%s has no field %s' % (p, f['n']))
                        fp.append(rf.index(f['n']))
                    vp[i] = (j, fp, len(rf))
                if any(i != j for i, (j, fp, n) in vp.items()):
                    raise SpecError('%s has its variants in another order than the specification' % p)
                if any(i != j or fp != list(range(n)) for i, (j, fp, n) in vp.items()) or len(vp) != len(names):
                    fperm[real['key']] = vp

        def ty(i):
            if isinstance(i, dict):
                return ('const', i['c'])
            if conv[i] is not None:
                return conv[i]
            t = raw[i]
            k = t['k']
            if k in ('bool', 'char', 'str', 'never'):
                r = (k,)
            elif k == 'int':
                r = ('int', t['s'], t['b'], t['n'])
            elif k == 'float':
                r = ('float', t['n'])
            elif k == 'adt':
                r = ('adt', amap.get(t['key'], t['key']), tuple(ty(x) for x in t['a']))
            elif k in ('ref', 'ptr'):
                r = (k, t['m'], ty(t['t']))
            elif k == 'slice':
                r = ('slice', ty(t['t']))
            elif k == 'array':
                r = ('array', ty(t['t']), t['len'])
            elif k == 'tuple':
                r = ('tuple', tuple(ty(x) for x in t['a']))
            elif k == 'fndef':
                r = ('fndef', t['key'], tuple(ty(x) for x in t['a']), t['p'])
            elif k == 'closure':
                r = ('closure', t['key'])
            elif k == 'param':
                r = ('param', t['n'])
            else:
                r = (k, t.get('n'))
            conv[i] = r
            return r
        for a in d['adts']:
            if a['key'] in amap:
                continue
            if a['key'] in ADTS and not a['local']:
                info = ADTS[a['key']]
                if info['full']:
                    continue
            full = a['local'] or a['kind'] == 'enum'
            info = {'path': a['path'], 'key': a['key'], 'kind': a['kind'], 'gen': a['gen'], 'local': a['local'], 'full': full,
                    'span': a['span'],
                    'name': short(a['path']), 'crate': crate if a['local'] else None,
                    'variants': [{'n': v['n'], 'd': int(v['d']), 'f': [(f['n'], ty(f['t']) if full else ('other', f['t']), f['pub']) for f in v['f']]} for v in a['variants']]}
            ADTS[a['key']] = info
            ADT_BY_PATH[a['path']] = info
            if a['local']:
                self.local_adts[a['path']] = info
                if prelude:
                    self.prelude_adts[info['name']] = info
            if a['local'] and not spec and not prelude:
                self.adt_by_clean[untyped(a['path'])] = info
        for f in d['fns']:
            if spec:
                f['path'] = f['path'] if f['path'].startswith('spec::') else 'spec::' + f['path']
                if 'spec::ext::' in f['path']:
                    continue
            o = Fn()
            o.key, o.path, o.crate, o.kind, o.argc = f['key'], f['path'], crate, f['kind'], f['argc']
            o.ltys = [ty(l['t']) for l in f['locals']]
            o.lnames = [l.get('n') for l in f['locals']]
            o.blocks = f['blocks']
            for b in f['blocks']:
                conv_block(b, ty)
            o.gen = f['gen']
            o.selfty = ty(f['selfty']) if f['selfty'] is not None else None
            o.trait = f['trait']['p'] if f['trait'] else None
            o.targs = tuple(ty(x) for x in f['trait']['a']) if f['trait'] else ()
            o.span, o.vis, o.derived, o.root, o.unsafe, o.impl = f['span'], f['vis'], f['derived'], f['root'], f['unsafe'], f['impl']
            o.name = short(f['path'])
            o._an = None
            o.promoted = []
            for p in f['promoted']:
                q = Fn()
                q.key, q.path, q.crate, q.kind, q.argc = f['key'] + '#p', f['path'] + '#promoted', crate, 'promoted', 0
                q.ltys = [ty(l['t']) for l in p['locals']]
                q.lnames = [None] * len(q.ltys)
                q.blocks = p['blocks']
                for b in p['blocks']:
                    conv_block(b, ty)
                q.gen, q.promoted, q._an, q.span, q.root = f['gen'], [], None, f['span'], f['root']
                q.selfty = q.trait = None
                q.targs = ()
                q.name = 'promoted'
                o.promoted.append(q)
            self.fns[o.key] = o
            self.by_path.setdefault(o.path, o)
            if spec:
                for q in [o] + o.promoted:
                    permute(q, amap, fperm)
                self.specs[o.path] = o
                q = self.fn_by_clean.get(untyped(o.path)[6:])
                if q is not None:
                    self.redirect[o.key] = q
                continue
            if not prelude:
                self.fn_by_clean.setdefault(untyped(o.path), o)
            if prelude and o.kind in ('fn', 'method'):
                self.prelude[o.name if o.kind == 'fn' else o.path] = o
            if o.kind == 'method':
                if o.trait:
                    self.impls.setdefault((short(o.trait), o.name), []).append(o)
                elif o.selfty and o.selfty[0] == 'adt':
                    self.inherent[(o.selfty[1], o.name)] = o
        if not prelude:
            self.crates[crate] = [f['key'] for f in d['fns']]
        return d


def conv_block(b, ty):
    for s in b['s']:
        if s['k'] == 'assign':
            conv_place(s['p'], ty)
            conv_rv(s['r'], ty)
        elif 'p' in s:
            conv_place(s['p'], ty)
    t = b['t']
    k = t['k']
    if k == 'switch':
        conv_op(t['d'], ty)
        t['t'] = ty(t['t'])
    elif k == 'call':
        for a in t['args']:
            conv_op(a, ty)
        conv_place(t['dst'], ty)
        f = t['f']
        if 'dyn' in f:
            conv_op(f['dyn'], ty)
        else:
            f['a'] = tuple(ty(x) for x in f['a'])
            f['self'] = ty(f['self']) if f['self'] is not None else None
            if f['res']:
                f['res']['a'] = tuple(ty(x) for x in f['res']['a'])
            f['cn'] = canon(f)
    elif k == 'assert':
        conv_op(t['c'], ty)
        for o in t['ops']:
            conv_op(o, ty)
    elif k == 'drop':
        conv_place(t['p'], ty)


def conv_place(p, ty):
    for e in p[1]:
        if e[0] == 'f' and not isinstance(e[2], tuple):
            e[2] = ty(e[2])


def conv_op(o, ty):
    if 'p' in o:
        conv_place(o['p'], ty)
    elif 't' in o:
        o['t'] = ty(o['t'])


def conv_rv(r, ty):
    for k in ('o', 'a', 'b'):
        if isinstance(r.get(k), dict):
            conv_op(r[k], ty)
    if 'ops' in r:
        for o in r['ops']:
            conv_op(o, ty)
    if isinstance(r.get('p'), list):
        conv_place(r['p'], ty)
    for k in ('t', 's'):
        if k in r and isinstance(r[k], int) and not isinstance(r[k], bool):
            r[k] = ty(r[k])
    if 'args' in r:
        r['args'] = tuple(ty(x) for x in r['args'])


GEN_RE = re.compile(r'::<(?!impl )[^<>]*(?:<[^<>]*>[^<>]*)*>')


def canon(f):
    """canonical callee name: Type::method, Trait::method or module::function"""
    p = f['p']
    name = f['name']
    if f['trait']:
        return short(f['trait']) + '::' + name
    m = re.search(r"<impl ([^<>]*(?:<[^<>]*>)?[^<>]*)>::", p)
    if m:
        t = m.group(1)
        t = re.sub(r'^.*::', '', re.sub(r'<.*', '', t)) if not t.startswith('[') else t
        if t.startswith('['):
            t = '[T]' if ';' not in t else '[T;N]'
        return t + '::' + name
    q = GEN_RE.sub('', p)
    q = re.sub(r"::<'[^>]*>", '', q)
    parts = q.split('::')
    return '::'.join(parts[-2:])


# ------------------------------------------------------------------ CFG analyses
class Analysis:
    pass


def succs(b):
    t = b['t']
    k = t['k']
    if k == 'goto':
        return [t['to']]
    if k == 'switch':
        return [x[1] for x in t['v']] + [t['else']]
    if k in ('call', 'assert', 'drop'):
        return [t['to']] if t['to'] is not None else []
    return []


def analyse(fn):
    if fn._an:
        return fn._an
    a = Analysis()
    n = len(fn.blocks)
    a.succ = [succs(b) for b in fn.blocks]
    # reverse postorder from 0
    seen = set()
    order = []
    stack = [(0, iter(a.succ[0]))] if n else []
    seen.add(0)
    while stack:
        v, it = stack[-1]
        for w in it:
            if w not in seen:
                seen.add(w)
                stack.append((w, iter(a.succ[w])))
                break
        else:
            order.append(v)
            stack.pop()
    order.reverse()
    a.rpo = {b: i for i, b in enumerate(order)}
    a.order = order
    pred = {b: [] for b in order}
    for b in order:
        for s in a.succ[b]:
            pred[s].append(b)
    a.pred = pred
    # dominators
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while a.rpo[x] > a.rpo[y]:
                                x = idom[x]
                            while a.rpo[y] > a.rpo[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True
    a.idom = idom

    def dom(x, y):
        while True:
            if x == y:
                return True
            if y == 0:
                return False
            y = idom[y]
    # natural loops
    loops = {}
    for b in order:
        for s in a.succ[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(pred[x])
    a.loops = loops
    # a second topological order for region walking: RPO is fine except that blocks leaving a loop
    # must come after the loop; weight blocks by (outer-first) - RPO of a DFS does not guarantee it,
    # so recompute a priority where loop exits come after loop bodies.
    a.prio = topo(order, a.succ, loops)
    # liveness of whole locals
    use = {}
    deff = {}
    for b in order:
        u, d = set(), set()
        for s in fn.blocks[b]['s']:
            stmt_usedef(s, u, d)
        term_usedef(fn.blocks[b]['t'], u, d)
        use[b], deff[b] = u, d
    live = {b: set() for b in order}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            out = set()
            for s in a.succ[b]:
                out |= live[s]
            new = use[b] | (out - deff[b])
            if new != live[b]:
                live[b] = new
                ch = True
    a.live = live
    # locals whose address is taken are kept alive
    ad = set()
    for b in order:
        for s in fn.blocks[b]['s']:
            if s['k'] == 'assign' and s['r']['k'] in ('ref', 'rawptr', 'reborrow'):
                p = s['r']['p']
                if not any(e[0] == 'deref' for e in p[1]):
                    ad.add(p[0])
    a.addr = ad
    fn._an = a
    return a


def topo(order, succ, loops):
    """priority numbers such that, ignoring back edges, preds come first, and blocks outside a
    loop reached from it come after the whole loop"""
    inloop = {}
    for h, body in loops.items():
        for b in body:
            inloop.setdefault(b, set()).add(h)
    oset = set(order)
    indeg = {b: 0 for b in order}
    for b in order:
        for s in succ[b]:
            if s in loops and b in loops[s]:
                continue
            indeg[s] += 1
    prio = {}
    ready = [0] if order else []
    cur = []
    rp = {b: i for i, b in enumerate(order)}
    n = 0
    while ready:
        # prefer blocks inside the most recently entered loops
        ready.sort(key=lambda b: (-len(inloop.get(b, ())), rp[b]))
        b = ready.pop(0)
        prio[b] = n
        n += 1
        for s in succ[b]:
            if s in loops and b in loops[s]:
                continue
            indeg[s] -= 1
            if indeg[s] == 0:
                ready.append(s)
    return prio


def place_use(p, u, d):
    if p[0] not in d:
        u.add(p[0])
    for e in p[1]:
        if e[0] == 'idx' and e[1] not in d:
            u.add(e[1])


def op_use(o, u, d):
    if 'p' in o:
        place_use(o['p'], u, d)


def stmt_usedef(s, u, d):
    if s['k'] == 'assign':
        r = s['r']
        for k in ('o', 'a', 'b'):
            if isinstance(r.get(k), dict):
                op_use(r[k], u, d)
        for o in r.get('ops', ()):
            op_use(o, u, d)
        if isinstance(r.get('p'), list):
            place_use(r['p'], u, d)
        p = s['p']
        if not p[1]:
            if p[0] not in u:
                d.add(p[0])
        else:
            place_use(p, u, d)
    elif 'p' in s:
        place_use(s['p'], u, d)


def term_usedef(t, u, d):
    k = t['k']
    if k == 'switch':
        op_use(t['d'], u, d)
    elif k == 'call':
        for x in t['args']:
            op_use(x, u, d)
        if 'dyn' in t['f']:
            op_use(t['f']['dyn'], u, d)
        p = t['dst']
        if not p[1]:
            if p[0] not in u:
                d.add(p[0])
        else:
            place_use(p, u, d)
    elif k == 'assert':
        op_use(t['c'], u, d)
        for x in t['ops']:
            op_use(x, u, d)
    elif k == 'return':
        u.add(0) if 0 not in d else None
    elif k == 'drop':
        pass


def subst(t, env):
    if not env:
        return t
    k = t[0]
    if k == 'param':
        return env.get(t[1], t)
    if k == 'adt':
        return ('adt', t[1], tuple(subst(x, env) for x in t[2])) if t[2] else t
    if k in ('ref', 'ptr'):
        return (k, t[1], subst(t[2], env))
    if k == 'slice':
        return ('slice', subst(t[1], env))
    if k == 'array':
        return ('array', subst(t[1], env), t[2])
    if k == 'tuple':
        return ('tuple', tuple(subst(x, env) for x in t[1]))
    if k == 'fndef':
        return ('fndef', t[1], tuple(subst(x, env) for x in t[2]), t[3])
    return t


def tname(t):
    """readable/canonical name of a type's head"""
    if t is None:
        return '?'
    k = t[0]
    if k == 'adt':
        return ADTS[t[1]]['name']
    if k == 'int':
        return t[3]
    if k == 'slice':
        return '[T]'
    if k == 'array':
        return '[T;N]'
    return k


def tshow(t):
    if t is None:
        return '?'
    k = t[0]
    if k == 'adt':
        return ADTS[t[1]]['name'] + ('<' + ','.join(tshow(x) for x in t[2]) + '>' if t[2] else '')
    if k in ('ref', 'ptr'):
        return ('&' if k == 'ref' else '*') + ('mut ' if t[1] else '') + tshow(t[2])
    if k == 'slice':
        return '[%s]' % tshow(t[1])
    if k == 'array':
        return '[%s;%s]' % (tshow(t[1]), t[2])
    if k == 'tuple':
        return '(%s)' % ','.join(tshow(x) for x in t[1])
    if k == 'int':
        return t[3]
    if k == 'param':
        return t[1]
    return k
