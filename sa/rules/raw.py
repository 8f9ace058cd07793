"""The dumped program as it is: bodies, callees, statics and implementations of the four libraries."""
import json
import os
import re

from ..check import DUMP, CRATES, clean


class Callee:
    __slots__ = ('path', 'crate', 'key', 'resolved', 'trait', 'unsafe', 'mac', 'span', 'args', 'value', 'name', 'block')


class Body:
    def __init__(self, f, crate):
        self.f, self.crate = f, crate
        self.key, self.path, self.span = f['key'], clean(f['path']), f['span']
        self.raw = f['path']
        self.callees = []
        self.ops = f['ops']
        self.fnkeys = set()


def walk(x, visit):
    if isinstance(x, dict):
        visit(x)
        for v in x.values():
            walk(v, visit)
    elif isinstance(x, list):
        for v in x:
            walk(v, visit)


def adts(T, i, acc, seen=None):
    """keys of the types that occur in type number i"""
    seen = set() if seen is None else seen
    if i in seen:
        return acc
    seen.add(i)
    t = T[i]
    if t['k'] == 'adt':
        acc.add(t['key'])

    def sub(x):
        if isinstance(x, bool):
            return
        if isinstance(x, int) and 0 <= x < len(T):
            adts(T, x, acc, seen)
        elif isinstance(x, list):
            for y in x:
                sub(y)
    for k, v in t.items():
        if k in ('a', 't', 'e', 'ts', 'u', 's', 'sig', 'up', 'upv'):
            sub(v)
    return acc


class Raw:
    def __init__(self):
        self.bodies, self.adts, self.impls, self.statics, self.foreign = {}, [], [], [], []
        for c in CRATES:
            d = json.load(open(os.path.join(DUMP, c + '.json')))
            T = d['types']
            for f in d['fns']:
                b = Body(f, c)
                b.types = T
                self.bodies[b.key] = b
                self.scan(b, T)
            for a in d['local_adts']:
                t = T[a['t']]
                self.adts.append(dict(a, key=t['key'], crate=c))
            self.impls += [dict(i, crate=c, selfkey=T[i['self']].get('key'), T=T) for i in d['impls']]
            self.statics += [dict(s, crate=c, ty=T[s['t']], T=T) for s in d['statics']]
            self.foreign += d['foreign']
        self.methods = {}     # type -> bodies of its implementations of traits
        self.bytrait = {}     # (trait, method) -> bodies
        for b in self.bodies.values():
            if b.f['trait']:
                s = b.types[b.f['selfty']] if b.f['selfty'] is not None else {}
                while s.get('k') == 'ref':
                    s = b.types[s['t']]
                if s.get('key'):
                    self.methods.setdefault(s['key'], []).append(b)
                self.bytrait.setdefault((b.f['trait']['p'], clean(b.raw).rsplit('::', 1)[-1]), []).append(b)

    def scan(self, b, T):
        for bl in [b.f['blocks']] + [p['blocks'] for p in b.f['promoted']]:
            for n, bb in enumerate(bl):
                t = bb['t']
                if t['k'] == 'call':
                    b.callees.append(self.callee(t, T))
                    b.callees[-1].block = n

                def visit(x, t=t, n=n):
                    if x.get('k') == 'const' and 't' in x and T[x['t']]['k'] == 'fndef':
                        ty = T[x['t']]
                        c = Callee()
                        c.path, c.crate, c.key, c.resolved, c.trait = ty['p'], ty['crate'], ty['key'], True, None
                        c.unsafe, c.mac, c.span, c.args, c.value = ty['unsafe'], t['mac'], t['sp'], [], True
                        c.block = n
                        c.name = ty['p'].rsplit('::', 1)[-1]
                        b.callees.append(c)
                    if isinstance(x.get('key'), str):
                        b.fnkeys.add(x['key'])
                walk(bb, visit)

    def callee(self, t, T):
        f = t['f']
        c = Callee()
        c.mac, c.span, c.value = t['mac'], t['sp'], False
        if 'p' not in f:
            c.path, c.crate, c.key, c.resolved, c.trait, c.unsafe, c.args, c.name = None, None, None, False, None, False, [], None
            return c
        r = f['res']
        c.resolved = r is not None and r['kind'] != 'virtual'
        s = r if c.resolved else f
        c.path, c.crate, c.key, c.trait, c.unsafe = s['p'], s['crate'], s['key'], f['trait'], f['unsafe']
        c.name = f['name']
        acc = set()
        for a in f['a'] + ([f['self']] if f['self'] is not None else []):
            if isinstance(a, int):
                adts(T, a, acc)
        c.args = acc
        return c

    def succ(self, b):
        """bodies the code of b can run"""
        r = {k for k in b.fnkeys if k in self.bodies}
        for c in b.callees:
            if c.key in self.bodies:
                r.add(c.key)
                continue
            if c.trait and not c.resolved:
                r |= {x.key for x in self.bytrait.get((c.trait, c.name), ())}
            for a in c.args:
                r |= {x.key for x in self.methods.get(a, ())}
        return r

    def reach(self, b):
        seen, todo = set(), [b.key]
        while todo:
            k = todo.pop()
            if k not in seen:
                seen.add(k)
                todo += self.succ(self.bodies[k])
        return seen

    def roots(self, key):
        """functions others can call that reach this one through private functions only"""
        pred = {}
        for b in self.bodies.values():
            for k in self.succ(b):
                pred.setdefault(k, set()).add(b.key)
        seen, todo, out = set(), [key], []
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            b = self.bodies[k]
            if b.f['kind'] != 'closure' and not b.f['unsafe'] and (b.f['vis'] == 'pub' or b.f['trait']):
                out.append(b)
            else:
                todo += pred.get(k, ())
        return out


def words(path):
    return re.findall(r'\w+', path)
