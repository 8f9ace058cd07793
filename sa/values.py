"""Abstract values and the abstract store."""
from .terms import *
from .facts import Facts, set_nvariants
from . import mir

DTY = {}     # term of a symbolic reference -> type of its target


class V:
    __slots__ = ()

    def __ne__(self, o):
        return not self == o


class Agg(V):
    """struct / enum variant / tuple / closure with known fields"""
    __slots__ = ('tag', 'var', 'f')

    def __init__(self, tag, var, f):
        self.tag, self.var, self.f = tag, var, tuple(f)

    def __eq__(self, o):
        return self is o or (o.__class__ is Agg and self.tag == o.tag and self.var == o.var and self.f == o.f)

    def __hash__(self):
        return hash((self.tag, self.var, self.f))

    def __repr__(self):
        n = mir.ADTS[self.tag[1]] if self.tag[0] == 'adt' else None
        if n:
            v = n['variants'][self.var]['n'] if n['kind'] == 'enum' else ''
            return '%s%s%s' % (n['name'], '::' + v if v else '', list(self.f) if self.f else '')
        return '%s%s' % (self.tag[0] if self.tag[0] != 'tuple' else '', list(self.f))


class Sym(V):
    """a value of known type about which only facts are known; expanded on demand"""
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def __eq__(self, o):
        return self is o or (o.__class__ is Sym and self.t is o.t)

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return '<%s:%s>' % (show(self.t), mir.tshow(self.ty))


class Ref(V):
    __slots__ = ('obj', 'path', 'mut')

    def __init__(self, obj, path=(), mut=False):
        self.obj, self.path, self.mut = obj, path, mut

    def __eq__(self, o):
        return self is o or (o.__class__ is Ref and self.obj == o.obj and self.path == o.path)

    def __hash__(self):
        return hash((self.obj, self.path))

    def __repr__(self):
        return '&%s%s' % (oshow(self.obj), ''.join(map(pshow, self.path)))


class Slice(V):
    """&[T], &mut [T] or &str: n elements from index lo of the sequence at (obj, path)"""
    __slots__ = ('obj', 'path', 'lo', 'n', 'st', 'mut')

    def __init__(self, obj, path, lo, n, st=False, mut=False):
        self.obj, self.path, self.lo, self.n, self.st, self.mut = obj, path, lo, n, st, mut

    def __eq__(self, o):
        return self is o or (o.__class__ is Slice and self.obj == o.obj and self.path == o.path and self.lo is o.lo and self.n is o.n)

    def __hash__(self):
        return hash((self.obj, self.path, self.lo, self.n))

    def __repr__(self):
        return '&%s%s[%s;+%s]' % (oshow(self.obj), ''.join(map(pshow, self.path)), show(self.lo), show(self.n))


class Seq(V):
    """contents of a Vec/String/array/slice: segments, length, element type, point updates"""
    __slots__ = ('segs', 'n', 'ety', 'ov', 'gh')

    def __init__(self, segs, n, ety, ov=(), gh=None):
        self.segs, self.n, self.ety, self.ov, self.gh = tuple(segs), n, ety, ov, gh

    def __eq__(self, o):
        return self is o or (o.__class__ is Seq and self.n is o.n and self.segs == o.segs and self.ov == o.ov and self.gh == o.gh)

    def __hash__(self):
        return hash((self.segs, self.n, self.ov))

    def __repr__(self):
        return 'Seq{%s}#%s%s' % (' '.join(map(segshow, self.segs)), show(self.n), '!ov%d' % len(self.ov) if self.ov else '')


class Map(V):
    """contents of a BTreeMap/HashMap: a symbolic base, overridden per-key entries, and the size"""
    __slots__ = ('base', 'ent', 'n', 'kty', 'vty')

    def __init__(self, base, ent, n, kty, vty):
        self.base, self.ent, self.n, self.kty, self.vty = base, tuple(ent), n, kty, vty

    def __eq__(self, o):
        return self is o or (o.__class__ is Map and self.base is o.base and self.n is o.n and self.ent == o.ent)

    def __hash__(self):
        return hash((self.base, self.n, self.ent))

    def __repr__(self):
        return 'Map{%s | %s}#%s' % (show(self.base) if self.base else '', ', '.join('%s:%s' % (keyshow(k), v if p else '-' if p is False else '?') for k, p, v in self.ent), show(self.n))


class FnV(V):
    __slots__ = ('key', 'args', 'path')

    def __init__(self, key, args, path):
        self.key, self.args, self.path = key, args, path

    def __eq__(self, o):
        return self is o or (o.__class__ is FnV and self.key == o.key and self.args == o.args)

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return 'fn %s' % self.path


class Disc(V):
    """the tag of a symbolic enum value"""
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def __eq__(self, o):
        return o.__class__ is Disc and o.t is self.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return 'disc(%s)' % show(self.t)


class Star:
    """what one loop appends to a sequence, per iteration (a segment summary)"""
    __slots__ = ('rec', 'leaf', 'iters')

    def __init__(self, rec, leaf):
        self.rec, self.leaf, self.iters = rec, leaf, []

    def __repr__(self):
        return 'star@%s' % (self.rec.name if self.rec else '?')


UNIT = Agg(('tuple',), 0, ())


def oshow(o):
    if o[0] == 'L':
        return 'L%s.%s' % (o[1], o[2])
    if o[0] == 'D':
        return '*' + show(o[1])
    return '%s%s' % (o[0], o[1] if len(o) > 1 else '')


def pshow(e):
    if e[0] == 'f':
        return '.%s' % e[1]
    if e[0] == 'i':
        return '[%s]' % show(e[1])
    if e[0] in ('mk', 'mi', 'mik'):
        return '{%s}' % keyshow(e[1])
    return '.' + e[0]


def keyshow(k):
    return show(k) if isinstance(k, (Lin, Term, tuple, bytes)) else repr(k)


def segshow(s):
    if s[0] == 'e':
        return repr(s[1])
    if s[0] == 'c':
        try:
            return repr(bytes(s[1])) if len(s[1]) < 40 else 'const[%d]' % len(s[1])
        except (ValueError, TypeError):
            return repr(s[1])
    if s[0] in ('s', 'rs'):
        return '%s%s[%s;+%s]' % ('rev ' if s[0] == 'rs' else '', show(s[1]), show(s[2]), show(s[3]))
    if s[0] == 'r':
        return '%r*%s' % (s[1], show(s[2]))
    if s[0] == '*':
        return '(%r)*%s' % (s[1], show(s[2]))
    return str(s[0])


def seglen(s):
    if s[0] == 'e':
        return ONE
    if s[0] == 'c':
        return const(len(s[1]))
    if s[0] in ('s', 'rs'):
        return s[3]
    return s[2]


class State:
    __slots__ = ('objs', 'facts', 'trace', 'ntrace', 'ghost', 'mut')

    def __init__(self):
        self.objs = {}
        self.facts = Facts()
        self.trace = None
        self.ghost = {}
        self.mut = {}       # object -> when it was last written or borrowed mutably by name

    def copy(self):
        s = State.__new__(State)
        s.objs = dict(self.objs)
        s.facts = self.facts.copy()
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        s.mut = self.mut
        return s

    def emit(self, *ev):
        self.trace = (self.trace, ev)

    def events(self, since=None):
        r = []
        t = self.trace
        while t is not None and t is not since:
            r.append(t[1])
            t = t[0]
        r.reverse()
        return r


SEQ_ADTS = ('Vec', 'String', 'VecDeque')
MAP_ADTS = ('BTreeMap', 'HashMap')


def is_seq_ty(ty):
    return ty[0] in ('array', 'slice', 'str') or (ty[0] == 'adt' and mir.ADTS[ty[1]]['name'] in SEQ_ADTS and not mir.ADTS[ty[1]]['local'])


def is_map_ty(ty):
    return ty[0] == 'adt' and mir.ADTS[ty[1]]['name'] in MAP_ADTS and not mir.ADTS[ty[1]]['local']


def elem_ty(ty):
    if ty[0] in ('array', 'slice'):
        return ty[1]
    if ty[0] == 'str':
        return U8
    n = mir.ADTS[ty[1]]['name']
    return U8 if n == 'String' else ty[2][0]


def mkval(t, ty):
    """the abstract value of type ty named by term t"""
    k = ty[0]
    if k in ('int', 'char'):
        if t.ty != ty:
            t = T(t.op, *t.args, ty=ty)
        return atom(t)
    if k == 'bool':
        if t.ty != ty:
            t = T(t.op, *t.args, ty=ty)
        return t
    if k == 'tuple' and not ty[1]:
        return UNIT
    if k in ('ref', 'ptr'):
        inner = ty[2]
        DTY[t] = inner
        if inner[0] in ('slice', 'str'):
            return Slice(('D', t), (), ZERO, atom(len_term(('D', t))), inner[0] == 'str', ty[1])
        return Ref(('D', t), (), ty[1])
    if k == 'fndef':
        return FnV(ty[1], ty[2], ty[3])
    if k == 'adt':
        info = mir.ADTS[ty[1]]
        if info['kind'] == 'enum':
            set_nvariants(t, len(info['variants']))
            if len(info['variants']) == 1 and not info['variants'][0]['f']:
                return Agg(('adt', ty[1]), 0, ())
        elif info['kind'] == 'struct' and info['full'] and info['local'] and not info['variants'][0]['f']:
            return Agg(('adt', ty[1]), 0, ())
        if info['name'] == 'PhantomData':
            return Agg(('adt', ty[1]), 0, ())
    return Sym(t, ty)


def len_term(obj):
    t = obj[1]
    return T('len', T('deref', t), ty=LEN)
